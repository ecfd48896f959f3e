"""Caches and installation (C01 - C08, C41)."""
import ast

from ..analysis import Analysis
from ..core import *  # noqa: F401,F403
from ..equiv import *  # noqa: F401,F403
from ..equiv import Pseudo, as_gv, reified
from ..interp import lib
from ..lib import basename, mkpath
from ..preds import consistent, p_eq, p_truthy
from ..program import AnalysisBroken
from ..writes import DIRECTORIES, MOVES, REMOVES, below, starts_with, writes

EQ = "reference-function"
EQ_TEXT = "the function computed from the source has, for every input, the results, exceptions and effects of the reference function in punxcheck/spec/spec_cache.py"
CM = "punx.cache_manager."


class Install:
    """download_file_set(name, cache, replace), the code and the reference"""

    def __init__(self, ctx):
        A = self.A = Analysis(["spec_cache"])
        self.name = A.obj("name")
        self.cache = mkpath([A.obj("cache")])
        self.final = mkpath([A.obj("cache"), self.name])
        self.replace = A.obj("replace")
        args = [self.name, self.cache, self.replace]
        self.rc = A.run(CM + "download_file_set", args)
        self.rs = A.run("spec_cache.install", args)
        f = A.I.func_of(A.I.find_func(CM + "download_file_set"))
        self.where = "%s:%s" % (f.where(), f.node.lineno)
        self.there = atom(mk("truthy", mk("f", "exists_path", self.final)))
        # an installed file set is a directory
        self.installed = b_and(self.there, atom(mk("truthy", mk("f", "isdir", self.final))), b_not(atom(mk("truthy", mk("f", "isfile", self.final)))))
        self.update = atom(mk("truthy", self.replace))
        self.wc = list(writes(self.rc))
        self.ws = list(writes(self.rs))
        self.tried = b_or(*[e.guard for e in requests(self.rc)])
        self.tried_s = b_or(*[e.guard for e in requests(self.rs)])

    def plain(self, t):
        """this part of a path is a plain directory name"""
        g = b_and(*[b_not(p_eq(t, C(s))) for s in ("", ".", "..")])
        return b_and(g, p_eq(t, basename(t)))


def requests(r):
    return [e for e in r.events if e.kind == "lib" and e.args["name"].startswith("requests.") and e.args["name"].split(".")[1] in ("get", "request", "Session")]


def install(ctx):
    return ctx.get("install", lambda: Install(ctx))


# ------------------------------------------------------------------ C41


def C41(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    A = Analysis(["spec_cache"])
    rc, rs = equivalent(A, rep, EQ, CM + "download_NeXus_zip_archive", "spec_cache.download", [A.obj("url")], (eff_return, eff_raise, eff_requests))
    n = A.I.modules["punx.cache_manager"] if hasattr(A.I, "modules") else None
    rep.floor("requests made at most", len(requests(rc)), 2)


def eff_requests(I, r, name):
    out = []
    for e in requests(r):
        nth = e.args["kwargs"].get("nth")
        n = str(nth) if not isinstance(nth, GVal) else show(nth)
        out.append((e, "requests (%s)" % n, reified(I, r, e.args["args"][0])))
    return out


# ------------------------------------------------------------------ C02

ALONE = "installed-set-untouched"
ALONE_TEXT = "no download is requested, and nothing is written, renamed or removed, under a condition in which the file set's directory exists and no update was asked for"
REPL = "update-replaces"
REPL_TEXT = "whenever the reference moves the new files in place, the code has removed what was there and moves them there, too"
WIRED = "wiring"
WIRED_TEXT = "installing from the command line is, for each name given and no other, one call of download_file_set for the user's cache, with the choice of --update"


def C02(ctx, rep):
    rep.rule(ALONE, ALONE_TEXT)
    rep.rule(REPL, REPL_TEXT)
    rep.rule(WIRED, WIRED_TEXT)
    N = install(ctx)
    rep.analysed(N.rc)
    no = b_and(N.installed, b_not(N.update))
    n = 0
    for w in N.wc:
        g = consistent(b_and(w.event.guard, no))
        rep.ob(ALONE, w.text()[:200], g == F, w.event.where(), "happens when " + example(g) if g != F else None)
        n += 1
    for e in requests(N.rc):
        g = consistent(b_and(e.guard, no))
        rep.ob(ALONE, "download requested", g == F, e.where(), "happens when " + example(g) if g != F else None)
        n += 1
    rep.floor("writes and downloads", n, 6)
    # updates
    yes = b_and(N.installed, N.update)
    clear = F
    place = F
    for w in N.wc:
        for g in removes(w, N.final):
            clear = b_or(clear, g)
        for g in moves_to(w, N.final):
            place = b_or(place, g)
    want = F
    for w in N.ws:
        for g in moves_to(w, N.final):
            want = b_or(want, g)
    for what, cond, have in (("the old files are removed", yes, clear), ("the new files are moved there", T, place)):
        g = consistent(b_and(want, cond, b_not(have)))
        rep.ob(REPL, what, g == F, N.where, "not when " + example(g) if g != F else None)
    calls_install(rep)


def calls_install(rep):
    A = Analysis(["spec_cache"])
    for q in ("download_file_set", "CacheManager.table_of_caches", "CacheManager.select_NXDL_file_set", "Base_Cache.path", "CacheManager.all_file_sets"):
        A.I.opaque[CM + q] = None
    equivalent(A, rep, WIRED, "punx.main.func_install", "spec_cache.run_install", [A.obj("args")], (eff_calls(CM + "download_file_set"), eff_raise))


def eff_calls(*quals):
    def eff(I, r, name):
        out = []
        for e in r.events:
            if e.kind == "call" and e.args["func"] in quals:
                a = e.args["args"]
                out.append((e, "calls %s(%s)" % (e.args["func"].split(".")[-1], ", ".join(a)), *[reified(I, r, strip_str(v)) for v in a.values()]))
        return out

    return eff


def strip_str(v):
    from ..writes import strip

    return strip(v)


def removes(w, final):
    """conditions under which this write removes the path"""
    i = REMOVES.get(w.verb)
    if i is not None and i < len(w.paths):
        for t, g in w.paths[i].items:
            if t is final:
                yield b_and(w.event.guard, g)


def moves_to(w, final):
    p = MOVES.get(w.verb)
    if p is not None and len(w.paths) > p[1]:
        for t, g in w.paths[p[1]].items:
            if t is final:
                yield b_and(w.event.guard, g)


def into(w, final):
    """conditions under which this write changes something at or below the path"""
    for v in w.paths:
        for t, g in v.items:
            if starts_with(t, final):
                yield t, b_and(w.event.guard, g)


# ------------------------------------------------------------------ C03

ORDER = "removed-last"
ORDER_TEXT = (
    "each operation that removes or changes anything at the file set's own directory comes, on every path, after the archive was extracted, its content was checked and the "
    "information record was written; what can still fail after it is only the renaming itself"
)


def C03(ctx, rep):
    rep.rule(ORDER, ORDER_TEXT)
    N = install(ctx)
    rep.analysed(N.rc)
    evs = N.rc.events
    touch = []
    for w in N.wc:
        gs = [g for t, g in into(w, N.final)]
        if gs and b_or(*gs) != F and consistent(b_or(*gs)) != F:
            touch.append((w, b_or(*gs)))
    rep.floor("operations on the file set's directory", len(touch), 2)
    ids = {id(w.event) for w, g in touch}
    first = min(w.event.seq for w, g in touch) if touch else 0
    # what the reference requires before
    want = F
    for w in N.ws:
        for g in removes(w, N.final):
            want = b_or(want, g)
        for g in moves_to(w, N.final):
            want = b_or(want, g)
    for w, g in touch:
        miss = consistent(b_and(g, b_not(want)))
        rep.ob(ORDER, "%s only after a complete download" % w.text()[:150], miss == F, w.event.where(), "happens when " + example(miss) if miss != F else None)
        # everything else that can fail or that prepares the new files comes first
        for x in N.wc:
            if id(x.event) in ids or x.event.seq < w.event.seq:
                continue
            both = consistent(b_and(x.event.guard, g))
            rep.ob(ORDER, "%s before %s" % (x.text()[:100], w.text()[:100]), both == F, x.event.where(), "prepares the new files after the old ones were changed" if both != F else None)
    for e in evs:
        if e.kind in ("escape", "libescape") and e.seq > first:
            own = [w for w, g in touch if w.event.node is e.node or same_call(w.event, e)]
            if own:
                continue
            for w, g in touch:
                if w.event.seq < e.seq:
                    both = consistent(b_and(e.guard, g))
                    what = show(e.args.get("cls"))
                    rep.ob(ORDER, "%s after %s" % (what, w.text()[:100]), both == F, e.where(), "fails after the old files were changed: when " + example(both) if both != F else None)
    # all removals are followed by putting the replacement in place
    place = F
    fails = F
    for w, g in touch:
        for h in moves_to(w, N.final):
            place = b_or(place, h)
    for e in evs:
        if e.kind in ("escape", "libescape") and e.seq > first:
            fails = b_or(fails, e.guard)
    for w, g in touch:
        if list(removes(w, N.final)):
            miss = consistent(b_and(g, b_not(place), b_not(fails)))
            rep.ob(ORDER, "the replacement takes the place of what %s removes" % w.text()[:100], miss == F, w.event.where(), "not when " + example(miss) if miss != F else None)
    order = [w.event.seq for w, g in touch if list(moves_to(w, N.final))]
    for w, g in touch:
        if not list(moves_to(w, N.final)) and order:
            rep.ob(ORDER, "%s comes before the replacement" % w.text()[:100], w.event.seq < max(order), w.event.where(), "what was installed is changed again")


def same_call(a, b):
    return a.node is not None and b.node is not None and a.node is b.node


# ------------------------------------------------------------------ C04

MEMBERS = "members"
MEMBERS_TEXT = "the members extracted, their place and the condition are those of the reference, for every member of any archive"


def eff_extract(I, r, name):
    out = []
    for w in writes(r):
        if w.verb in (".extract", ".extractall"):
            e = w.event
            m = e.args["args"][0] if e.args["args"] else V(C(None))
            out.append((e, "extracts", reified(I, r, m), *[reified(I, r, p) for p in w.paths]))
    return out


def C04(ctx, rep):
    rep.rule(MEMBERS, MEMBERS_TEXT)
    N = install(ctx)
    rep.analysed(N.rc)
    tc = table(N.A.I, N.rc, (eff_extract,), "install")
    ts = table(N.A.I, N.rs, (eff_extract,), "install")
    diffs, n = compare(tc, ts, b_and(N.tried, N.tried_s))
    bad = {d.key for d in diffs}
    for r in {r.key(): r for r in ts}.values():
        rep.ob(MEMBERS, r.text()[:300], True) if r.key() not in bad else None
    for d in diffs:
        rep.ob(MEMBERS, d.kind, False, d.where() or N.where, d.text())
    rep.floor("extractions", len(tc), 1)


# ------------------------------------------------------------------ C05

INSIDE = "inside-cache"
INSIDE_TEXT = (
    "each path written, renamed or removed is the cache directory followed by at least one part, each a constant plain name or a value which the condition of the operation "
    "forces to be a plain name: not empty, '.' or '..', and equal to its own last component"
)
REFUSED = "refused"
REFUSED_TEXT = "for a name which is not a plain directory name, no download is requested, nothing is changed, and the call ends with an exception"


def C05(ctx, rep):
    rep.rule(INSIDE, INSIDE_TEXT)
    rep.rule(REFUSED, REFUSED_TEXT)
    N = install(ctx)
    rep.analysed(N.rc)
    n = 0
    for w in N.wc:
        g0 = w.event.guard
        if not w.paths:
            rep.ob(INSIDE, w.text()[:200], False, w.event.where(), "the path is not known")
        for v in w.paths:
            for t, g in v.items:
                n += 1
                g = b_and(g0, g)
                parts = below(t, N.cache)
                inst = "%s: %s" % (w.verb, show(t)[:160])
                if parts is None:
                    rep.ob(INSIDE, inst, False, w.event.where(), "not below the cache directory")
                    continue
                if not parts and w.verb not in (".extract", ".extractall") and w.verb not in DIRECTORIES:
                    rep.ob(INSIDE, inst, False, w.event.where(), "is the cache directory itself")
                    continue
                bad = None
                for p in parts:
                    if p.op == "c":
                        s = cval(p)
                        if not isinstance(s, str) or s in ("", ".", "..") or "/" in s:
                            bad = "part %r" % (s,)
                        continue
                    q = consistent(b_and(g, b_not(N.plain(p))))
                    if q != F:
                        bad = "part %s may be no plain name: %s" % (show(p)[:120], example(q)[:300])
                rep.ob(INSIDE, inst, bad is None, w.event.where(), bad)
    rep.floor("paths written", n, 6)
    no = b_not(N.plain(N.name))
    for w in N.wc:
        g = consistent(b_and(w.event.guard, no))
        rep.ob(REFUSED, w.text()[:200], g == F, w.event.where(), "happens when " + example(g) if g != F else None)
    for e in requests(N.rc):
        g = consistent(b_and(e.guard, no))
        rep.ob(REFUSED, "download requested", g == F, e.where(), "happens when " + example(g) if g != F else None)
    g = consistent(b_and(N.rc.state.pc, no))
    rep.ob(REFUSED, "the call does not return", g == F, N.where, "returns when " + example(g) if g != F else None)


# ------------------------------------------------------------------ C06

RECORD = "record"
RECORD_TEXT = (
    "the record is written at the place, and holds under each key that is read back the value, which the reference gives; reading takes the same keys from the record"
)
KEYS = ("ref", "sha", "zip_url", "last_modified")


def eff_record(I, r, name):
    """entries of the record, at the path of the installed file set"""
    out = []
    for e in r.events:
        if e.kind != "writefile":
            continue
        for p, pg in e.args["path"].items:
            for t, g in e.args["text"].items:
                if t.op == "f" and t.args[0] == "jsontext":
                    d = t.args[1]
                    for dd, gd in as_items(spread(d)):
                        if dd.op == "dict":
                            for k, v, h in entries(dd):
                                if k.op == "c" and cval(k) in KEYS:
                                    for vv, vg in as_items(spread(v)):
                                        out.append((Pseudo2(b_and(e.guard, pg, g, gd, h, vg), e), "records", p, k, vv))
                        else:
                            out.append((e, "writes", p, dd))
                else:
                    out.append((e, "writes text", p, t))
    return out


class Pseudo2:
    kind = "record"

    def __init__(self, guard, e):
        self.guard, self.e, self.loops, self.stack = guard, e, e.loops, e.stack

    def where(self):
        return self.e.where()


def as_items(x):
    return x.items if isinstance(x, GVal) else ((x, T),)


def entries(d):
    for s in d.args[0] if d.args and isinstance(d.args[0], tuple) else d.args:
        yield s.args[1], s.args[2], s.args[3].args[0] if s.args[3].op == "bdd" else T


def C06(ctx, rep):
    rep.rule(RECORD, RECORD_TEXT)
    N = install(ctx)
    rep.analysed(N.rc)
    tc = table(N.A.I, N.rc, (eff_record,), "install")
    ts = table(N.A.I, N.rs, (eff_record,), "install")
    diffs, n = compare(tc, ts, b_and(N.tried, N.tried_s))
    bad = {d.key for d in diffs}
    for r in {r.key(): r for r in ts}.values():
        rep.ob(RECORD, r.text()[:300], True) if r.key() not in bad else None
    for d in diffs:
        rep.ob(RECORD, d.kind, False, d.where() or N.where, d.text())
    rep.floor("entries of the record", len(tc), 4)
    A = Analysis(["spec_cache"])
    equivalent(A, rep, RECORD, CM + "NXDL_File_Set.read_info_file", "spec_cache.read_record",
               [A.obj("file_set", "NXDL_File_Set"), A.obj("file_name")], (eff_raise, not_cache))


def not_cache(I, r, name):
    return [x for x in eff_state(I, r, name) if cval(x[3]) != "cache"]


# ------------------------------------------------------------------ C07, C08


def eff_directory(I, r, name, made=True):
    """which directories are there afterwards"""
    out = []
    for w in writes(r):
        if w.verb in DIRECTORIES:
            for p in w.paths[:1]:
                for t, g in as_gv(reified(I, r, p)).items:
                    if t.op == "f" and t.args[0] == "path" and len(t.args) == 2:
                        t = t.args[1]
                    there = p_truthy(mk("f", "exists_path", t))
                    if made:
                        out.append((Pseudo(b_or(b_and(w.event.guard, g), there), name), "is there", t))
                    else:
                        out.append((there, t))
    return out


def C07(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    A = Analysis(["spec_cache"])
    equivalent(A, rep, EQ, CM + "Base_Cache.all_file_sets", "spec_cache.cache_file_sets", [A.obj("cache", "Base_Cache")], (eff_return, eff_raise))
    A = Analysis(["spec_cache"])
    equivalent(A, rep, EQ, CM + "CacheManager.all_file_sets", "spec_cache.known_file_sets", [A.obj("manager", "CacheManager")], (eff_return, eff_raise, eff_state))
    for cls, spec in (("SourceCache", "source_cache"), ("UserCache", "user_cache")):
        A = Analysis(["spec_cache"])
        args = [A.obj("cache", cls)]
        r = A.run(CM + cls + ".__init__", args)
        there = T
        for f, w in eff_directory(A.I, r, cls, made=False):
            there = b_and(there, f)
        equivalent(A, rep, EQ, CM + cls + ".__init__", "spec_cache." + spec, args, (eff_directory,))
        equivalent(A, rep, EQ, CM + cls + ".__init__", "spec_cache." + spec, args, (eff_state, eff_raise), care=there)
    A = Analysis(["spec_cache"])
    for q in ("CacheManager.all_file_sets", "CacheManager.select_NXDL_file_set", "SourceCache.__init__", "UserCache.__init__"):
        A.I.opaque[CM + q] = None
    equivalent(A, rep, EQ, CM + "CacheManager.__init__", "spec_cache.cache_manager_init", [A.obj("manager", "CacheManager")], (eff_state, eff_raise))


def C08(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    A = Analysis(["spec_cache"])
    m = A.obj("manager", "CacheManager")
    known = T
    equivalent(A, rep, EQ, CM + "CacheManager.select_NXDL_file_set", "spec_cache.select", [m], (eff_return, eff_raise, eff_state))
    equivalent(A, rep, EQ, CM + "CacheManager.select_NXDL_file_set", "spec_cache.select", [m, A.obj("ref")], (eff_return, eff_raise, eff_state))
