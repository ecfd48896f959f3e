"""Predicates (C43), decoding (C33), scores (C30), recording (C29), reuse (C32)."""
from ..analysis import Analysis, DECODE
from ..core import *  # noqa: F401,F403
from ..equiv import eff_coll, eff_method, eff_raise, eff_return, eff_set, eff_state, equivalent
from ..interp import lib
from ..preds import consistent, p_eq, p_in

EQ = "reference-function"
EQ_TEXT = "the function computed from the source has, for every input, the result, exceptions and effects of the reference function in punxcheck/spec/spec_util.py"

V_ = "punx.validate.Data_File_Validator."


PREDICATES = {
    "isHdf5FileObject": ("is_file", ["obj"]),
    "isHdf5Group": ("is_group", ["obj"]),
    "isHdf5Dataset": ("is_dataset", ["obj"]),
    "isHdf5Link": ("is_link", ["obj"]),
    "isHdf5ExternalLink": ("is_external_link", ["parent", "obj"]),
    "isNeXusGroup": ("is_nexus_group", ["obj", "NXtype"]),
    "isNeXusDataset": ("is_dataset", ["obj"]),
    "isNeXusLink": ("is_nexus_link", ["obj"]),
    "isNeXusFile": ("is_nexus_file", ["filename"]),
    "isHdf5Ancestor": ("is_ancestor", ["group", "ancestors"]),
}


def C43(ctx, rep):
    predicates(rep, PREDICATES)


def predicates(rep, names):
    """the predicates of punx.utils are what they say"""
    rep.rule(EQ, EQ_TEXT)
    A = Analysis(["spec_util"])
    for code in names:
        spec, args = PREDICATES[code]
        equivalent(A, rep, EQ, "punx.utils." + code, "spec_util." + spec, [A.obj(a) for a in args])


def strip_decode(g):
    m = {}
    for v in support(g):
        for x in syms(ATOMS[v]):
            if x.op == "f" and x.args[0] == "decode":
                m[x] = x.args[1]
    return subst_bdd(g, m) if m else g


DEC = "decode-before-use"
DEC_TEXT = "a value read from the file is decoded before it decides a finding (the table of findings differs from the reference otherwise only by decoding)"


def C33(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    rep.rule(DEC, DEC_TEXT)
    A = Analysis(["spec_util"])
    equivalent(A, rep, EQ, DECODE, "spec_util.decode", [A.obj("value")])
    W = ctx.validation()
    rep.analysed(W.r)
    n = 0
    bad = {}
    for d in W.diffs:
        bad.setdefault(d.key, []).append(d)
    for r in {r.key(): r for r in W.spec}.values():
        if not any(x.op == "f" and x.args[0] == "decode" for v in support(r.guard) for x in syms(ATOMS[v])):
            continue
        n += 1
        ds = bad.get(r.key(), [])
        wrong = [d for d in ds if only_decoding(d)]
        rep.ob(DEC, r.text(), not wrong, wrong[0].where() if wrong else None, wrong[0].text() if wrong else None)
    rep.floor("findings that depend on decoded values", n, 10)


def only_decoding(d):
    """does the difference vanish when nothing is decoded on either side?"""
    gc = strip_decode(b_or(*[r.guard for r in d.code]))
    gs = strip_decode(b_or(*[r.guard for r in d.spec]))
    return b_and(b_xor(gc, gs), strip_decode(d.guard)) == F or not (decoded(gc0(d.code)) == decoded(gc0(d.spec)))


def gc0(rows):
    return b_or(*[r.guard for r in rows])


def decoded(g):
    return {x for v in support(g) for x in syms(ATOMS[v]) if x.op == "f" and x.args[0] == "decode"}


def C30(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    A = Analysis(["spec_util"])
    v = A.obj("validator", "Data_File_Validator")
    equivalent(A, rep, EQ, V_ + "finding_score", "spec_util.score", [v], (eff_return, eff_raise, eff_set, eff_coll))
    equivalent(A, rep, EQ, V_ + "finding_summary", ("spec_util.summary", "spec_util.summary_counted", "spec_util.summary_counter"), [v, A.obj("statuses")], (eff_return, eff_raise, eff_set, eff_coll))
    equivalent(A, rep, EQ, V_ + "finding_summary", ("spec_util.summary", "spec_util.summary_counted", "spec_util.summary_counter"), [v], (eff_return, eff_raise, eff_set, eff_coll))


KEEP = "findings-kept"
KEEP_TEXT = (
    "each Finding that is made is appended to the validator's list under the condition it was made, and no statement reachable from validate, print_report, "
    "finding_summary or finding_score removes a finding, replaces the list after the first finding, or assigns to an attribute of a finding"
)


def C29(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    rep.rule(KEEP, KEEP_TEXT)
    A = Analysis(["spec_util"])
    v = A.obj("validator", "Data_File_Validator")
    it = A.obj("item", "ValidationItem")
    args = [v, it, A.obj("key"), A.obj("status"), A.obj("comment")]
    equivalent(A, rep, EQ, V_ + "record_finding", "spec_util.record_finding", args, (eff_return, eff_raise, eff_set, eff_coll))
    f = A.obj("new_finding", "Finding")
    args = [f, A.obj("h5_address"), A.obj("test_name"), A.obj("status"), A.obj("comment")]
    equivalent(A, rep, EQ, "punx.finding.Finding.__init__", "spec_util.make_finding", args, (eff_raise, only_fields),
               why="the key is not part of the finding")
    W = ctx.validation()
    rep.analysed(W.r)
    made = {}
    kept = {}
    first = None
    for e in W.r.events:
        if e.kind == "new" and e.args["cls"] is W.I.clsterm(W.I.find_class("Finding")):
            made.setdefault(e.args["obj"], e)
        if e.kind == "append":
            for t, g in e.args["value"].items:
                if W.I.class_of(t) is not None and W.I.class_of(t).name == "Finding" and listed(W, e):
                    kept[t] = b_or(kept.get(t, F), b_and(e.guard, g))
                    first = e.seq if first is None else first
    for t, e in made.items():
        miss = consistent(b_and(e.guard, b_not(kept.get(t, F))))
        # the status test of the constructor lies in between
        miss = b_and(miss, b_not(raised(W, e)))
        rep.ob(KEEP, "finding made at %s is kept" % e.where(), miss == F, e.where(), show_guard(miss, 2))
    rep.floor("findings made", len(made), 60)
    results = [("validate", W.r)]
    for q, a in (("print_report", [v]), ("print_report", [v, A.obj("statuses")]), ("finding_summary", [v]), ("finding_score", [v]), ("close", [v])):
        r = A.run(V_ + q, a)
        rep.analysed(r)
        results.append((q, r))
    for q, r in results:
        bad = [e for e in r.events if touches(e, W if q == "validate" else A, first if q == "validate" else -1)]
        rep.ob(KEEP, "no finding is dropped or changed by " + q, not bad, bad[0].where() if bad else None, "; ".join(repr(e)[:300] for e in bad[:4]))


def only_fields(I, r, name):
    return [x for x in eff_state(I, r, name) if cval(x[3]) in ("h5_address", "test_name", "status", "comment")]


def raised(W, e):
    """when the constructor of the finding made at e raises"""
    g = F
    for x in W.r.events[e.seq + 1 :]:
        if x.kind == "leave_fn" and x.args["func"].qual == "Finding.__init__":
            break
        if x.kind == "escape" and x.stack and x.stack[-1].qual == "Finding.__init__":
            g = b_or(g, x.guard)
    return g


def is_list(t):
    return t.op == "a" and t.args[1] == "validations" and (t.args[0].op == "p")


def listed(W, e):
    """is the collection the validator's list of findings?"""
    c, b = e.args["coll"], e.args.get("base")
    if b is not None and is_list(b):
        return True
    return is_list(c) or c in W.lists or c in W.lists_of(W.r)


def touches(e, X, first):
    I = X.I
    if e.kind == "setattr":
        o = e.args["obj"]
        c = I.class_of(o)
        if c is not None and c.name == "Finding":
            return not any(f.qual == "Finding.__init__" for f in e.stack)
        if c is not None and c.name == "Data_File_Validator" and e.args["attr"] == "validations":
            return first is None or e.seq > first
        return False
    if e.kind in ("delitem", "clear"):
        o = e.args["obj"]
        return isinstance(o, Term) and (is_list(o) or (hasattr(X, "lists") and o in X.lists_of(X.r)))
    return False


REUSE = "fresh-start"
REUSE_TEXT = (
    "when validate() starts on a file: an absent file raises FileNotFound and one that h5py cannot open HDF5_Open_Error, exactly then; the file that was open is closed "
    "before; and the findings, addresses and class paths are new and empty before anything is catalogued"
)


def C32(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    rep.rule(REUSE, REUSE_TEXT)
    A = Analysis(["spec_util"])
    v = A.obj("validator", "Data_File_Validator")
    equivalent(A, rep, EQ, V_ + "close", "spec_util.close", [v], (eff_return, eff_raise, eff_state, eff_method("close")))
    W = ctx.validation()
    I, r = W.I, W.r
    rep.analysed(r)
    there = atom(mk("truthy", mk("f", "exists_path", W.fname)))
    h5 = [e for e in r.events if e.kind == "lib" and e.args["name"] == "h5py.File"]
    rep.ob(REUSE, "the file is opened once", len(h5) == 1 and h5[0].guard == there, h5[0].where() if h5 else None, "%d calls of h5py.File" % len(h5))
    if not h5:
        return
    opened = h5[0]
    esc = {}
    for e in r.events:
        if e.kind == "escape" and e.seq < W.start:
            esc[e.args["cls"]] = b_or(esc.get(e.args["cls"], F), e.guard)
    classes = {show(k): g for k, g in esc.items()}
    nf = guard_of(I, esc, "FileNotFound")
    rep.ob(REUSE, "FileNotFound exactly for a file that does not exist", nf == b_not(there), opened.where(), str({k: show_guard(g) for k, g in classes.items()}))
    oe = guard_of(I, esc, "HDF5_Open_Error")
    want = b_and(there, b_not(W.scope))
    rep.ob(REUSE, "HDF5_Open_Error exactly for a file that cannot be opened", oe == want, opened.where(), str({k: show_guard(g) for k, g in classes.items()}))
    lib_esc = [e for e in r.events if e.kind == "libescape" and e.seq < W.start]
    rep.ob(REUSE, "no other exception from opening the file", not [e for e in lib_esc if e.args["what"] != "close"], lib_esc[0].where() if lib_esc else None,
           "; ".join(repr(e)[:200] for e in lib_esc[:3]))
    old = mk("a", W.v, "h5")
    closes = [e for e in r.events if e.kind == "libm" and e.args["name"] == "close" and e.args["recv"] is old]
    cg = b_or(*[e.guard for e in closes if e.seq < opened.seq])
    need = b_and(there, atom(mk("isinst", old, lib("h5py.File"))))
    rep.ob(REUSE, "the file open before is closed first", consistent(b_and(need, b_not(cg))) == F, opened.where(), "closed when " + show_guard(cg, 3))
    for h, pc in W.h5:
        rep.ob(REUSE, "the file catalogued is the one opened", all(t.op == "f" and t.args[0] == "h5py.File" and t.args[1] is W.fname for t in h.leaves()), opened.where(), repr(h))
    for name in ("validations", "addresses", "classpaths"):
        for t, empty in W.fresh[name]:
            rep.ob(REUSE, "%s is new and empty when the catalog starts" % name, empty, opened.where(), show(t))
    rep.floor("catalog starts", len(W.h5), 1)


def guard_of(I, esc, cname):
    g = F
    for k, x in esc.items():
        c = I.class_by_term(k) if hasattr(I, "class_by_term") else None
        if (c.name if c is not None else show(k).rpartition(".")[2]) == cname:
            g = b_or(g, x)
    return g
