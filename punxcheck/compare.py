"""Tables of guarded findings, and their comparison."""
from .core import *  # noqa: F401,F403
from .preds import *  # noqa: F401,F403
from .preds import reatom, consistent
from .program import AnalysisBroken

ADDR = "addresses"


def normal(t):
    """items are catalogued under their own address (property C17)"""
    m = {}
    for x in syms(t):
        if x.op == "a" and x.args[1] == "h5_address":
            b = x.args[0]
            if b.op == "i" and b.args[0].op == "a" and b.args[0].args[1] == ADDR:
                m[x] = b.args[1]
    return subst(t, m) if m else t


class Row:
    """one kind of effect: what it is, for each of which elements it happens, and when"""

    __slots__ = ("loops", "fields", "guard", "events", "form")

    def __init__(self, loops, fields, guard, events, form):
        self.loops, self.fields, self.guard, self.events, self.form = loops, fields, guard, events, form

    def key(self):
        return (tuple((t, e) for t, e, s in self.loops), self.fields)

    def text(self):
        each = "".join(" for each %s" % show(t) for t, e, s in self.loops)
        return self.form.format(*[show(f) if isinstance(f, Term) else f for f in self.fields]) + each


FINDING = "finding {0}: {1} at {2}"


def rows(entries, form=FINDING, fix=normal):
    """entries: (event, field, field, ...), fields are gated values or plain text"""
    out = []
    for ev, *fields in entries:
        loops = tuple(l.key() for l in ev.loops)
        combos = [((), ev.guard)]
        for f in fields:
            if isinstance(f, Term):
                f = V(f)
            l = f.items if isinstance(f, GVal) else ((f, T),)
            combos = [(fs + (fix(t) if isinstance(t, Term) else t,), b_and(g, h)) for fs, g in combos for t, h in l if b_and(g, h) != F]
            combos = [(fs[:-1] + (t,), h) for fs, g in combos for t, h in by_value(fs[-1], g)]
        for fs, g in combos:
            if g != F:
                out.append(Row(loops, tuple(given(t, g) for t in fs), g, [ev], form))
    return out


def given(t, g):
    """the members of a collection when g holds"""
    if not isinstance(t, Term) or t.op not in ("list", "dict", "set") or not t.args or not isinstance(t.args[0], tuple):
        return t
    out = []
    for s in t.args[0]:
        if s.op == "seg" and not s.args[0] and isinstance(s.args[3], Term) and s.args[3].op == "bdd":
            h = s.args[3].args[0]
            if b_and(g, h) == F:
                continue
            if b_implies(g, h):
                s = mk("seg", *s.args[:3], mk("bdd", T))
        out.append(s)
    return mk(t.op, tuple(out), *t.args[1:])


def by_value(t, g):
    """text made with a part that the guard compares with constants, separately for each of these"""
    if not isinstance(t, Term) or t.op != "cat":
        return [(t, g)]
    out = []
    for p in t.args:
        if p.op == "c":
            continue
        for v in sorted(support(g)):
            a = ATOMS[v]
            if a.op == "eq" and p in a.args:
                c = a.args[1] if a.args[0] is p else a.args[0]
                if c.op == "c" and isinstance(cval(c), str) and b_and(g, atom(a)) != F:
                    out.append((cat(*[c if x is p else x for x in t.args]), b_and(g, atom(a))))
                    g = b_and(g, b_not(atom(a)))
    return out + ([(t, g)] if g != F else [])


def setattrs(events):
    """value assigned to each attribute of each object, over all assignments"""
    d = {}
    for e in events:
        if e.kind == "setattr":
            m = d.setdefault(e.args["obj"], {})
            k, v = e.args["attr"], e.args["value"]
            m[k] = g_ite(e.guard, v, m[k]) if k in m else v
    return d


class Diff:
    __slots__ = ("key", "code", "spec", "guard", "loops", "kind")

    def __init__(self, key, code, spec, guard, loops, kind):
        self.key, self.code, self.spec, self.guard, self.loops, self.kind = key, code, spec, guard, loops, kind

    def where(self):
        for r in self.code:
            for e in r.events:
                return e.where()
        return None

    def text(self):
        r = (self.code or self.spec)[0]
        if not self.code:
            w = "is not recorded"
        elif not self.spec:
            w = "is not expected"
        else:
            w = {"missing": "is not recorded in all cases", "extra": "is recorded in other cases", "stop": "stops the loop in other cases",
                 }.get(self.kind, "differs")
        return "%s %s; e.g. when %s" % (r.text(), w, example(self.guard))


def example(g):
    s = one_sat(g)
    if s is None:
        return "?"
    out = []
    for a, b in s.items():
        out.append(("" if b else "not ") + show(a))
    return " and ".join(out)[:3000]


def compare(code, spec, care=T, assume=None):
    """differences between two tables of rows, within the guard `care`"""
    diffs, n = compare_rows(code, spec, care, assume)
    if diffs:
        known = texts_compared(code + spec)
        if known:  # a text which is compared with a constant may stand for it
            again, n = compare_rows(by_constant(code, known), by_constant(spec, known), care, assume)
            if not again:
                return again, n
    return diffs, n


def texts_compared(rs):
    """the constants each term is compared with, where it is a field of a row"""
    fields = {f for r in rs for f in r.fields if isinstance(f, Term) and f.op != "c"}
    out = {}
    for v in set().union(*[support(r.guard) for r in rs]):
        a = ATOMS[v]
        if a.op == "eq":
            for x, c in (a.args, a.args[::-1]):
                if x in fields and c.op == "c" and isinstance(cval(c), str):
                    out.setdefault(x, set()).add(c)
    return out


def by_constant(rs, known):
    out = []
    for r in rs:
        parts = [(r.fields, r.guard)]
        for i, f in enumerate(r.fields):
            for c in sorted(known.get(f, ()) if isinstance(f, Term) else (), key=lambda t: t.id):
                a = p_eq(f, c)
                parts = [(fs[:i] + (c,) + fs[i + 1 :], b_and(g, a)) for fs, g in parts if fs[i] is f] + [(fs, g) for fs, g in parts if fs[i] is not f] + [(fs, b_and(g, b_not(a))) for fs, g in parts if fs[i] is f]
        out += [Row(r.loops, fs, g, r.events, r.form) for fs, g in parts if g != F]
    return out


def compare_rows(code, spec, care=T, assume=None):
    tab = {}
    for side, rs in (("code", code), ("spec", spec)):
        for r in rs:
            tab.setdefault(r.key(), {"code": [], "spec": []})[side].append(r)
    diffs, compared = [], 0
    for key, d in tab.items():
        compared += 1
        gc = b_or(*[r.guard for r in d["code"]])
        gs = b_or(*[r.guard for r in d["spec"]])
        # inside a loop, what it goes through is not empty
        inside = b_and(*[p_truthy(t) for t, e in key[0]])
        for kind, g in (("extra", b_and(gc, b_not(gs))), ("missing", b_and(gs, b_not(gc)))):
            g = b_and(g, care, inside)
            if assume is not None:
                g = assume(g)
            if g != F:
                g = consistent(g)
            if g != F:
                loops = (d["code"] or d["spec"])[0].loops
                diffs.append(Diff(key, d["code"], d["spec"], g, loops, kind))
        if d["code"] and d["spec"]:
            sc = {r.loops for r in d["code"]}
            ss = {r.loops for r in d["spec"]}
            if sc != ss:
                for a in sc:
                    for b in ss:
                        g = F
                        for x, y in zip(a, b):
                            g = b_or(g, b_xor(x[2], y[2]))
                        g = b_and(g, care)
                        if assume is not None:
                            g = assume(g)
                        if g != F:
                            g = consistent(g)
                        if g != F:
                            diffs.append(Diff(key, d["code"], d["spec"], g, a, "stop"))
    return diffs, compared
