"""A function of the program against a reference function, by their tables of effects."""
from .compare import *  # noqa: F401,F403
from .compare import Row, compare, rows
from .core import *  # noqa: F401,F403
from .interp import State, lib
from .program import AnalysisBroken


class Pseudo:
    """what a function returns, as an event"""

    kind = "return"

    def __init__(self, guard, func):
        self.guard, self.func, self.loops, self.stack = guard, func, (), ()

    def where(self):
        return self.func


class Inner:
    """an effect for each element of what is added"""

    def __init__(self, e):
        self.e, self.kind, self.args, self.stack, self.node, self.seq = e, e.kind, e.args, e.stack, e.node, e.seq
        extra = tuple(e.args["loops2"])
        self.loops = e.loops + extra
        self.guard = b_and(e.guard, *[p_truthy(l.t) for l in extra])

    def where(self):
        return self.e.where()


def symbolic(t):
    return t.op not in ("o",)


def eff_return(I, r, name):
    out = []
    if r.state.pc != F:
        for t, g in r.value.items:
            under = b_and(r.state.pc, g)
            out.append((Pseudo(under, name), "returns", spread(I.reify(r.state, t, under=under))))
    return out


def eff_raise(I, r, name):
    return [(e, "raises", e.args["cls"]) for e in r.events if e.kind == "escape"]


def eff_set(I, r, name):
    """assignments to objects given from outside"""
    return [
        (e, "sets", e.args["obj"], e.args["attr"], reified(I, r, e.args["value"]))
        for e in r.events
        if e.kind == "setattr" and symbolic(e.args["obj"])
    ]


def eff_state(I, r, name):
    """the attributes of the given objects at the end"""
    out = []
    for k, v in r.state.m.items():
        if k[0] == "h" and symbolic(k[1]) and k[1].op in ("p", "a", "i", "elem"):
            for t, g in v.items:
                if t.op == "a" and t.args == (k[1], k[2]):
                    continue
                under = b_and(r.state.pc, g)
                out.append((Pseudo(under, name), "leaves", k[1], C(k[2]), spread(I.reify(r.state, t, under=under))))
    return out


def eff_coll(I, r, name):
    """what is put into collections given from outside"""
    out = []
    for e in r.events:
        if e.kind in ("append", "setitem"):
            c = e.args.get("coll") or e.args.get("obj")
            b = e.args.get("base")
            c = b if b is not None else c
            if not isinstance(c, Term) or not symbolic(c):
                continue
            if e.args.get("loops2"):
                e = Inner(e)
            if e.kind == "append":
                out.append((e, "appends", c, reified(I, r, e.args["value"])))
            else:
                out.append((e, "stores", c, reified(I, r, e.args["key"]), reified(I, r, e.args["value"])))
        elif e.kind in ("delitem", "clear"):
            c = e.args["obj"]
            if isinstance(c, Term) and symbolic(c):
                out.append((e, "removes from", c))
    return out


def bag_head(t):
    """the collection being built in a loop which t is, or is a member of"""
    while isinstance(t, Term):
        if t.op == "bag":
            return t
        if t.op != "i":
            return None
        t = t.args[0]


def eff_bags(I, r, name):
    """what is put into collections that are used while loops add to them"""
    out = []
    for e in r.events:
        if e.kind not in ("append", "setitem", "put", "delitem", "clear"):
            continue
        c = e.args.get("coll") or e.args.get("obj")
        b = e.args.get("base")
        into = [t for t in (c, b) if bag_head(t) is not None][-1:] or sorted(I.bagged.get(c, ()), key=lambda t: t.id)
        if e.args.get("loops2"):
            e = Inner(e)
        for t in into:
            if e.kind == "append" or e.kind == "put" and e.args["key"] is None:
                out.append((e, "adds", t, reified(I, r, e.args["value"])))
            elif e.kind in ("setitem", "put"):
                out.append((e, "keeps", t, reified(I, r, e.args["key"]), reified(I, r, e.args["value"])))
            else:
                out.append((e, "takes away", t))
    return out


def has_bag(row):
    ts = [f for f in row.fields if isinstance(f, Term)] + [l[0] for l in row.loops] + [ATOMS[v] for v in support(row.guard)]
    return any(x.op == "bag" for t in ts for x in subterms(t))


def eff_method(*names):
    """calls of these methods of library objects"""

    def eff(I, r, name):
        return [
            (e, "calls ." + e.args["name"], e.args["recv"], *[reified(I, r, a) for a in e.args["args"]])
            for e in r.events
            if e.kind == "libm" and e.args["name"] in names
        ]

    return eff


def eff_lib(*names):
    """calls of these library functions"""

    def eff(I, r, name):
        return [
            (e, "calls " + e.args["name"], *[reified(I, r, a) for a in e.args["args"]])
            for e in r.events
            if e.kind == "lib" and e.args["name"] in names
        ]

    return eff


def eff_print(I, r, name):
    return [(e, "prints", *[reified(I, r, a) for a in e.args["args"]]) for e in r.events if e.kind == "print"]


def eff_exit(I, r, name):
    return [(e, "exits", reified(I, r, e.args["code"])) for e in r.events if e.kind == "exitcall"]


def class_term(I, name):
    if not name.startswith("punx."):
        return lib(name)
    f = I.find_func(name)
    if f is None:
        raise AnalysisBroken("anchor vanished: " + name)
    return f if isinstance(f, Term) else f.single()


def failing(q, classes):
    """the function may raise these"""

    def h(I, st, vals, node):
        t = mk("f", "call:" + q, *[I.reify(st, v) for v in vals.values()])
        for c in classes:
            cls = class_term(I, c)
            a = atom(mk("raises", t, C(c)))
            x = State(b_and(st.pc, a), dict(st.m))
            I.do_raise(x, cls, V(mk("exc", cls, t)), node)
            st.pc = b_and(st.pc, b_not(a))
        return None

    return h


def reified(I, r, v):
    if isinstance(v, GVal):
        return g_map(lambda t: spread(I.reify(r.state, t)), v)
    return spread(I.reify(r.state, v)) if isinstance(v, Term) else v


def spread(t):
    """values by case inside of a display, as cases of the display"""
    if not isinstance(t, Term):
        return t
    if t.op == "gv":
        d = {}
        for x in t.args[0]:
            for y, g in spread_items(x.args[0]):
                d[y] = b_or(d.get(y, F), b_and(x.args[1].args[0], g))
        return from_dict(d)
    if t.op in ("list", "dict", "set") and t.args and isinstance(t.args[0], tuple):
        segs = t.args[0]
        if all(s.op == "seg" and not s.args[0] for s in segs):
            parts = []
            for s in segs:
                parts.append(s.args[1])
                parts.append(s.args[2])
            vals = [as_gv(spread(p)) for p in parts]
            if any(v.single() is None for v in vals):
                def make(*ts):
                    return mk(t.op, tuple(mk("seg", s.args[0], ts[2 * i], ts[2 * i + 1], s.args[3]) for i, s in enumerate(segs)))

                return g_map(make, *vals)
    return t


def as_gv(x):
    return V(x) if isinstance(x, Term) else x


def spread_items(x):
    return as_gv(spread(x)).items


FORMS = {
    "returns": "the result is {1}",
    "raises": "raises {1}",
    "sets": "assigns {3} to {1}.{2}",
    "leaves": "leaves {3} in {1}.{2}",
    "exits": "exits with status {1}",
}


def table(I, r, effects, name):
    out = []
    for eff in effects:
        for ent in eff(I, r, name):
            kind = ent[1]
            n = len(ent) - 1
            form = FORMS.get(kind, kind + " " + ", ".join("{%d}" % i for i in range(1, n)))
            out += rows([ent], form, lambda t: t)
    return out


def equivalent(A, rep, rule, code, spec, args, effects=(eff_return, eff_raise), kwargs=None, care=T, assume=None, prims=None, st=None, why=""):
    """obligations: each kind of effect of the code function is that of the reference
    (given as several references when there are forms not recognised as the same)"""
    I = A.I
    rc = A.run(code, args, kwargs, st=st() if st else None)
    rep.analysed(rc)
    f = A.I.func_of(A.I.find_func(code))
    found = []
    for one in spec if isinstance(spec, tuple) else (spec,):
        rs = A.run(one, args, kwargs, st=st() if st else None)
        tc = table(I, rc, effects, code)
        ts = table(I, rs, effects, one)
        if any(has_bag(r) for r in tc + ts):
            tc += table(I, rc, (eff_bags,), code)
            ts += table(I, rs, (eff_bags,), one)
        diffs, n = compare(tc, ts, care, assume)
        found.append((diffs, ts, rs))
        if not diffs:
            break
    diffs, ts, rs = found[-1] if not found[-1][0] else found[0]
    bad = {}
    for d in diffs:
        bad.setdefault(d.key, []).append(d)
    for r in {r.key(): r for r in ts}.values():
        if r.key() not in bad:
            rep.ob(rule, "%s: %s" % (f.qual, r.text()), True)
    for k, ds in bad.items():
        for d in ds:
            rep.ob(rule, "%s: %s (%s)" % (f.qual, (d.code or d.spec)[0].text()[:300], d.kind), False, where_of(d, f), d.text())
    return rc, rs


def where_of(d, f):
    w = d.where()
    if w is None or ".py" not in str(w):
        return "%s:%s" % (f.where(), f.node.lineno)
    return w
