"""The tree of an HDF5 file (C38, C39)."""
from ..analysis import Analysis
from ..core import *  # noqa: F401,F403
from ..equiv import *  # noqa: F401,F403
from ..equiv import Pseudo, as_gv
from ..interp import LoopCtx, lib
from ..lib import isinst1
from ..preds import consistent, p_eq, p_truthy
from .cli import failing
from .util import predicates

EQ = "reference-function"
EQ_TEXT = "the lines shown by the function computed from the source mention, for every file, the names, attributes and targets which those of the reference function in punxcheck/spec/spec_tree.py mention"
ONCE = "shown-once"
ONCE_TEXT = "no two lines are shown for the same member or attribute on the same path"
H = "punx.h5tree.Hdf5TreeView."
PREDS = ("isHdf5Group", "isHdf5FileObject", "isHdf5Dataset", "isNeXusLink", "isHdf5Ancestor")


class Line:
    kind = "line"

    def __init__(self, guard, loops, where):
        self.guard, self.loops, self.stack, self.args, self.w = guard, loops, (), {}, where

    def where(self):
        return self.w


def mentions(t):
    """what a text says of names, attributes and targets of links"""
    if not isinstance(t, Term):
        return {y for x in t for y in mentions(x)} if isinstance(t, tuple) else set()
    if t.op == "elem":
        c = t.args[0]
        return {t} if c.op == "p" or (c.op in ("a", "m", "f") and any(x.op == "a" and x.args[1] == "attrs" for x in syms(c))) else set()
    if t.op == "p":
        return {t} if t.args[0] == "name" else set()
    if t.op == "a":
        return {t} if t.args[1] in ("path", "name", "filename") else mentions(t.args[0])
    if t.op == "i":
        if t.args[0].op == "a" and t.args[0].args[1] == "attrs" and (t.args[1].op == "elem" or t.args[1] is C("target")):
            return {t}
        return set()
    if t.op == "f" and (t.args[0] == "eval" or t.args[0].startswith("rec:")):
        return set()
    if t.op in ("bdd", "for"):
        return set()
    return {y for x in t.args for y in mentions(x)}


def recursion(t):
    """the call which shows what is in a member"""
    if t.op == "elem" and t.args[0].op == "f" and t.args[0].args[0].startswith("rec:"):
        return t.args[0]
    return t if t.op == "f" and t.args[0].startswith("rec:") else None


def eff_lines(I, r, name):
    out = []
    for t, g in r.value.items:
        if t is NONE:
            out.append((Pseudo(b_and(r.state.pc, g), name), "shows nothing"))
            continue
        c = recursion(t)
        if c is not None:
            out.append((Line(b_and(r.state.pc, g), (), name), "descends into", *c.args[2:]))
            continue
        for loops, val, h in I.pieces(r.state, t):
            under = b_and(r.state.pc, g, h)
            loops = tuple(l for l in loops if recursion(l.t) is None)
            for x, k in as_gv(reified(I, r, val)).items:
                w = b_and(under, k)
                if w == F:
                    continue
                c = recursion(x)
                if c is not None:
                    # which group, under what name, found by which link, within which groups
                    out.append((Line(w, loops, name), "descends into", *[y for j, y in enumerate(c.args[1:]) if j not in (0, 3)]))
                    continue
                m = mentions(x)
                if m:
                    out.append((Line(w, loops, name), "shows", *sorted(m, key=lambda y: str(y))))
    return out


def C38(ctx, rep):
    predicates(rep, PREDS + ("isHdf5ExternalLink",))
    rep.rule(EQ, EQ_TEXT)
    rep.rule(ONCE, ONCE_TEXT)
    A = Analysis(["spec_tree"])
    known(A)
    args = [A.obj("view", "Hdf5TreeView")] + [A.obj(x) for x in ("obj", "name", "indentation", "md", "ancestors")]
    rc, rs = equivalent(A, rep, EQ, H + "_renderGroup", "spec_tree.group", args, (eff_lines,), care=links(A, A.run(H + "_renderGroup", args)))
    once(A, rep, rc)
    A = Analysis(["spec_tree"])
    A.I.opaque[H + "_renderGroup"] = lambda I, st, vals, node: V(mk("f", "shown", vals["obj"].single() or NONE, *sorted(mentions(I.reify(st, vals["name"])), key=str), I.gkey(vals["ancestors"])))
    rc, rs = equivalent(A, rep, EQ, H + "report", "spec_tree.report", [A.obj("view", "Hdf5TreeView"), A.obj("show_attributes")], (eff_return, eff_raise, eff_opened, eff_asked))
    rep.floor("reports", len([x for x in eff_return(A.I, rc, "report") if x[2].op == "f"]), 1)
    A = Analysis(["spec_tree"])
    A.I.opaque["punx.utils.isNeXusFile"] = failing("punx.utils.isNeXusFile", ("builtins.OSError",))
    equivalent(A, rep, EQ, H + "__init__", "spec_tree.init", [A.obj("view", "Hdf5TreeView"), A.obj("filename")], (eff_raise, eff_state))


def eff_opened(I, r, name):
    return [(e, "opens", *[reified(I, r, a) for a in e.args["args"][:1]], *[reified(I, r, a) for a in [*e.args["args"][1:2], *[v for k, v in e.args["kwargs"].items() if k == "mode"]]]) for e in r.events if e.kind == "lib" and e.args["name"] == "h5py.File"]


def eff_asked(I, r, name):
    """what is chosen to be shown before it is shown"""
    shown = [e.seq for e in r.events if e.kind == "call" and e.args["func"] == H + "_renderGroup"]
    return [(e, "chooses", C(e.args["attr"]), reified(I, r, e.args["value"])) for e in r.events if e.kind == "setattr" and e.args["attr"] == "show_attributes" and any(e.seq < s for s in shown)]


def known(A):
    """the predicates (C43) are taken as given, for the contents of what they are asked"""
    for q in PREDS:
        n = "punx.utils." + q
        A.I.opaque[n] = lambda I, st, vals, node, n=n: V(mk("f", "call:" + n, *[I.reify(st, v) for v in vals.values()]))


def links(A, r):
    """what is known of links and groups given by h5py"""
    def isa(x, cls):
        return isinst1(A.I, r.state, x, lib("h5py." + cls))

    def same(f, g):
        return b_or(b_and(f, g), b_and(b_not(f), b_not(g)))

    care = T
    seen = set()
    for e in r.events:
        for v in support(e.guard):
            seen |= {x for x in syms(ATOMS[v]) if x.op == "f" and x.args[0] == "get" and mk("kw", "getlink", C(True)) in x.args}
    for x in seen:
        soft, ext = isa(x, "SoftLink"), isa(x, "ExternalLink")
        care = b_and(care, b_not(b_and(soft, ext)))
        for name, g in (("filename", ext), ("path", b_or(soft, ext))):
            care = b_and(care, same(g, atom(mk("hasattr", x, C(name)))))
            care = b_and(care, b_not(b_and(g, p_eq(mk("a", x, name), NONE))))
    return b_and(care, b_or(*[p_truthy(mk("f", "call:punx.utils." + q, mk("p", "obj"))) for q in ("isHdf5Group", "isHdf5FileObject")]))


def once(A, rep, r):
    lines = {}
    for e, kind, *fs in eff_lines(A.I, r, "_renderGroup"):
        what = [f for f in fs if isinstance(f, Term)]
        lines.setdefault((e.loops and tuple(l.key() for l in e.loops), tuple(what)), []).append(e)
    for k, es in lines.items():
        for i, a in enumerate(es):
            both = F
            for b in es[:i]:
                both = b_or(both, consistent(b_and(a.guard, b.guard)))
            if i:
                rep.ob(ONCE, "%s: line %d of %s" % (a.where(), i, k[1]), both == F, a.where(), "also shown when " + example(both) if both != F else None)
    rep.floor("lines", len(lines), 6)


# ------------------------------------------------------------------ arrays

NUMBERS = "reference-function"
NUMBERS_TEXT = "for every array of numbers of rank 1 to 3 and every number asked for of at least 3, the values shown and the mark for values left out are those of the reference function in punxcheck/spec/spec_tree.py, under the same conditions"
ORDER = "in-order"
ORDER_TEXT = "the values are shown as they are found: nothing is inserted before, reversed or sorted, and the mark stands between the first values and the last"


def index_of(t):
    """which part of an array is given to be shown"""
    if t.op == "i":
        k = t.args[1]
        if k.op == "list":
            k = first_of(k)
        return t.args[0], k
    if t.op == "f" and t.args[0] == "eval":
        ks = {x.args[1] for x in subterms(t) if x.op == "f" and x.args[0] == "str" and len(x.args) == 2}
        ks |= {C(int(p)) for x in subterms(t) if x.op == "c" and isinstance(cval(x), str) for p in cval(x).strip("obj[], :").split(",") if p.strip().lstrip("-").isdigit()}
        if len(ks) == 1:
            return mk("p", "obj"), next(iter(ks))
    return None


def first_of(t):
    segs = t.args[0]
    if segs and segs[0].op == "seg" and not segs[0].args[0]:
        return segs[0].args[2]
    return t


def value_shown(I, t):
    """a number of the array, or the text of a part of it"""
    if t.op == "c" and isinstance(cval(t), str):
        return ("marks",) if ".." in cval(t) or "\u2026" in cval(t) else None
    c = recursion(t) if t.op == "f" else None
    if c is not None:
        k = index_of(c.args[2]) if isinstance(c.args[2], Term) else None
        return ("shows part", *k) if k else ("shows part", c.args[2])
    if t.op == "i":
        return ("shows", t.args[0], t.args[1])
    if t.op == "f" and t.args[0] in ("str", "repr", "decode", "fmt") and isinstance(t.args[-1], Term):
        return value_shown(I, t.args[-1])
    return None


def lists_in(t):
    if not isinstance(t, Term):
        return [y for x in t for y in lists_in(x)] if isinstance(t, tuple) else []
    if t.op == "list":
        return [t]
    if t.op == "f" and t.args[0].startswith(("rec:", "eval")):
        return []
    return [y for x in t.args for y in lists_in(x)]


def eff_values(I, r, name):
    out = []
    for t, g in r.value.items:
        for l in {x for x in lists_in(I.reify(r.state, t))}:
            for s in l.args[0]:
                loops, _, val, h = s.args
                for x, k in spread_items(val):
                    w = value_shown(I, x)
                    if w is not None:
                        under = b_and(r.state.pc, g, h.args[0], k)
                        if under != F:
                            out.append((Line(under, tuple(map(looped, loops)), name), *w))
    return out


def looped(x):
    l = LoopCtx(x.args[0], x.args[1])
    l.stop = x.args[2].args[0]
    return l


def numbers(A, obj, *rs):
    """arrays of numbers of rank 1 to 3, which can be read"""
    rank = mk("f", "len", mk("a", obj, "shape"))
    care = b_and(p_truthy(mk("a", obj, "shape")), p_ge(rank, 1), b_not(p_ge(rank, 4)))
    for r in rs:
        for e in r.events:
            for v in support(e.guard):
                if ATOMS[v].op == "raises":
                    care = b_and(care, b_not(atom(ATOMS[v])))
    return care


def C39(ctx, rep):
    rep.rule(NUMBERS, NUMBERS_TEXT)
    rep.rule(ORDER, ORDER_TEXT)
    A = Analysis(["spec_tree"])
    args = [A.obj("view", "Hdf5TreeView"), A.obj("obj"), A.obj("indentation")]
    A.I.opaque[H + "_renderNdArray"] = lambda I, st, vals, node: V(mk("f", "rec:_renderNdArray", *[I.reify(st, v) for v in vals.values()]))
    r = A.run(H + "_renderNdArray", args)
    rc, rs = equivalent(A, rep, NUMBERS, H + "_renderNdArray", "spec_tree.array", args, (eff_values,), care=numbers(A, args[1], r))
    rep.floor("values", len(eff_values(A.I, rc, "x")), 3)
    order(A, rep, rc)
    rep.rule(PREVIEW, PREVIEW_TEXT)
    A = Analysis(["spec_tree"])
    known(A)
    A.I.opaque[H + "_renderNdArray"] = lambda I, st, vals, node: V(mk("f", "rec:_renderNdArray", *[I.reify(st, v) for v in vals.values()]))
    args = [A.obj("view", "Hdf5TreeView"), A.obj("dset"), A.obj("name"), A.obj("indentation")]
    most = mk("a", args[0], "array_items_shown")
    kind = mk("a", mk("a", args[1], "dtype"), "kind")
    shape = mk("a", args[1], "shape")
    care = b_and(p_ge(most, 3), b_not(p_eq(most, NONE)), b_not(p_eq(shape, NONE)), b_not(p_ge(mk("f", "len", shape), 4)))
    care = b_and(care, *[b_not(p_eq(kind, C(k))) for k in "SOU"])
    care = b_and(care, b_or(b_not(p_truthy(mk("a", args[0], "isNeXus"))), b_not(p_in(C("target"), mk("a", args[1], "attrs")))))
    empty = p_eq(shape, mk("list", ()))
    care = b_and(care, b_not(b_and(empty, p_truthy(shape))), b_or(empty, p_truthy(shape)))
    rc, rs = equivalent(A, rep, PREVIEW, H + "_renderDataset", "spec_tree.dataset", args, (eff_preview,), care=care)
    rep.floor("previews", len(eff_preview(A.I, rc, "x")), 2)


PREVIEW = "preview-of-dataset"
PREVIEW_TEXT = "the line of a dataset has its value, or all of the preview of its array, whenever three values or more may be shown"


def eff_preview(I, r, name):
    """where the values which are shown come from"""
    dset = mk("p", "dset")
    out = {}
    for t, g in r.value.items:
        for loops, val, h in I.pieces(r.state, t):
            for x, k in as_gv(reified(I, r, val)).items:
                under = b_and(r.state.pc, g, h, k)
                for y in {y for y in subterms(x)}:
                    if y.op == "f" and y.args[0].startswith("rec:"):
                        what = ("shows the array", y.args[2])
                    elif y.op == "i" and y.args[0] is dset:
                        what = ("shows the value", y.args[1])
                    else:
                        continue
                    out[what] = b_or(out.get(what, F), under)
    return [(Line(g, (), name), *what) for what, g in out.items() if g != F]


BACKWARD = ("reverse", "sort", "insert", "appendleft")


def order(A, rep, r):
    fs = {}
    for e in r.events:
        if e.kind == "libm" and e.args["name"] in BACKWARD or e.kind == "lib" and e.args["name"] in ("builtins.reversed", "builtins.sorted"):
            fs.setdefault(e.where(), e)
    rep.ob(ORDER, "no reversing, sorting or inserting", not fs, next(iter(fs), None), "calls " + ", ".join(str(e.args["name"]) for e in fs.values()) if fs else None)
    for t, g in r.value.items:
        for l in {x for x in lists_in(A.I.reify(r.state, t))}:
            mark = last = None
            for n, s in enumerate(l.args[0]):
                for x, k in spread_items(s.args[2]):
                    w = value_shown(A.I, x)
                    if w is None:
                        continue
                    if w[0] == "marks":
                        mark = n
                    elif w[-1] is C(-1):
                        last = n
                    elif mark is not None or last is not None:
                        rep.ob(ORDER, "first values", False, None, "%s is shown after the mark or the last value" % (w[-1],))
            if mark is not None and last is not None:
                rep.ob(ORDER, "the mark is before the last value", mark < last, None, "the mark comes after the last value")
