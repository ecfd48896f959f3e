"""What the file holds does not stop a validation (C34)."""
from ..core import *  # noqa: F401,F403
from ..compare import example
from ..equiv import *  # noqa: F401,F403
from ..interp import lib
from ..preds import consistent, from_file
from ..validation import assume

USE = "use-of-file-values"
USE_TEXT = (
    "an operation that needs a certain type of value (text methods and patterns, concatenation, use as a name, membership, iteration, comparison, truth) is applied to a value "
    "read from the file only where the guard of the operation implies that type, or where the exception is handled"
)
ESC = "no-escape"
ESC_TEXT = "no exception raised during the validation of an open file leaves validate()"

STR = lib("builtins.str")
TEXT_METHODS = None


def inst(v, *classes):
    return b_or(*[atom(mk("isinst", v, lib(c))) for c in classes])


def is_text(v):
    return b_or(inst(v, "builtins.str"), p_eq(mk("f", "type", v), STR))


NAMES = ("enumerations", "fields", "groups", "attributes", "links", "classes", "addresses", "classpaths")


def among_names(v, guard):
    """the tests of the guard which hold only when the value is text: found among the names of definitions"""
    out = F
    for x in support(guard):
        a = ATOMS[x]
        if a.op == "in" and a.args[0] is v and a.args[1].op == "a" and a.args[1].args[1] in NAMES:
            out = b_or(out, atom(a))
        if a.op == "eq" and v in a.args and any(y.op == "c" and isinstance(cval(y), str) for y in a.args):
            out = b_or(out, atom(a))
    return out


def raw(v):
    while v.op == "f" and v.args[0] == "decode":
        v = v.args[1]
    return v


def scalar(v):
    """not an array: one value of it, or text, or known to be no array"""
    r = raw(v)
    if r.op == "i" and r.args[0].op == "a" and r.args[0].args[1] == "flat":
        return T
    return b_or(is_text(v), is_text(r), inst(v, "builtins.int", "builtins.float", "builtins.bytes"), b_not(b_or(inst(r, "numpy.ndarray"))) if r is not v or True else F)


def filled(v):
    return b_or(p_truthy(mk("a", v, "size")), p_truthy(mk("f", "len", v)), p_truthy(v))


def handled(e, *names):
    names += ("builtins.LookupError",) if "builtins.KeyError" in names or "builtins.IndexError" in names else ()
    for sc in e.tries:
        for h in sc.handlers:
            if h is None or any(x.args[0] in names + ("builtins.Exception", "builtins.BaseException") for x in h if x.op == "lib"):
                return True
    return False


def leaves(x):
    if isinstance(x, GVal):
        return x.items
    if isinstance(x, Term):
        return ((x, T),)
    if isinstance(x, (list, tuple)):
        return tuple(i for y in x for i in leaves(y))
    return ()


def needs(e):
    """(value, guard under which it is used, what must hold, exceptions, what is done)"""
    k, a = e.kind, e.args
    if k == "textop":
        for t, g in leaves(a["value"]):
            yield t, g, is_text(t), ("builtins.TypeError",), "joined with text"
    elif k == "libm":
        n = a["name"]
        for t, g in leaves(a["recv"]):
            yield t, g, is_text(t), ("builtins.AttributeError",), "method " + n
        if n in ("match", "fullmatch", "search", "sub", "split", "find", "startswith", "endswith", "join"):
            for t, g in leaves(a["args"]):
                yield t, g, is_text(t), ("builtins.TypeError",), "argument of " + n
    elif k == "lib" and a["name"].startswith("re."):
        for t, g in leaves(a["args"][1:]):
            yield t, g, is_text(t), ("builtins.TypeError",), "argument of " + a["name"]
    elif k == "lib" and a["name"] in ("builtins.int", "builtins.float", "builtins.complex"):
        for t, g in leaves(a["args"][:1]):
            for x in syms(t):
                if from_file(x) and not any(from_file(y) and y is not x and x in syms(y) for y in syms(t)):
                    yield x, g, F, ("builtins.ValueError",), "read as a number"
    elif k == "inop":
        for t, g in leaves(a["item"]):
            yield t, g, is_text(t), ("builtins.TypeError",), "looked up"
    elif k == "symget":
        for t, g in leaves(a["key"]):
            yield t, g, is_text(t), ("builtins.TypeError",), "looked up"
    elif k == "sub":
        for t, g in leaves(a["key"]):
            if any(is_group(x) for x, h in leaves(a["obj"])):
                yield t, g, is_text(t), ("builtins.TypeError",), "used as a name"
            else:
                yield t, g, b_and(is_text(t), p_in(t, a["obj"])), ("builtins.KeyError",), "used as a key"
        t = a["obj"]
        if isinstance(t, Term) and any(k.op == "c" and isinstance(cval(k), int) for k, g in leaves(a["key"])):
            if t.op == "a" and t.args[1] == "flat":
                yield t.args[0], T, filled(t.args[0]), ("builtins.IndexError",), "its first value taken"
            else:
                yield t, T, b_and(b_or(is_text(t), inst(t, "numpy.ndarray", "builtins.list", "builtins.tuple")), filled(t)), ("builtins.IndexError",), "an item of it taken"
    elif k == "setitem":
        for t, g in leaves(a["key"]):
            yield t, g, is_text(t), ("builtins.TypeError",), "used as a key"
    elif k == "iterop":
        yield a["value"], T, b_or(is_text(a["value"]), inst(a["value"], "builtins.list", "numpy.ndarray", "builtins.tuple")), ("builtins.TypeError",), "iterated"
    elif k in ("cmpop", "truthop"):
        yield a["value"], T, scalar(a["value"]), ("builtins.ValueError",), "compared" if k == "cmpop" else "used as a condition"


LINK = "links-that-lead-nowhere"
LINK_TEXT = (
    "each look-up of a member of an HDF5 group by a name that is not written in the source (with [] or get(), and with `in` where the name is made of a value of the file and may be a path) "
    "is where the exceptions which h5py raises for a link that leads nowhere or to itself (KeyError, RuntimeError) are handled"
)


def is_group(t):
    """a group of the file: the object of a catalogued item, its parent, or the file"""
    while t.op == "a" and t.args[1] in ("parent", "file"):
        t = t.args[0]
    if t.op == "f" and t.args[0] == "h5py.File":
        return True
    return t.op == "a" and t.args[1] in ("h5_object", "h5")


def lookups(e):
    a = e.args
    if e.kind == "sub":
        for t, g in leaves(a["obj"]):
            if is_group(t) and any(k.op != "c" for k, h in leaves(a["key"])):
                yield t, "[]", ("builtins.KeyError", "builtins.RuntimeError")
    elif e.kind == "symget":
        for t, g in leaves(a["coll"]):
            if is_group(t):
                yield t, "get()", ("builtins.RuntimeError",)
    elif e.kind == "inop":
        for t, g in leaves(a["coll"]):
            if is_group(t) and any(from_file(x) for k, h in leaves(a["item"]) for x in syms(k)):
                yield t, "in", ("builtins.RuntimeError",)


def C34(ctx, rep):
    rep.rule(USE, USE_TEXT)
    rep.rule(LINK, LINK_TEXT)
    rep.rule(ESC, ESC_TEXT)
    W = ctx.validation()
    rep.analysed(W.r)
    n = m = 0
    for e in W.r.events:
        if e.kind in ("escape", "libescape"):
            g = consistent(assume(b_and(e.guard, W.scope)))
            n += 1
            rep.ob(ESC, "%s at %s" % (show(e.args["cls"]), e.where()), g == F, e.where(), "%s leaves validate(); e.g. when %s" % (show(e.args["cls"]), example(g)) if g != F else None)
            continue
        for t, how, exc in lookups(e):
            bad = [x for x in exc if not handled(e, x)]
            ok = not bad or consistent(assume(b_and(e.guard, W.scope))) == F
            rep.ob(LINK, "%s of %s at %s" % (how, show(t)[-120:], e.where()), ok, e.where(), None if ok else "%s is not handled when the member is a link that leads nowhere" % ", ".join(bad))
            m += 1
        for t, g, need, exc, what in needs(e):
            if not from_file(t):
                continue
            n += 1
            bad = consistent(b_and(e.guard, g, b_not(need)))
            if bad != F and what == "joined with text":
                bad = consistent(b_and(bad, b_not(among_names(t, bad))))
            ok = bad == F or handled(e, *exc)
            rep.ob(USE, "%s: %s at %s" % (show(t)[-160:], what, e.where()), ok, e.where(), None if ok else "%s may have another type; e.g. when %s" % (show(t), example(bad)))
    rep.floor("uses of values read from the file", n, 15)
    rep.floor("look-ups of members of groups", m, 5)
