"""Model of the Python library calls the program makes.

Each entry says what a call returns (a term), what it may raise, and which
event it leaves behind; pure operations on constants are folded.
"""
import ast
import builtins as _bi
import re as _re

from .core import *  # noqa: F401,F403
from .core import g_subst, subst_bdd
from .preds import *  # noqa: F401,F403
from .preds import cat, elem, idx, p_eq, p_exists, p_ge, p_in, p_lt, p_truthy, strip_seq, is_str_term, BOOL_F

MAY_RAISE = {
    "h5py.File": ["builtins.OSError"],
    "lxml.etree.parse": ["builtins.OSError", "lxml.etree.XMLSyntaxError"],
    "lxml.etree.XMLSchema": ["lxml.etree.XMLSchemaParseError"],
    "lxml.etree.XSLT": ["lxml.etree.XSLTParseError"],
    "requests.get": ["requests.exceptions.ConnectionError"],
    "json.loads": ["builtins.ValueError"],
    "json.load": ["builtins.ValueError"],
    "builtins.open": ["builtins.OSError"],
    "zipfile.ZipFile": ["zipfile.BadZipFile"],
    "os.listdir": ["builtins.OSError"],
    "os.scandir": ["builtins.OSError"],
    "shutil.rmtree": ["builtins.OSError"],
    "shutil.move": ["builtins.OSError"],
    "os.rename": ["builtins.OSError"],
    "os.replace": ["builtins.OSError"],
    "os.makedirs": ["builtins.OSError"],
    "os.mkdir": ["builtins.OSError"],
    "os.remove": ["builtins.OSError"],
}
# raised only matters when something in the program handles it
MAY_RAISE_QUIET = {
    "re.compile": ["re.error"],
    "builtins.int": ["builtins.ValueError", "builtins.TypeError"],
    "builtins.float": ["builtins.ValueError", "builtins.TypeError"],
    "setuptools_scm.get_version": ["builtins.LookupError"],
    "numpy.char.decode": ["builtins.UnicodeDecodeError"],
}
METHOD_RAISE = {
    "assertValid": ["lxml.etree.DocumentInvalid"],
    "extract": ["builtins.OSError"],
    "extractall": ["builtins.OSError"],
}
METHOD_RAISE_QUIET = {
    "decode": ["builtins.UnicodeDecodeError"],
    "encode": ["builtins.UnicodeEncodeError"],
    "index": ["builtins.ValueError"],
}
# each call has an outcome of its own
CHANGING = {"requests.get"}
FRESH = {"pyRestTable.Table", "collections.deque"}
LOG_METHODS = {"debug", "info", "warning", "warn", "error", "critical", "log", "exception", "setLevel", "addHandler"}
STR_METHODS = {
    "startswith", "endswith", "upper", "lower", "strip", "lstrip", "rstrip", "split", "rsplit", "join", "replace",
    "find", "rfind", "index", "count", "encode", "isdigit", "isalpha", "isalnum", "splitlines", "partition",
    "rpartition", "title", "capitalize", "isidentifier", "islower", "isupper", "isspace", "zfill", "casefold",
    "removeprefix", "removesuffix", "center", "ljust", "rjust", "isdecimal", "isnumeric", "format", "swapcase",
    "expandtabs", "translate",
}


def strip_path(t):
    """a path of one part is that part"""
    if t.op == "f" and t.args[0] == "path" and len(t.args) == 2:
        return t.args[1]
    return t


def mkpath(parts):
    out = []
    for p in parts:
        if p.op == "f" and p.args[0] == "str" and len(p.args) == 2:
            p = p.args[1]
        if p.op == "f" and p.args[0] == "path":
            out.extend(p.args[1:])
        elif p.op == "c" and isinstance(cval(p), str):
            v = cval(p)
            if v.startswith("/"):
                out = [p]
            else:
                out.extend(C(x) for x in v.split("/") if x)
        else:
            out.append(p)
    return mk("f", "path", *out)


def dirname(t):
    if t.op == "f" and t.args[0] == "str" and len(t.args) == 2:
        t = t.args[1]
    if t.op == "f" and t.args[0] == "path" and len(t.args) > 2:
        return mk("f", "path", *t.args[1:-1])
    if t.op == "f" and t.args[0] == "path" and t.args[-1].op == "c" and len(t.args) == 2:
        import os

        return mk("f", "path", C(os.path.dirname(cval(t.args[1]))))
    if t.op == "c" and isinstance(cval(t), str):
        import os

        return C(os.path.dirname(cval(t)))
    return mk("f", "path", mk("f", "dirname", strip_path(t)))


def basename(t):
    if t.op == "f" and t.args[0] == "path" and len(t.args) >= 2:
        last = t.args[-1]
        if last.op == "c" and isinstance(cval(last), str):
            return C(cval(last).rpartition("/")[2])
        if len(t.args) > 2 and last.op == "elem" and last.args[0].op == "f" and last.args[0].args[0] == "listdir":
            return last
        return basename(last)
    if t.op == "c" and isinstance(cval(t), str):
        return C(cval(t).rpartition("/")[2])
    t = strip_path(t)
    if t.op in ("i", "elem") and t.args[0].op == "f" and t.args[0].args[0] == "split" and t.args[0].args[2:] == (C("/"),):
        return t
    return mk("f", "basename", t)


def suffix(t):
    if t.op == "c" and isinstance(cval(t), str):
        import pathlib

        return C(pathlib.PurePosixPath(cval(t)).suffix)
    b = basename(t)
    if b.op == "c":
        return suffix(b)
    return mk("f", "suffix", strip_path(t))


def is_path(I, t):
    if t.op == "f" and t.args[0] == "path":
        return True
    d = I.type_of(t)
    return d is not None and d[0] == "path"


def path_div(I, x, y):
    if is_path(I, x) or is_path(I, y) or (y.op == "c" and isinstance(cval(y), str)):
        return mkpath([x, y])
    return None


# ---------------------------------------------------------------- helpers


def rf(I, st, name, *gvs):
    """f(name, *args) over the leaves, containers by their content"""
    return g_map(lambda *ts: mk("f", name, *[I.reify(st, t) if t.op == "o" else t for t in ts]), *gvs)


def const(gv):
    t = gv.single()
    return cval(t) if t is not None and t.op == "c" else None


def is_const(gv):
    t = gv.single()
    return t is not None and t.op == "c"


def all_consts(gvs):
    return all(is_const(g) for g in gvs)


def copy_container(I, st, kind, gv):
    """new container with the elements of gv"""
    segs = []
    base = None
    items = prune(gv, st.pc).items
    if len(items) == 1:
        t = items[0][0]
        c = I.content(st, t)
        if c is None and t.op not in ("f", "list", "dict", "set", "c"):
            return mk("f", kind if kind != "list" else "list", t)
        if t.op == "f" and t.args[0] not in ("items", "values", "keys", "enumerate", "list", "sorted", "range", "reversed", "tuple"):
            return mk("f", kind, t)
        if t.op == "f" and t.args[0] in ("items", "values", "keys") and I.content(st, strip_seq(t.args[1])) is None:
            return mk("f", kind, t)
    for t, g in items:
        for loops, val, h in I.pieces(st, t):
            segs.append((loops, val, b_and(g, h)))
    from .interp import Seg

    if len(items) > 1:
        segs = [(l, v, simplify(g, st.pc)) for l, v, g in segs]
    out = []
    for l, v, g in segs:
        if g == F:
            continue
        out.append(Seg(l, None, v, g))
    return I.new_container(st, kind, out)


def quantify(I, st, gv, pred):
    """guard: some element of gv has pred(value GVal) -> guard"""
    r = F
    for t, g in gv.items:
        x = F
        for loops, val, h in I.pieces(st, t):
            p = b_and(h, pred(val))
            for l in reversed(loops):
                p = p_exists(l.t, l.e, p)
            x = b_or(x, p)
        r = b_or(r, b_and(g, x))
    return r


def total(I, st, gv, fn, op="add"):
    """closed form of adding fn(value GVal) over the elements of gv -> term"""
    acc = None

    def join(a, b):
        if a is None:
            return b
        if op == "add":
            if a.op == "c" and b.op == "c":
                return C(cval(a) + cval(b))
            return mk("f", "add", a, b)
        x, y = sorted((a, b), key=lambda z: z.id)
        if x.op == "c" and y.op == "c":
            return C(max(cval(x), cval(y)) if op == "max" else min(cval(x), cval(y)))
        return mk("f", op, x, y)

    t = gv.single()
    if t is None:
        return None
    for loops, val, h in I.pieces(st, t):
        v = fn(val)
        if not loops:
            if h != T or v.single() is None:
                return None
            acc = join(acc, v.single())
            continue
        cur = v
        guard = h
        for l in reversed(loops):
            key = tuple(
                mk("g", d, mk("bdd", b_and(g, guard)))
                for d, g in sorted(cur.items, key=lambda y: y[0].id)
                if b_and(g, guard) != F
            )
            cur = V(mk("f", "sum" if op == "add" else op + "imum", l.t, l.e, key))
            guard = T
        acc = join(acc, cur.single())
    return acc


def length(I, st, t):
    if t.op == "c":
        try:
            return C(len(cval(t)))
        except TypeError:
            return mk("f", "len", t)
    c = I.content(st, t)
    if c is not None:
        if t.op == "o" and I.busy(c, t):
            return mk("f", "len", I.bag_of(t))
        if c.base is not None and not c.segs:
            return mk("f", "len", c.base)
        if c.base is None:
            if all(s.guard == T and not s.loops for s in c.segs):
                return C(len(c.segs))
            if len(c.segs) == 1 and len(c.segs[0].loops) == 1 and c.segs[0].guard == T and c.segs[0].loops[0].stop == F:
                return mk("f", "len", c.segs[0].loops[0].t)
            if c.kind in ("list", "tuple") and all(s.loops for s in c.segs):
                r = total(I, st, V(t), lambda v: V(C(1)))
                if r is not None:
                    return r
        return mk("f", "len", I.reify(st, t))
    if t.op == "f" and t.args[0] in ("list", "sorted", "tuple", "items", "values", "keys", "enumerate", "reversed"):
        return length(I, st, t.args[1])
    return mk("f", "len", t)


def str_of(I, st, t):
    """str() of an instance of a class of the program"""
    cls = I.class_of(t)
    f, _ = I.find_in_class(cls, "__str__") if cls is not None else (None, None)
    if f is None or f.single() is None or f.single().op != "fn":
        if any(b.op == "lib" and b.args[0] == "builtins.BaseException" for b in (I.exc_bases(I.clsterm(cls)) if cls else [])):
            return mk("f", "str", t)
        return mk("f", "str", t)
    if f.single() in [mk("fn", repr(x), None, x.id) for x in I.stack]:
        return mk("f", "str", t)
    if I.func_of(f.single()) in I.stack:
        return mk("f", "str", t)
    n = len(I.ev)
    from .interp import State

    s = State(st.pc, dict(st.m))
    v = I.call(s, V(mk("bm", f.single(), t)), [], {}, None)
    del I.ev[n:]
    r = v.single()
    if r is None:
        return mk("f", "str", t)
    return r if is_str_term(r) else mk("f", "str", r)


def slice_cat(t, lo, hi):
    """a slice that lies within the constant text at the beginning of a concatenation"""
    parts = list(t.args)
    n = len(cval(parts[0])) if parts[0].op == "c" else 0
    if lo < 0 or lo > n:
        return None
    if hi is not None and 0 <= hi <= n:
        return C(cval(parts[0])[lo:hi])
    if hi is not None:
        return None
    return cat(C(cval(parts[0])[lo:]), *parts[1:]) if n else None


def slice_(I, st, t, k, node):
    lo, hi, step = k.args[1:]
    if t.op == "c" and all(x.op == "c" for x in (lo, hi, step)):
        try:
            return V(C(cval(t)[slice(cval(lo), cval(hi), cval(step))]))
        except Exception:
            pass
    c = I.content(st, t)
    if c is not None and c.base is None and all(s.guard == T and not s.loops for s in c.segs):
        if all(x.op == "c" for x in (lo, hi, step)):
            segs = list(c.segs)[slice(cval(lo), cval(hi), cval(step))]
            return V(I.new_container(st, c.kind, segs))
    if lo in (NONE, C(0)) and hi is NONE and step in (NONE, C(1)):
        return V(t) if c is None else V(copy_container(I, st, "list", V(t)))
    if lo is C(0):
        lo = NONE
    if c is None and step in (NONE, C(1)) and all(x is NONE or x.op == "c" and isinstance(cval(x), int) for x in (lo, hi)):
        if t.op == "cat":
            r = slice_cat(t, 0 if lo is NONE else cval(lo), None if hi is NONE else cval(hi))
            if r is not None:
                return V(r)
        if t.op == "f" and t.args[0] == "split" and len(t.args) == 3 and lo is C(1) and hi is NONE and t.args[2].op == "c":
            # the text is known to begin with the separator: t.split(s)[1:] is t[len(s):].split(s)
            x, sep = t.args[1:]
            if sep is not NONE and b_and(st.pc, b_not(p_truthy(mk("f", "startswith", x, sep)))) == F:
                return V(mk("f", "split", mk("f", "slice", x, C(len(cval(sep))), NONE, NONE), sep))
    return V(mk("f", "slice", I.reify(st, t) if c is not None else t, lo, hi, step))


def textual(I, st, t):
    cls = I.class_of(t)
    if cls is not None and t.op != "o":
        return str_of(I, st, t)
    return I.textual(st, t)


_PCT = _re.compile(r"%(\((?P<key>\w+)\))?(?P<fmt>[-+ #0-9.*]*)(?P<conv>[a-zA-Z%])")


def percent(I, st, x, y, node):
    """text % values"""
    if x.op != "c":
        return mk("f", "percent", x, I.reify(st, y))
    s = cval(x)
    c = I.content(st, y)
    parts, pos, n = [], 0, 0
    vals = None
    if c is not None and c.kind == "tuple" and c.base is None:
        vals = [sg.val for sg in c.segs]
    for m in _PCT.finditer(s):
        parts.append(V(C(s[pos : m.start()])))
        pos = m.end()
        if m.group("conv") == "%":
            parts.append(V(C("%")))
            continue
        if m.group("key"):
            v, _ = I.subscript(st, y, C(m.group("key")))
        elif vals is not None:
            if n >= len(vals):
                return mk("f", "percent", x, I.reify(st, y))
            v = vals[n]
        else:
            v = V(y)
        n += 1
        if m.group("conv") in "s" and not m.group("fmt"):
            parts.append(g_map(lambda t: textual(I, st, t), v))
        elif m.group("conv") in "di" and not m.group("fmt"):
            parts.append(g_map(lambda t: I.textual(st, t), v))
        else:
            spec = C(m.group("fmt") + m.group("conv"))
            parts.append(g_map(lambda t: mk("f", "format", I.reify(st, t), spec), v))
    parts.append(V(C(s[pos:])))
    r = V(C(""))
    for p in parts:
        r = g_map(cat, r, prune(p, st.pc))
    if r.single() is None:
        # percent works on leaves: keep one term
        return I.gkey(r)
    return r.single()


def str_format(I, st, s, args, kwargs):
    """'{} {name}'.format(...)"""
    parts, n = [], 0
    import string

    try:
        items = list(string.Formatter().parse(s))
    except ValueError:
        return None
    for lit, field, spec, conv in items:
        parts.append(V(C(lit)))
        if field is None:
            continue
        if spec or (field and not field.isidentifier() and not field.isdigit()):
            return None
        if field == "":
            if n >= len(args):
                return None
            v = args[n]
            n += 1
        elif field.isdigit():
            if int(field) >= len(args):
                return None
            v = args[int(field)]
        else:
            if field not in kwargs:
                return None
            v = kwargs[field]
        if conv == "r":
            v = g_map(lambda t: mk("f", "repr", t), v)
        parts.append(g_map(lambda t: textual(I, st, t), v))
    r = V(C(""))
    for p in parts:
        r = g_map(cat, r, prune(p, st.pc))
    return r


# ---------------------------------------------------------------- isinstance


def isinstance_(I, st, subj, c):
    classes = []
    for t, g in c.items:
        cc = I.content(st, t)
        if cc is not None:
            for s in cc.segs:
                for x in s.val.leaves():
                    xc = I.content(st, x)
                    if xc is not None:
                        classes.extend((y, g) for s2 in xc.segs for y in s2.val.leaves())
                    else:
                        classes.append((x, g))
        elif t.op == "f" and t.args[0] == "BitOr":
            stack = [t]
            while stack:
                x = stack.pop()
                if x.op == "f" and x.args[0] == "BitOr":
                    stack.extend(x.args[1:])
                else:
                    classes.append((x, g))
        else:
            classes.append((t, g))
    return g_test(lambda s: b_or(*[b_and(g, isinst1(I, st, s, k)) for k, g in classes]), subj)


def isinst1(I, st, s, k):
    from .interp import LIBCANON

    k = LIBCANON(k)
    n = k.args[0] if k.op == "lib" else None
    if n == "builtins.object":
        return T
    if k.op == "f" and k.args[0] == "type" and k.args[1] is NONE or n in ("builtins.NoneType", "types.NoneType"):
        return p_eq(s, NONE)
    if k is NONE:
        return p_eq(s, NONE)
    if s.op == "c":
        if n and n.startswith("builtins."):
            cl = getattr(_bi, n[9:], None)
            return T if isinstance(cl, type) and isinstance(cval(s), cl) else F
        return F
    if I.is_container(s):
        return T if n == "builtins." + s.args[1] else F
    if s.op in ("list", "dict", "set"):
        return T if n == "builtins." + s.op else F
    if s.op == "f" and s.args[0] in ("list", "sorted") and n and n.startswith("builtins."):
        return T if n == "builtins.list" else F
    if s.op == "f" and s.args[0] == "h5py.File":
        return T if n in ("h5py.File", "h5py.Group") else F
    if s.op == "f" and s.args[0] == "path":
        return T if n in ("pathlib.Path", "pathlib.PurePath", "builtins.str") else F
    if is_str_term(s):
        return T if n == "builtins.str" else F
    cls = I.class_of(s)
    if cls is not None:
        if k.op == "cls":
            kc = I.class_by_term(k)
            if kc is None:
                return F
            if kc in I.mro(cls):
                return T
            # a symbolic instance may be of a subclass
            if s.op != "o" and cls in I.mro(kc):
                return atom(mk("isinst", s, k))
            # the same class seen through another module object
            return F
        if k.op == "lib":
            if s.op == "o" or True:
                return T if k in I.exc_bases(I.clsterm(cls)) else F
    if k.op == "cls" and s.op == "f" and s.args[0] in ("decode",):
        return F
    if s.op == "exc":
        return T if k in I.exc_bases(s.args[0]) else atom(mk("isinst", s, k))
    if s is UNDEF:
        return F
    return atom(mk("isinst", s, k))


# ---------------------------------------------------------------- functions


def function(I, st, name, args, kwargs, node):
    from .interp import LIB_ALIAS

    name = LIB_ALIAS.get(name, name)
    args = [prune(a, st.pc) for a in args]
    kwargs = {k: prune(v, st.pc) for k, v in kwargs.items()}
    if name.startswith("builtins."):
        h = BUILTINS.get(name[9:])
        if h is not None:
            return h(I, st, args, kwargs, node)
        cl = getattr(_bi, name[9:], None)
        if isinstance(cl, type) and issubclass(cl, BaseException):
            return rf(I, st, name, *args) if args else V(mk("f", name))
    if name in CHANGING:
        k = ("h", CALLS, name)
        n = I.get(st, k) or V(C(0))
        st.m[k] = g_map(lambda t: C(cval(t) + 1) if t.op == "c" else mk("f", "next", t), n)
        if n.single() is not C(0):
            kwargs = dict(kwargs, nth=n)
    I.record("lib", st, node, name=name, args=args, kwargs=kwargs)
    h = FUNCS.get(name)
    if h is not None:
        r = h(I, st, args, kwargs, node)
        if r is not None:
            raising(I, st, name, r, node)
            return r
    if name in FRESH:
        return V(I.new_obj(st, name))
    if name.startswith("logging.") and name.rpartition(".")[2] in LOG_METHODS:
        I.record("log", st, node, level=name.rpartition(".")[2], args=args)
        return V(NONE)
    if name.startswith("builtins.object.") or name.startswith("builtins.super"):
        return obj_method(I, st, name.rpartition(".")[2], args, kwargs, node)
    r = generic(I, st, name, args, kwargs)
    raising(I, st, name, r, node)
    if I.on_libcall is not None:
        I.on_libcall(I, st, name, args, kwargs, node, r)
    return r


def generic(I, st, name, args, kwargs):
    n = 1
    for a in list(args) + list(kwargs.values()):
        n *= len(a.items)
    if n > 64:
        args = [V(I.reify(st, a)) for a in args]
        kwargs = {k: V(I.reify(st, a)) for k, a in kwargs.items()}
    ks = sorted(kwargs)

    def leaf(*ts):
        ts = [I.reify(st, t) if t.op == "o" and I.content(st, t) is not None else t for t in ts]
        pos = ts[: len(args)]
        kw = [mk("kw", k, t) for k, t in zip(ks, ts[len(args) :])]
        return mk("f", name, *pos, *kw)

    return g_map(leaf, *args, *[kwargs[k] for k in ks]) if (args or ks) else V(mk("f", name))


def raising(I, st, name, r, node, table=MAY_RAISE, quiet=MAY_RAISE_QUIET):
    t = r.single() or I.gkey(r)
    if name in table:
        I.may_raise(st, table[name], t, node, name)
    elif name in quiet and I.tries:
        cl = [c for c in quiet[name] if I.find_handler(mk("lib", c))[0] is not None]
        if cl and not (t.op == "c"):
            I.may_raise(st, cl, t, node, name)


def obj_method(I, st, name, args, kwargs, node):
    """a method of object called explicitly"""
    if name == "__getattribute__" and len(args) >= 2 and is_const(args[1]):
        return I.getattr_(st, args[0], const(args[1]), node)
    if name == "__getattribute__" and len(args) == 2 and all(is_const(V(t)) for t in args[1].leaves()):
        return I.per_leaf(st, args[1], lambda s, n: I.getattr_(s, args[0], cval(n), node))
    if name == "__setattr__" and len(args) == 3 and is_const(args[1]):
        I.setattr_(st, args[0], const(args[1]), args[2], node)
        return V(NONE)
    if name == "__str__":
        return g_map(lambda t: mk("f", "str", t), args[0])
    if name == "__init__":
        return V(NONE)
    return generic(I, st, "object." + name, args, kwargs)


# --- builtins


def b_print(I, st, a, kw, node):
    I.record("print", st, node, args=a)
    return V(NONE)


def b_exit(I, st, a, kw, node):
    from .interp import lib

    code = a[0] if a else V(C(0))
    I.record("exitcall", st, node, code=code)
    cls = lib("builtins.SystemExit")
    I.do_raise(st, cls, V(mk("exc", cls, I.gkey(code))), node)
    return V(UNDEF)


def b_isinstance(I, st, a, kw, node):
    return g_bool(isinstance_(I, st, a[0], a[1]))


def has_attr(I, st, t, n):
    v = I.get(st, ("h", t, n))
    if v is not None:
        return b_not(v.guard_of(lambda x: x is UNDEF))
    if t.op == "o" and I.class_of(t) is not None:
        w, _ = I.find_in_class(I.class_of(t), n)
        return T if w is not None else F
    cls = I.class_of(t)
    if cls is not None:
        w, _ = I.find_in_class(cls, n)
        if w is not None:
            return T
        if n not in I.assigned_instance_attrs(cls):
            return F
        if t.op == "f" and t.args[0] == "made" and made_with(I, cls, n):
            return T
    if t.op == "c":
        return T if hasattr(cval(t), n) else F
    if is_str_term(t):
        return T if hasattr("", n) else F
    if t.op == "f" and t.args[0] == "h5py.File":
        return T if n in ("name", "parent", "attrs", "filename", "file") else F
    if t.op == "mod":
        return T if I.mod_var(t.args[0], n) is not None else F
    return atom(mk("hasattr", t, C(n)))


def made_with(I, cls, n):
    """__init__ always assigns this attribute, and nothing deletes it"""
    init, k = I.find_in_class(cls, "__init__")
    if init is None or init.single() is None or init.single().op != "fn":
        return False
    f = I.func_of(init.single())
    me = f.node.args.args[0].arg if f.node.args.args else None

    def is_it(x):
        return isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.value, ast.Name) and x.value.id == me

    if any(isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Del) for m in I.P.modules.values() for x in ast.walk(m.tree)):
        return False
    for s in f.node.body:
        if isinstance(s, ast.Return):
            return False
        if isinstance(s, ast.Assign) and any(is_it(x) for x in s.targets) or isinstance(s, ast.AnnAssign) and s.value is not None and is_it(s.target):
            return True
    return False


def b_hasattr(I, st, a, kw, node):
    if len(a) < 2 or not all(x.op == "c" for x in a[1].leaves()):
        return rf(I, st, "hasattr", *a)
    return g_bool(g_test(lambda t, n: has_attr(I, st, t, cval(n)), a[0], a[1]))


def b_getattr(I, st, a, kw, node):
    def leaf(c, n):
        if n.op != "c":
            return rf(I, c, "getattr", *a)
        nm = cval(n)
        if len(a) < 3:
            return I.getattr_(c, a[0], nm, node)

        def one(c2, t):
            g = has_attr(I, c2, t, nm)
            if g == F:
                return a[2]
            q = len(I.ev)
            v = I.getattr_leaf(c2, t, nm, node)
            v = prune(v, g) if g not in (T, F) else v
            I.ev[q:] = [e for e in I.ev[q:] if e.kind != "noattr"]
            return g_ite(g, v, a[2])

        return I.per_leaf(c, a[0], one)

    return I.per_leaf(st, a[1], leaf)


def b_setattr(I, st, a, kw, node):
    def leaf(c, n):
        if n.op == "c":
            I.setattr_(c, a[0], cval(n), a[2], node)
        else:
            for t in a[0].leaves():
                I.record("setattr", c, node, obj=t, attr="*", name=V(n), value=a[2])
        return V(NONE)

    return I.per_leaf(st, a[1], leaf)


def b_any(I, st, a, kw, node):
    return g_bool(quantify(I, st, a[0], lambda v: I.truth(st, v)))


def b_all(I, st, a, kw, node):
    return g_bool(b_not(quantify(I, st, a[0], lambda v: b_not(I.truth(st, v)))))


def b_next(I, st, a, kw, node):
    t = a[0].single()
    default = a[1] if len(a) > 1 else V(UNDEF)
    if t is None:
        if len(a[0].items) > 12:
            return rf(I, st, "next", *a)
        return I.per_leaf(st, a[0], lambda s, x: b_next(I, s, [V(x)] + a[1:], kw, node))
    out, none = [], T
    for loops, val, g in I.pieces(st, t):
        if not loops:
            out.append((b_and(none, g), val))
            none = b_and(none, b_not(g))
            continue
        v = val
        for l in reversed(loops):
            fe = mk("firstel", l.t, l.e, mk("bdd", g))
            d = I.type_of(l.e)
            if d:
                I.ptypes.setdefault(fe, d)
            v = g_subst(v, {l.e: fe})
            g = p_exists(l.t, l.e, g)
        out.append((b_and(none, g), v))
        none = b_and(none, b_not(g))
    r = default
    for g, v in reversed(out):
        r = g_ite(g, v, r)
    if len(a) < 2 and b_and(st.pc, none) != F:
        st2 = None
        sc, i = I.find_handler(mk("lib", "builtins.StopIteration"))
        if sc is not None:
            from .interp import State

            sc.caught.append((State(b_and(st.pc, none), dict(st.m)), V(mk("exc", mk("lib", "builtins.StopIteration"))), i))
            st.pc = b_and(st.pc, b_not(none))
        r = prune(r, b_not(none)) if none != T else r
    return r


def b_len(I, st, a, kw, node):
    return g_map(lambda t: length(I, st, t), a[0])


def b_sum(I, st, a, kw, node):
    t = total(I, st, a[0], lambda v: v)
    if t is None:
        t = C(0) if a[0].single() is not None and not I.pieces(st, a[0].single()) else mk("f", "sumof", I.reify(st, a[0]))
    if len(a) > 1 and a[1].single() is not C(0):
        return g_map(lambda s: mk("f", "add", s, t), a[1])
    return V(t)


def minmax(op):
    def h(I, st, a, kw, node):
        if len(a) == 1:
            if "key" in kw:
                return V(mk("f", op + "by", I.reify(st, a[0]), keyterm(I, st, a[0], kw["key"])))
            t = total(I, st, a[0], lambda v: v, op)
            return V(t if t is not None else mk("f", op + "of", I.reify(st, a[0])))

        def leaf(*ts):
            r = ts[0]
            for y in ts[1:]:
                cx, cy = I.content(st, r), I.content(st, y)
                if cx is not None:
                    r = I.reify(st, r)
                if cy is not None:
                    y = I.reify(st, y)
                if r.op == "c" and y.op == "c":
                    r = C((max if op == "max" else min)(cval(r), cval(y)))
                elif r is y:
                    pass
                else:
                    p, q = sorted((r, y), key=lambda z: z.id)
                    r = mk("f", op, p, q)
            return r

        return g_map(leaf, *a)

    return h


def keyterm(I, st, coll, fn):
    """canonical term of a key function applied to an element of coll"""
    t = coll.single()
    from .interp import State

    s = State(st.pc, dict(st.m))
    n = len(I.ev)
    if t is None:
        e = V(mk("p", "element"))
    else:
        ps = I.pieces(s, t)
        e = ps[0][1] if len(ps) == 1 and ps[0][0] else V(mk("p", "element"))
    f = fn.single()
    if f is NONE:
        return NONE
    v = I.call(s, fn, [e], {}, None)
    if I.record_sortkey is not None:
        I.record_sortkey(v)
    keep = [x for x in I.ev[n:] if x.kind in ("unbound", "undefined", "noattr", "arity", "libm")]
    del I.ev[n:]
    I.ev.extend(keep)
    return I.reify(s, v)


def b_sorted(I, st, a, kw, node):
    t = a[0].single()
    k = kw.get("key")
    rev = kw.get("reverse", V(FALSE_T))
    if t is not None and k is None and is_const(rev):
        c = I.content(st, t)
        if c is not None and c.base is None and all(s.guard == T and not s.loops for s in c.segs):
            vals = [s.key if c.kind == "dict" else s.val for s in c.segs]
            if all_consts(vals):
                try:
                    vs = sorted((cval(v.single()) for v in vals), reverse=bool(const(rev)))
                    return V(I.mk_list(st, [V(C(v)) for v in vs]))
                except TypeError:
                    pass
        if c is not None and const(rev) is False:
            return V(copy_container(I, st, "list", a[0]))

    def leaf(s, x):
        kt = keyterm(I, s, V(x), k) if k is not None else NONE
        xx = x
        if I.content(s, x) is not None and (k is not None):
            xx = I.reify(s, x)
        if kt is NONE and is_const(rev) and not const(rev):
            return V(mk("f", "sorted", xx))
        return V(mk("f", "sorted", xx, kt, I.gkey(rev)))

    return I.per_leaf(st, a[0], leaf)


def b_reversed(I, st, a, kw, node):
    I.record("lib", st, node, name="builtins.reversed", args=a, kwargs=kw)
    t = a[0].single()
    c = I.content(st, t) if t is not None else None
    if c is not None and c.base is None and all(s.guard == T and not s.loops for s in c.segs) and c.kind != "dict":
        return V(I.new_container(st, "list", list(reversed(c.segs))))
    return rf2("reversed")(I, st, a, kw, node)


def rf2(name):
    """f(name, ...) without copying containers"""

    def h(I, st, a, kw, node):
        return g_map(lambda *ts: mk("f", name, *ts), *a) if a else V(mk("f", name))

    return h


def seq(kind):
    def h(I, st, a, kw, node):
        if not a:
            return V(I.new_container(st, kind))
        t = a[0].single()
        if t is not None and t.op == "c" and isinstance(cval(t), str):
            return V(I.mk_list(st, [V(C(x)) for x in cval(t)], kind))
        if t is None:
            return I.per_leaf(st, a[0], lambda s, x: V(copy_container(I, s, kind, V(x))))
        return V(copy_container(I, st, kind, a[0]))

    return h


def b_dict(I, st, a, kw, node):
    d = I.new_container(st, "dict")
    if a:
        update(I, st, d, a[0], node)
    for k, v in kw.items():
        if k == "**":
            update(I, st, d, v, node)
        else:
            I.raw_store(st, d, V(C(k)), v)
    return V(d)


def update(I, st, d, other, node, event=False):
    from .interp import Seg

    def leaf(s, t):
        c = I.content(s, t)
        if c is not None and c.kind == "dict" and c.base is None and all(not g.loops and g.guard == T for g in c.segs):
            for g in c.segs:
                I.per_leaf(s, g.key, lambda c2, kt: I.setitem_leaf(c2, d, kt, g.val, node) if event else I.raw_store(c2, d, V(kt), g.val) or V(NONE))
            return V(NONE)
        dc = I.content(s, d)
        if dc is None:
            from .interp import Content

            dc = Content("dict", (), d)
        extra = tuple(l for l in I.loops if l not in dc.loops)
        segs = list(dc.segs)
        if c is not None and c.kind == "dict":
            src = [(g.loops, g.key, g.val, g.guard) for g in c.segs]
            if c.base is not None:
                for loops, val, h in I.sym_pieces(s, mk("f", "items", c.base)):
                    k, _ = I.subscript(s, val.single(), C(0))
                    v, _ = I.subscript(s, val.single(), C(1))
                    src.insert(0, (loops, k, v, h))
        elif c is None and not (t.op == "f" and t.args[0] in ("items", "zip", "enumerate")):
            src = []
            for loops, val, h in I.sym_pieces(s, mk("f", "items", t)):
                k, _ = I.subscript(s, val.single(), C(0))
                v, _ = I.subscript(s, val.single(), C(1))
                src.append((loops, k, v, h))
        else:
            src = []
            for loops, val, h in I.pieces(s, t):
                x = val.single()
                if x is None:
                    continue
                k, _ = I.subscript(s, x, C(0))
                v, _ = I.subscript(s, x, C(1))
                src.append((loops, k, v, h))
        pc = simplify(s.pc, dc.pc) if extra else T
        for loops, k, v, h in src:
            if event:
                I.record("setitem", s, node, b_and(s.pc, h), obj=d, key=k, value=v, base=dc.base, loops2=loops)
            else:
                I.record("put", s, node, b_and(s.pc, h), obj=d, key=k, value=v, base=None, loops2=loops)
            segs.append(Seg(extra + tuple(loops), k, v, b_and(pc, h)))
        s.m[("c", d)] = dc.with_segs(tuple(segs))
        return V(NONE)

    I.per_leaf(st, other, leaf)


def b_str(I, st, a, kw, node):
    if not a:
        return V(C(""))
    if len(a) > 1:
        return rf(I, st, "decode_text", *a)
    return I.per_leaf(st, a[0], lambda s, t: V(textual(I, s, t)))


def pure(name, fn=None):
    """fold on constants, else f(name, ...)"""

    def h(I, st, a, kw, node):
        def leaf(*ts):
            if all(t.op == "c" for t in ts) and fn is not None and not kw:
                try:
                    v = fn(*[cval(t) for t in ts])
                    hash(v)
                    return C(v)
                except Exception:
                    pass
            if name == "int" and len(ts) == 1 and ts[0].op == "f" and ts[0].args[0] == "str" and len(ts[0].args) == 2:
                ts = (ts[0].args[1],)  # the digits of a value or of its text: one number
            return mk("f", name, *[I.reify(st, t) if t.op == "o" else t for t in ts])

        if name in ("int", "float") and a and not is_const(a[0]):
            I.record("lib", st, node, name="builtins." + name, args=a, kwargs=kw)
        r = g_map(leaf, *a) if a else V(mk("f", name))
        raising(I, st, "builtins." + name, r, node)
        return r

    return h


def b_bool(I, st, a, kw, node):
    return g_bool(I.truth(st, a[0])) if a else V(FALSE_T)


def b_type(I, st, a, kw, node):
    if len(a) == 3:
        return V(mk("f", "newclass", I.gkey(a[0])))

    def leaf(t):
        cls = I.class_of(t)
        if cls is not None and t.op == "o":
            return I.clsterm(cls)
        if t is NONE:
            return mk("lib", "builtins.NoneType")
        if t.op == "c":
            return mk("lib", "builtins." + type(cval(t)).__name__)
        return mk("f", "type", t)

    def by_class(t):
        """an object found to be an instance of a class without subclasses: this class"""
        d, rest = {}, T
        if t.op not in ("o", "c") and I.class_of(t) is None:
            for v in sorted(support(st.pc)):
                x = ATOMS[v]
                if x.op == "isinst" and x.args[0] is t and x.args[1] in I.clsof and not I.has_subclass(I.clsof[x.args[1]]):
                    d[x.args[1]] = b_or(d.get(x.args[1], F), b_and(rest, atom(x)))
                    rest = b_and(rest, b_not(atom(x)))
        if not d:
            return V(leaf(t))
        if b_and(st.pc, rest) != F:
            d[leaf(t)] = rest
        return from_dict(d)

    return I.per_leaf(st, a[0], lambda s, t: by_class(t))


def b_map(I, st, a, kw, node):
    if len(a) != 2:
        return rf(I, st, "map", *a)
    d = I.new_container(st, "list")

    def body(s, v):
        r = I.call(s, a[0], [v], {}, node)
        I.raw_append(s, d, r)

    I.iterate(st, a[1], body, I.frames[-1], (), node, None)
    return V(d)


def b_filter(I, st, a, kw, node):
    d = I.new_container(st, "list")

    def body(s, v):
        if a[0].single() is NONE:
            g = I.truth(s, v)
        else:
            g = I.truth(s, I.call(s, a[0], [v], {}, node))
        add_guarded(I, s, d, v, g)

    I.iterate(st, a[1], body, I.frames[-1], (), node, None)
    return V(d)


def add_guarded(I, st, d, v, g):
    from .interp import Seg

    c = I.content(st, d)
    loops = tuple(l for l in I.loops if l not in c.loops)
    h = b_and(simplify(st.pc, c.pc) if loops else T, g)
    if h != F:
        st.m[("c", d)] = c.with_segs(c.segs + (Seg(loops, None, v, h),))


def b_enumerate(I, st, a, kw, node):
    start = kw.get("start") or (a[1] if len(a) > 1 else None)
    if start is not None and start.single() is not C(0):
        return g_map(lambda t, s: mk("f", "enumerate", t, s), a[0], start)
    return g_map(lambda t: mk("f", "enumerate", t), a[0])


def b_range(I, st, a, kw, node):
    return g_map(lambda *ts: mk("f", "range", *ts), *a)


def b_zip(I, st, a, kw, node):
    cs = []
    for x in a:
        t = x.single()
        c = I.content(st, t) if t is not None else None
        if c is None or c.base is not None or any(s.loops or s.guard != T for s in c.segs):
            return rf(I, st, "zip", *a)
        cs.append([s.key if c.kind == "dict" else s.val for s in c.segs])
    return V(I.mk_list(st, [V(I.mk_list(st, list(z), "tuple")) for z in zip(*cs)]))


def b_open(I, st, a, kw, node):
    mode = a[1] if len(a) > 1 else kw.get("mode", V(C("r")))
    I.record("lib", st, node, name="builtins.open", args=a, kwargs=kw)
    I.record("open", st, node, path=a[0], mode=mode)
    r = g_map(lambda p, m: mk("f", "open", strip_path(p), m), a[0], mode)
    raising(I, st, "builtins.open", r, node)
    return r


def b_iter(I, st, a, kw, node):
    if len(a) == 1:
        return a[0]
    return rf(I, st, "iter", *a)


def b_eval(I, st, a, kw, node):
    I.record("lib", st, node, name="builtins.eval", args=a, kwargs=kw)
    return rf(I, st, "eval", *a)


BUILTINS = {
    "print": b_print, "exit": b_exit, "quit": b_exit, "isinstance": b_isinstance, "hasattr": b_hasattr,
    "getattr": b_getattr, "setattr": b_setattr, "any": b_any, "all": b_all, "next": b_next, "len": b_len,
    "sum": b_sum, "min": minmax("min"), "max": minmax("max"), "sorted": b_sorted, "reversed": b_reversed,
    "list": seq("list"), "tuple": seq("tuple"), "set": seq("set"), "frozenset": seq("set"), "dict": b_dict,
    "str": b_str, "int": pure("int", int), "float": pure("float", float), "bool": b_bool, "abs": pure("abs", abs),
    "round": pure("round", round), "repr": pure("repr", repr), "type": b_type, "id": rf2("id"),
    "callable": pure("callable"), "open": b_open, "map": b_map, "filter": b_filter, "enumerate": b_enumerate,
    "range": b_range, "zip": b_zip, "iter": b_iter, "chr": pure("chr", chr), "ord": pure("ord", ord),
    "hash": pure("hash"), "vars": rf2("vars"), "dir": rf2("dir"), "format": pure("format", format),
    "bytes": pure("bytes"), "object": rf2("object"), "divmod": pure("divmod"), "pow": pure("pow", pow),
    "issubclass": pure("issubclass"), "input": rf2("input"), "slice": rf2("slice"), "eval": b_eval,
    "exec": b_eval,
}

# --- other modules


def f_join(I, st, a, kw, node):
    return g_map(lambda *ts: mkpath(ts), *a) if a else V(mk("f", "path"))


def ospath(name, b=True):
    def h(I, st, a, kw, node):
        return g_map(lambda t: mk("f", name, strip_path(t)), a[0])

    return h


def f_same(I, st, a, kw, node):
    return a[0]


def f_compile(I, st, a, kw, node):
    if len(a) > 1 or kw:
        return generic(I, st, "re", a, kw)
    return g_map(lambda t: mk("f", "re", t), a[0])


def rx(name):
    def h(I, st, a, kw, node):
        if len(a) > 2 or kw:
            return generic(I, st, name, a, kw)
        return g_map(lambda p, s: regex(name, p, s), a[0], a[1])

    return h


def regex(name, p, s):
    if p.op == "f" and p.args[0] == "re" and len(p.args) == 2:
        p = p.args[1]
    if name == "match" and p.op == "c" and isinstance(cval(p), str) and cval(p).endswith(r"\Z"):
        name, p = "fullmatch", C(cval(p)[:-2])
    if p.op == "c" and s.op == "c" and isinstance(cval(s), str) and isinstance(cval(p), str):
        try:
            m = getattr(_re, name)(cval(p), cval(s))
            if m is None:
                return NONE
        except Exception:
            pass
    return mk("f", name, p, s)


def f_loads(I, st, a, kw, node):
    return g_map(lambda t: mk("f", "json", t), a[0])


def f_load(I, st, a, kw, node):
    return g_map(lambda t: mk("f", "json", read_of(t)), a[0])


def f_dump(I, st, a, kw, node):
    I.record("writefile", st, node, path=g_map(file_of, a[1]), text=g_map(lambda t: mk("f", "jsontext", I.reify(st, t)), a[0]))
    return V(NONE)


def f_dumps(I, st, a, kw, node):
    return g_map(lambda t: mk("f", "jsontext", I.reify(st, t)), a[0])


def read_of(t):
    if t.op == "f" and t.args[0] == "open":
        return mk("f", "filetext", t.args[1])
    return mk("f", "read", t)


def file_of(t):
    if t.op == "f" and t.args[0] == "open":
        return t.args[1]
    return t


def f_h5file(I, st, a, kw, node):
    mode = a[1] if len(a) > 1 else kw.get("mode", V(C("r")))
    return g_map(lambda p, m: mk("f", "h5py.File", strip_path(p), m), a[0], mode)


def f_copy(I, st, a, kw, node):
    def leaf(s, t):
        if I.is_container(t):
            c = I.content(s, t)
            n = I.new_container(s, c.kind, c.segs)
            if c.base is not None:
                s.m[("c", n)].base = c.base
            return V(n)
        cls = I.class_of(t)
        if cls is not None and t.op == "o":
            o = I.new_obj(s, t.args[1])
            I.otypes[o] = cls
            for k in [k for k in s.m if k[0] == "h" and k[1] is t]:
                s.m[("h", o, k[2])] = s.m[k]
            I.record("copied", s, node, obj=t, new=o)
            return V(o)
        if t.op == "c":
            return V(t)
        # a distinct object with the same content
        o = I.new_obj(s, "copy")
        I.copies[o] = t
        d = I.type_of(t)
        if d:
            I.ptypes[o] = d
        I.record("copied", s, node, obj=t, new=o)
        return V(o)

    return I.per_leaf(st, a[0], leaf)


def f_defaultdict(I, st, a, kw, node):
    d = I.new_container(st, "dict")
    if a and a[0].single() is not None:
        I.factories[d] = a[0]
    return V(d)


def f_ordered(I, st, a, kw, node):
    return b_dict(I, st, a, kw, node)


def f_listdir(I, st, a, kw, node):
    return g_map(lambda t: mk("f", "listdir", strip_path(t)), a[0])


def f_path(I, st, a, kw, node):
    return g_map(lambda *ts: mkpath(ts), *a) if a else V(mk("f", "path", C(".")))


def f_partial(I, st, a, kw, node):
    t = mk("part", I.gkey(a[0]), tuple(I.reify(st, x) for x in a[1:]), tuple(mk("kw", k, I.reify(st, v)) for k, v in sorted(kw.items())))
    I.partials[t] = (a[0], a[1:], kw)
    return V(t)


def f_splitext(I, st, a, kw, node):
    return g_map(lambda t: mk("f", "splitext", strip_path(t)), a[0])


def f_chain(I, st, a, kw, node):
    d = I.new_container(st, "list")
    for x in a:
        I.iterate(st, x, lambda s, v: I.raw_append(s, d, v), I.frames[-1], (), node, None)
    return V(d)


def six(I, st, t):
    """is it certain that the sequence has six items (the date and time in a zip archive)"""
    if t.op == "a" and t.args[1] == "date_time":
        return True
    c = I.content(st, t)
    if c is not None:
        return c.base is None and len(c.segs) == 6 and all(x.guard == T and not x.loops for x in c.segs)
    if t.op in ("list", "tuple") and t.args and isinstance(t.args[0], tuple):
        return len(t.args[0]) == 6 and all(g.op == "seg" and g.args[0] == () for g in t.args[0])
    if t.op == "f" and t.args[0] in ("max", "min"):
        return all(six(I, st, x) for x in t.args[1:])
    if t.op == "f" and t.args[0] in ("maximum", "minimum"):
        return all(six(I, st, g.args[0]) for g in t.args[3])
    return False


def f_datetime(I, st, a, kw, node):
    """a date built from the six numbers of one sequence, however they are handed over"""
    ks = sorted(kw)

    def leaf(*ts):
        r = whole_date(I, st, ts[: len(a)], dict(zip(ks, ts[len(a):])))
        return r if r is not None else mk("f", "datetime.datetime", *ts[: len(a)], *[mk("kw", k, t) for k, t in zip(ks, ts[len(a):])])

    if any(I.content(st, t) is not None for v in list(a) + list(kw.values()) for t in v.leaves()):
        return None
    return g_map(leaf, *a, *[kw[k] for k in ks])


def whole_date(I, st, a, kw):
    parts = []
    for t in a:
        if t.op == "star":
            x = t.args[0]
            if x.op == "f" and x.args[0] == "slice" and x.args[2] in (NONE, C(0)) and x.args[4] in (NONE, C(1)):
                n = cval(x.args[3]) if x.args[3].op == "c" else None
                if not isinstance(n, int) or n < 0:
                    return None
                parts.extend(mk("i", x.args[1], C(j)) for j in range(n))
            elif six(I, st, x):
                parts.extend(mk("i", x, C(j)) for j in range(6))
            else:
                return None
        else:
            parts.append(t)
    names = ["year", "month", "day", "hour", "minute", "second"]
    if len(parts) > 6 or set(kw) - set(names[len(parts):]):
        return None
    for n in names[len(parts):]:
        if n not in kw:
            return None
        parts.append(kw[n])
    x = parts[0].args[0] if parts[0].op == "i" else None
    if x is not None and all(p is mk("i", x, C(j)) for j, p in enumerate(parts)):
        return mk("f", "datetime", x)
    return None


def f_none(I, st, a, kw, node):
    return V(NONE)


FUNCS = {
    "os.path.join": f_join,
    "os.path.exists": ospath("exists_path"),
    "os.path.lexists": ospath("exists_path"),
    "os.path.isdir": ospath("isdir"),
    "os.path.isfile": ospath("isfile"),
    "os.path.dirname": lambda I, st, a, kw, n: g_map(lambda t: dirname(t), a[0]),
    "os.path.basename": lambda I, st, a, kw, n: g_map(lambda t: basename(t), a[0]),
    "os.path.abspath": f_same,
    "os.path.realpath": f_same,
    "os.path.normpath": f_same,
    "os.path.expanduser": f_same,
    "os.fspath": f_same,
    "os.path.splitext": f_splitext,
    "os.listdir": f_listdir,
    "pathlib.Path": f_path,
    "pathlib.PurePath": f_path,
    "pathlib.PurePosixPath": f_path,
    "re.compile": f_compile,
    "re.match": rx("match"),
    "re.fullmatch": rx("fullmatch"),
    "re.search": rx("search"),
    "json.loads": f_loads,
    "json.load": f_load,
    "json.dumps": f_dumps,
    "json.dump": f_dump,
    "h5py.File": f_h5file,
    "copy.copy": f_copy,
    "copy.deepcopy": f_copy,
    "collections.OrderedDict": f_ordered,
    "collections.defaultdict": f_defaultdict,
    "functools.partial": f_partial,
    "itertools.chain": f_chain,
    "datetime.datetime": f_datetime,
    "sys.exit": b_exit,
    "os._exit": b_exit,
    "requests.packages.urllib3.disable_warnings": f_none,
    "logging.basicConfig": f_none,
}


# ---------------------------------------------------------------- attributes


def attribute(I, st, t, name, node):
    if t.op == "f":
        n = t.args[0]
        if n == "path":
            if name == "name":
                return V(basename(t))
            if name == "parent":
                return V(dirname(t))
            if name == "suffix":
                return V(suffix(t))
            if name in ("exists", "is_dir", "is_file", "mkdir", "absolute", "resolve", "open", "read_text", "write_text",
                        "unlink", "rename", "replace", "joinpath", "rmdir", "touch", "iterdir", "glob", "rglob",
                        "expanduser", "as_posix", "with_suffix", "with_name", "write_bytes", "relative_to", "samefile",
                        "startswith", "endswith", "find", "split"):
                return V(mk("meth", t, name))
        if n == "re" and name == "pattern":
            return V(t.args[1])
        if n == "direntry":
            if name == "name":
                return V(t.args[2])
            if name == "path":
                return V(mkpath([t.args[1], t.args[2]]))
    if name == "__class__":
        return b_type(I, st, [V(t)], {}, node)
    if t.op in ("fn", "bm") and name in ("__name__", "__doc__"):
        f = t if t.op == "fn" else t.args[0]
        return V(C(I.func_of(f).name if name == "__name__" else ""))
    return None


# ---------------------------------------------------------------- methods


PARAMS = {
    "decode": ("encoding", "errors"),
    "encode": ("encoding", "errors"),
    "split": ("sep", "maxsplit"),
    "rsplit": ("sep", "maxsplit"),
}


def method(I, st, t, name, args, kwargs, node):
    args = [prune(a, st.pc) for a in args]
    kwargs = {k: prune(v, st.pc) for k, v in kwargs.items()}
    if name in PARAMS and kwargs and not (t.op == "o" and t in I.otypes):
        # the keywords of methods of text
        ps = PARAMS[name]
        while len(args) < len(ps) and ps[len(args)] in kwargs:
            args.append(kwargs.pop(ps[len(args)]))
        if len(args) == 0 and set(kwargs) == {"errors"} and name in ("decode", "encode"):
            args = [V(C("utf-8")), kwargs.pop("errors")]
    if name in ("decode", "encode") and not (t.op == "o" and t in I.otypes):
        args = [V(C("utf-8")) if is_const(args[0]) and str(const(args[0])).lower().replace("_", "-") in ("utf8", "utf-8", "u8") else args[0], *args[1:]] if args else [V(C("utf-8"))]
    if t is UNDEF:
        return V(UNDEF)
    if t is NONE and name not in NONE_METHODS:
        cls = mk("lib", "builtins.AttributeError")
        I.do_raise(st, cls, V(mk("exc", cls, mk("meth", t, name))), node)
        return V(UNDEF)
    if t.op in ("cls", "lib"):
        # an unbound method of a library class, or an exception's __init__
        return obj_method(I, st, name, args, kwargs, node)
    if t.op == "super":
        base = [b for k in I.mro(I.clsof[t.args[0]]) for b in k.bases if b.op == "lib" and b.args[0] != "builtins.object"]
        if base and not name.startswith("__"):
            return I.call(st, V(mk("lib", base[0].args[0] + "." + name)), [V(t.args[1])] + args, kwargs, node)
        return obj_method(I, st, name, [V(t.args[1])] + args, kwargs, node)
    if name == "__getattribute__" and args and is_const(args[0]):
        return I.getattr_leaf(st, t, const(args[0]), node)
    if name == "__getattribute__" and args:
        return I.per_leaf(st, args[0], lambda s, n: I.getattr_leaf(s, t, cval(n), node) if n.op == "c" else V(mk("f", "getattr", t, n)))
    if name == "__setattr__" and len(args) == 2:
        return b_setattr(I, st, [V(t)] + args, {}, node)
    if name == "__contains__" and len(args) == 1:
        I.record("inop", st, node, item=args[0], coll=V(t))
        return g_bool(g_test(lambda x: I.contains(st, x, t), args[0]))
    if name == "__getitem__" and len(args) == 1:
        return I.getitem(st, V(t), args[0], node)
    if name == "__setitem__" and len(args) == 2:
        I.setitem(st, V(t), args[0], args[1], node)
        return V(NONE)
    if name == "__len__":
        return V(length(I, st, t))
    if name == "__str__":
        return V(textual(I, st, t))
    c = I.content(st, t)
    if t.op == "o" and c is not None:
        h = CONT.get(name)
        if h is not None:
            return h(I, st, t, args, kwargs, node)
        I.record("nometh", st, node, obj=t, name=name)
        return V(mk("f", name, I.reify(st, t)))
    if t.op in ("list", "dict", "set") and name in ("items", "keys", "values", "get", "index", "count", "copy"):
        return SYM[name](I, st, t, args, kwargs, node)
    if t.op == "f" and t.args[0] == "datetime" and len(t.args) == 2:
        # whole seconds: the forms of the text agree
        if name == "isoformat":
            sep = args[0] if args else kwargs.get("sep")
            if set(kwargs) <= {"sep"} and len(args) < 2 and sep is not None and sep.single() is C(" "):
                return V(mk("f", "str", t))
        if name == "strftime" and args and args[0].single() is C("%Y-%m-%d %H:%M:%S"):
            return V(mk("f", "str", t))
    # ---- files and paths
    if t.op == "f" and t.args[0] == "path":
        r = path_method(I, st, t, name, args, kwargs, node)
        if r is not None:
            return r
    if t.op == "f" and t.args[0] == "open":
        if name == "read":
            return V(read_of(t))
        if name in ("write", "writelines"):
            I.record("writefile", st, node, path=V(file_of(t)), text=args[0])
            return V(NONE)
        if name == "readlines":
            return V(mk("f", "splitlines", read_of(t)))
    if t.op == "f" and t.args[0] == "re" and name in ("match", "fullmatch", "search"):
        I.record("libm", st, node, recv=t, name=name, args=args, kwargs=kwargs)
        if len(args) == 1 and len(t.args) == 2:
            return g_map(lambda s: regex(name, t.args[1], s), args[0])
    if t.op == "f" and t.args[0] in ("logging.getLogger", "call:punx.utils.setup_logger") and name in LOG_METHODS:
        I.record("log", st, node, level=name, args=args)
        return V(NONE)
    if name in ("namelist", "infolist", "getinfo", "extract") and zip_of(t):
        r = zip_method(I, st, t, name, args, kwargs, node)
        if r is not None:
            return r
    # ---- text
    if t.op == "c" and isinstance(cval(t), (str, bytes)):
        if name == "format" and isinstance(cval(t), str):
            r = str_format(I, st, cval(t), args, kwargs)
            if r is not None:
                return r
        if not kwargs and args and name in ("startswith", "endswith"):
            return g_bool(g_test(lambda x: edge(I, st, t, name, x), args[0]))
        if not kwargs and all_consts_any(args) and name != "join":
            def fold(*ts):
                try:
                    v = getattr(cval(t), name)(*[cval(x) for x in ts])
                except Exception:
                    return mk("f", name, t, *ts)
                return wrap(I, st, v)

            return g_map(fold, *args) if args else V(fold())
        if name == "join" and args:
            return g_map(lambda x: join(I, st, t, x), args[0])
    if name in ("startswith", "endswith") and args:
        I.record("libm", st, node, recv=t, name=name, args=args, kwargs=kwargs)
        return g_bool(g_test(lambda x: edge(I, st, t, name, x), args[0]))
    if name == "join" and args and (is_str_term(t)):
        return g_map(lambda x: join(I, st, t, x), args[0])
    if name in SYM and not (name in ("get",) and (len(args) > 2 or kwargs)) and not (name in STR_METHODS and is_str_term(t)):
        r = SYM[name](I, st, t, args, kwargs, node)
        if r is not None:
            return r
    I.record("libm", st, node, recv=t, name=name, args=args, kwargs=kwargs)
    if name in ("error", "exit") and is_parser(I, t):
        code = V(C(2)) if name == "error" else args[0] if args else kwargs.get("status", V(C(0)))
        return b_exit(I, st, [code], {}, node)
    r = generic(I, st, name, [V(t)] + args, kwargs)
    raising(I, st, name, r, node, METHOD_RAISE, METHOD_RAISE_QUIET)
    return r


NONE_METHODS = {n for n in dir(None)}


def is_parser(I, t):
    """an argparse parser, or an object of a class derived from it"""
    if t.op == "f" and t.args[0] in ("argparse.ArgumentParser", "add_parser"):
        return True
    cls = I.class_of(t)
    return cls is not None and any(b.op == "lib" and b.args[0] == "argparse.ArgumentParser" for k in I.mro(cls) for b in k.bases)


def zip_of(t):
    return t.op == "f" and t.args[0] == "zipfile.ZipFile"


def zip_method(I, st, t, name, args, kwargs, node):
    members = mk("a", t, "filelist")
    if name == "infolist":
        return V(members)
    if name == "namelist":
        from .interp import LoopCtx, Seg

        d = I.new_container(st, "list")
        e = elem(members, I.depth_of(members))
        st.m[("c", d)] = I.content(st, d).with_segs((Seg((LoopCtx(members, e),), None, V(mk("a", e, "filename")), T),))
        return V(d)

    def member(x):
        return x.args[0] if x.op == "a" and x.args[1] == "filename" and x.args[0].op in ("elem", "i") else x

    if name == "getinfo" and len(args) == 1:
        return g_map(lambda x: member(x) if member(x) is not x else mk("f", "getinfo", t, x), args[0])
    if name == "extract":
        kwargs = dict(kwargs)
        if "member" in kwargs:
            args = [kwargs.pop("member")] + args
        if "path" in kwargs and len(args) == 1:
            args = args + [kwargs.pop("path")]
        if not args:
            return None
        args = [g_map(member, args[0])] + args[1:]
        I.record("libm", st, node, recv=t, name=name, args=args, kwargs=kwargs)
        r = generic(I, st, name, [V(t)] + args, kwargs)
        raising(I, st, name, r, node, METHOD_RAISE, METHOD_RAISE_QUIET)
        return r
    return None


def all_consts_any(args):
    return all(all(x.op == "c" for x in a.leaves()) for a in args)


def wrap(I, st, v):
    if isinstance(v, list):
        return I.mk_list(st, [V(C(x)) for x in v])
    if isinstance(v, tuple):
        return I.mk_list(st, [V(C(x)) for x in v], "tuple")
    return C(v)


def edge(I, st, t, name, x):
    """guard of t.startswith(x) / t.endswith(x)"""
    c = I.content(st, x)
    if c is not None:
        return b_or(*[b_and(s.guard, g_test(lambda y: edge(I, st, t, name, y), s.val)) for s in c.segs])
    if t.op == "c" and x.op == "c":
        try:
            return T if getattr(cval(t), name)(cval(x)) else F
        except Exception:
            return F
    if t.op == "cat" and x.op == "c" and isinstance(cval(x), str):
        p = t.args[0] if name == "startswith" else t.args[-1]
        v = cval(x)
        if p.op == "c" and isinstance(cval(p), str):
            w = cval(p)
            if len(w) >= len(v):
                return T if getattr(w, name)(v) else F
            if name == "startswith" and not v.startswith(w):
                return F
            if name == "endswith" and not v.endswith(w):
                return F
    if x is C(""):
        return T
    return p_truthy(mk("f", name, t, x))


def join(I, st, sep, x):
    c = I.content(st, x)
    if c is not None and c.base is None and all(s.guard == T and not s.loops for s in c.segs) and all(s.val.single() is not None for s in c.segs):
        parts = []
        for i, s in enumerate(c.segs):
            if i:
                parts.append(sep)
            parts.append(I.textual(st, s.val.single()))
        return cat(*parts) if parts else C("")
    return mk("f", "join", sep, I.reify(st, x))


def path_method(I, st, t, name, args, kwargs, node):
    if name == "exists":
        return V(mk("f", "exists_path", strip_path(t)))
    if name == "is_dir":
        return V(mk("f", "isdir", strip_path(t)))
    if name == "is_file":
        return V(mk("f", "isfile", strip_path(t)))
    if name in ("absolute", "resolve", "expanduser", "as_posix"):
        return V(t)
    if name == "joinpath":
        return g_map(lambda *ts: mkpath((t,) + ts), *args) if args else V(t)
    if name == "open":
        return b_open(I, st, [V(t)] + args, kwargs, node)
    if name == "read_text":
        I.record("open", st, node, path=V(t), mode=V(C("r")))
        return V(mk("f", "filetext", strip_path(t)))
    if name in ("write_text", "write_bytes"):
        I.record("open", st, node, path=V(t), mode=V(C("w")))
        I.record("writefile", st, node, path=V(strip_path(t)), text=args[0])
        return V(NONE)
    if name in ("mkdir", "rmdir", "touch", "unlink", "rename", "replace", "symlink_to", "hardlink_to", "chmod"):
        I.record("lib", st, node, name="pathlib." + name, args=[V(t)] + args, kwargs=kwargs)
        return V(NONE)
    if name in ("iterdir",):
        base = mk("f", "listdir", strip_path(t))
        d = I.new_container(st, "list")
        from .interp import LoopCtx, Seg

        e = elem(base)
        st.m[("c", d)] = I.content(st, d).with_segs((Seg((LoopCtx(base, e),), None, V(mkpath([t, e])), T),))
        return V(d)
    return None


# --- containers


def c_append(I, st, t, a, kw, node):
    c = I.content(st, t)
    I.record("append", st, node, coll=t, value=a[0], base=c.base)
    I.raw_append(st, t, a[0])
    return V(NONE)


def c_extend(I, st, t, a, kw, node):
    c = I.content(st, t)
    from .interp import Seg

    extra = tuple(l for l in I.loops if l not in c.loops)
    pc = simplify(st.pc, c.pc) if extra else T
    segs = []
    for x, g in a[0].items:
        g = b_and(st.pc, g)
        if g == F:
            continue
        for loops, val, h in I.pieces(st, x):
            gg = b_and(pc, simplify(b_and(g, h), st.pc)) if g != st.pc else b_and(pc, h)
            I.record("append", st, node, guard=b_and(g, h), coll=t, value=val, base=c.base, loops2=loops)
            segs.append(Seg(extra + tuple(loops), None, val, gg))
    st.m[("c", t)] = c.with_segs(c.segs + tuple(segs))
    return V(NONE)


def c_get(I, st, t, a, kw, node):
    default = a[1] if len(a) > 1 else kw.get("default", V(NONE))

    def leaf(s, k):
        if k.op == "o":
            k = I.reify(s, k)
        v, found = I.subscript(s, t, k, node)
        return g_ite(found, I.memo_value(s, t, k) or v, default)

    return I.per_leaf(st, a[0], leaf)


def c_setdefault(I, st, t, a, kw, node):
    default = a[1] if len(a) > 1 else V(NONE)
    return set_default(I, st, t, a[0], default, node)


def set_default(I, st, t, k, default, node):
    def leaf(s, kt):
        g = I.contains(s, kt, t)
        I.branch(s, b_not(g), lambda x: I.setitem_leaf(x, t, kt, default, node), None)
        v, found = I.subscript(s, t, kt, node)
        return prune(I.memo_value(s, t, kt) or v, s.pc)

    return I.per_leaf(st, k, leaf)


def c_update(I, st, t, a, kw, node):
    if a:
        c = I.content(st, t)
        if c is not None and c.kind == "set":
            return c_extend(I, st, t, a, kw, node)
        update(I, st, t, a[0], node, event=True)
    for k, v in kw.items():
        I.setitem_leaf(st, t, C(k), v, node)
    return V(NONE)


def c_pop(I, st, t, a, kw, node):
    c = I.content(st, t)
    I.record("delitem", st, node, obj=t, key=a[0] if a else V(C(-1)))
    if c.kind == "dict":
        default = a[1] if len(a) > 1 else None

        def leaf(s, k):
            v, found = I.subscript(s, t, k, node)
            I.del_key(s, t, V(k))
            return g_ite(found, v, default) if default is not None else v

        return I.per_leaf(st, a[0], leaf)
    if all(s.guard == T and not s.loops for s in c.segs) and c.base is None and c.segs:
        i = const(a[0]) if a else -1
        if isinstance(i, int):
            try:
                segs = list(c.segs)
                v = segs.pop(i)
                st.m[("c", t)] = c.with_segs(tuple(segs))
                return v.val
            except IndexError:
                pass
    r = I.reify(st, t)
    return V(mk("i", r, a[0].single() if a and a[0].single() is not None else C(-1)))


def c_items(I, st, t, a, kw, node):
    return V(mk("f", "items", t))


def c_values(I, st, t, a, kw, node):
    return V(mk("f", "values", t))


def c_keys(I, st, t, a, kw, node):
    return V(mk("f", "keys", t))


def c_copy(I, st, t, a, kw, node):
    return f_copy(I, st, [V(t)], {}, node)


def c_clear(I, st, t, a, kw, node):
    c = I.content(st, t)
    I.record("clear", st, node, obj=t)
    n = c.with_segs(())
    n.base = None
    st.m[("c", t)] = n
    return V(NONE)


def c_index(I, st, t, a, kw, node):
    return V(mk("f", "index", I.reify(st, t), *[I.gkey(x) for x in a]))


def c_insert(I, st, t, a, kw, node):
    c = I.content(st, t)
    I.record("append", st, node, coll=t, value=a[1], base=c.base)
    from .interp import Seg

    loops = tuple(l for l in I.loops if l not in c.loops)
    s = Seg(loops, None, a[1], simplify(st.pc, c.pc) if loops else T)
    if const(a[0]) == 0 and not loops:
        st.m[("c", t)] = c.with_segs((s,) + c.segs)
    else:
        st.m[("c", t)] = c.with_segs(c.segs + (s,))
    return V(NONE)


def c_remove(I, st, t, a, kw, node):
    c = I.content(st, t)
    I.record("delitem", st, node, obj=t, key=a[0])
    from .interp import Seg

    segs = []
    for s in c.segs:
        g = b_and(s.guard, b_not(g_test(lambda p, q: I.eq(st, p, q), s.val, a[0])))
        if g != F:
            segs.append(Seg(s.loops, s.key, s.val, g))
    st.m[("c", t)] = c.with_segs(tuple(segs))
    return V(NONE)


def c_sort(I, st, t, a, kw, node):
    if "key" in kw:
        keyterm(I, st, V(t), kw["key"])
    return V(NONE)


def c_setop(name):
    def h(I, st, t, a, kw, node):
        o = a[0] if a else V(I.new_container(st, "set"))
        from .interp import Seg

        c = I.content(st, t)
        segs = []
        if name == "union":
            segs = list(c.segs)
            for x, g in o.items:
                for loops, val, hh in I.pieces(st, x):
                    segs.append(Seg(loops, None, val, b_and(simplify(g, st.pc), hh)))
        else:
            for s in c.segs:
                inn = g_test(lambda p, q: I.contains(st, p, q), s.val if c.kind != "dict" else s.key, o)
                g = b_and(s.guard, inn if name == "intersection" else b_not(inn))
                if g != F:
                    segs.append(Seg(s.loops, None, s.val if c.kind != "dict" else s.key, g))
        return V(I.new_container(st, "set", segs))

    return h


def c_index_count(I, st, t, a, kw, node):
    return V(mk("f", "count", I.reify(st, t), *[I.gkey(x) for x in a]))


CONT = {
    "append": c_append, "add": c_append, "extend": c_extend, "get": c_get, "setdefault": c_setdefault,
    "update": c_update, "pop": c_pop, "items": c_items, "values": c_values, "keys": c_keys, "copy": c_copy,
    "clear": c_clear, "index": c_index, "insert": c_insert, "remove": c_remove, "discard": c_remove, "sort": c_sort,
    "union": c_setop("union"), "intersection": c_setop("intersection"), "difference": c_setop("difference"),
    "count": c_index_count, "popitem": c_pop, "reverse": lambda I, st, t, a, kw, n: V(NONE),
    "move_to_end": lambda I, st, t, a, kw, n: V(NONE), "appendleft": c_insert, "popleft": c_pop,
}


# --- symbolic containers


def s_get(I, st, t, a, kw, node):
    default = a[1] if len(a) > 1 else V(NONE)
    if not a:
        return None
    if "getlink" in kw or "getclass" in kw:
        return None
    I.record("symget", st, node, coll=t, key=a[0])

    def leaf(s, k):
        if k.op == "o":
            k = I.reify(s, k)
        v, found = I.subscript(s, t, k, node)
        if I.content(s, t) is None:
            found = p_in(k, t)
        return g_ite(found, I.memo_value(s, t, k) or v, default)

    return I.per_leaf(st, a[0], leaf)


def s_append(I, st, t, a, kw, node):
    from .interp import Content, Seg

    I.record("append", st, node, coll=t, value=a[0], base=t)
    c = I.content(st, t) or Content("list", (), t)
    loops = tuple(l for l in I.loops if l not in c.loops)
    st.m[("c", t)] = c.with_segs(c.segs + (Seg(loops, None, a[0], st.pc),))
    return V(NONE)


def s_extend(I, st, t, a, kw, node):
    from .interp import Content, Seg

    c = I.content(st, t) or Content("list", (), t)
    extra = tuple(l for l in I.loops if l not in c.loops)
    segs = []
    for x, g in a[0].items:
        g = b_and(st.pc, g)
        if g == F:
            continue
        for loops, val, h in I.pieces(st, x):
            I.record("append", st, node, guard=b_and(g, h), coll=t, value=val, base=t, loops2=loops)
            segs.append(Seg(extra + tuple(loops), None, val, b_and(g, h)))
    st.m[("c", t)] = c.with_segs(c.segs + tuple(segs))
    return V(NONE)


def s_update(I, st, t, a, kw, node):
    if a:
        update(I, st, t, a[0], node, event=True)
    for k, v in kw.items():
        I.setitem_leaf(st, t, C(k), v, node)
    return V(NONE)


def s_setdefault(I, st, t, a, kw, node):
    return set_default(I, st, t, a[0], a[1] if len(a) > 1 else V(NONE), node)


def s_fn(name):
    def h(I, st, t, a, kw, node):
        if a or kw:
            return None
        return V(mk("f", name, t))

    return h


def s_pop(I, st, t, a, kw, node):
    if len(a) == 2:
        from .interp import State

        def leaf(s, k):
            found = I.contains(s, k, t)
            pc = b_and(s.pc, found)
            if pc != F:
                I.record("delitem", State(pc, s.m), node, obj=t, key=V(k))
            return g_ite(found, V(mk("i", t, k)), a[1])

        return I.per_leaf(st, a[0], leaf)
    I.record("delitem", st, node, obj=t, key=a[0] if a else V(C(-1)))
    return g_map(lambda k: mk("i", t, k), a[0]) if a else V(mk("i", t, C(-1)))


def s_clear(I, st, t, a, kw, node):
    from .interp import Content

    I.record("clear", st, node, obj=t)
    c = I.content(st, t) or Content("dict", (), t)
    n = c.with_segs(())
    n.base = None
    st.m[("c", t)] = n
    return V(NONE)


def s_remove(I, st, t, a, kw, node):
    if len(a) != 1:
        return None
    I.record("delitem", st, node, obj=t, key=a[0])
    return V(NONE)


def s_copy(I, st, t, a, kw, node):
    return f_copy(I, st, [V(t)], {}, node)


SYM = {
    "get": s_get, "append": s_append, "extend": s_extend, "update": s_update, "setdefault": s_setdefault,
    "items": s_fn("items"), "values": s_fn("values"), "keys": s_fn("keys"), "pop": s_pop, "clear": s_clear,
    "remove": s_remove, "copy": s_copy,
    "index": lambda I, st, t, a, kw, n: None, "count": lambda I, st, t, a, kw, n: None,
}
