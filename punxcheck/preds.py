"""Canonical predicates (guards) over terms, and axioms relating them."""
import re

from .core import *  # noqa: F401,F403
from .core import REATOM, REBUILD

# functions of the library model whose result is never None
NONNULL_F = {
    "path", "str", "decode_nn", "join", "re", "items", "values", "sorted", "len", "upper", "lower",
    "split", "replace", "strip", "list", "set", "dict", "tuple", "add", "sub", "mul", "enumerate",
    "zip", "dirname", "basename", "type", "h5py.File", "int", "float", "range", "repr", "count",
    "sum", "made", "inst", "lstrip", "rstrip", "splitlines", "encode", "find", "format", "xpath", "getroot",
    "lxml.etree.parse", "lxml.etree.XSLT", "lxml.etree.XMLSchema", "lxml.etree.fromstring",
}
STR_F = {"path", "str", "join", "upper", "lower", "replace", "strip", "lstrip", "rstrip", "dirname",
         "basename", "repr", "format"}
BOOL_F = {"startswith", "endswith", "isdigit", "exists_path", "isdir", "isfile", "hasattr", "isalpha",
          "isalnum", "isidentifier", "islower", "isupper", "isspace", "issubclass", "is_zipfile", "callable",
          "isdecimal", "isnumeric", "samefile", "is_mount", "isabs"}


def elem(t, depth=0):
    return mk("elem", t, depth)


def is_str_term(t):
    if t.op == "c":
        return isinstance(cval(t), str)
    if t.op == "cat":
        return True
    return t.op == "f" and t.args[0] in STR_F


def cat(*parts):
    """canonical concatenation of text"""
    flat = []
    for p in parts:
        if p.op == "f" and p.args[0] == "str" and len(p.args) == 2:
            p = p.args[1]
        if p.op == "cat":
            flat.extend(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if p.op == "c" and not isinstance(cval(p), str):
            v = cval(p)
            p = C(str(v))
        if p.op == "c":
            if cval(p) == "":
                continue
            if out and out[-1].op == "c":
                out[-1] = C(cval(out[-1]) + cval(p))
                continue
        out.append(p)
    if not out:
        return C("")
    if len(out) == 1 and (out[0].op == "c"):
        return out[0]
    if len(out) == 1 and is_str_term(out[0]):
        return out[0]
    if len(out) == 1:
        return mk("f", "str", out[0])
    return mk("cat", *out)


REBUILD["cat"] = cat


def from_file(t):
    """a value read from an attribute or a dataset, of any type"""
    if t.op == "f":
        n = t.args[0]
        if n == "decode":
            return True
        if n == "get":
            return isinstance(t.args[1], Term) and t.args[1].op == "a" and t.args[1].args[1] == "attrs"
        return False
    if t.op == "i":
        b = t.args[0]
        if b.op == "a" and b.args[1] in ("attrs", "flat"):
            return True
        if t.args[1] is C(()) or t.args[1].op in ("tuple", "list") and t.args[1].args == ((),):
            return True
        return from_file(b)
    if t.op == "elem":
        b = t.args[0]
        return isinstance(b, Term) and from_file(b)
    return False


def known_tag(t):
    """the local name of the tag of an XML element found with a path, or None: t is the text `element.tag`"""
    if t.op != "a" or t.args[1] != "tag":
        return None
    e = t.args[0]
    if e.op not in ("elem", "i", "firstel") or not isinstance(e.args[0], Term):
        return None
    x = e.args[0]
    if x.op == "f" and x.args[0] == "xpath" and len(x.args) > 2 and x.args[2].op == "c" and isinstance(cval(x.args[2]), str):
        m = re.match(r"\w+:(\w+)(\[[^/\[\]]*\])?$", cval(x.args[2]).rpartition("/")[2])
        return m and m.group(1)
    return None


def idx(t, k):
    """canonical subscript"""
    if k.op == "idx" and k.args[0].op == "elem" and k.args[0].args[0] is t:
        return k.args[0]
    if t.op == "c" and k.op == "c":
        try:
            return C(cval(t)[cval(k)])
        except Exception:
            pass
    if t.op == "f" and t.args[0] == "sorted" and len(t.args) == 4 and k is C(0) and t.args[2] is not NONE and t.args[3].op == "c":
        return mk("f", "maxby" if cval(t.args[3]) else "minby", t.args[1], t.args[2])
    if t.op == "f" and t.args[0] in ("list", "tuple") and len(t.args) == 2 and k is C(0):
        # the first item
        x = t.args[1]
        while x.op == "f" and x.args[0] in ("list", "tuple", "iter", "keys") and len(x.args) == 2:
            x = x.args[1]
        if x.op == "f" and x.args[0] == "values" and len(x.args) == 2:
            d = strip_seq(x.args[1])
            return mk("i", d, mk("firstel", d, elem(d), mk("bdd", T)))
        if x.op != "f":
            return mk("firstel", x, elem(x), mk("bdd", T))
    if t.op == "f" and k.op == "c" and isinstance(cval(k), int):
        n, a = t.args[0], t.args[1:]
        if n in ("split", "rsplit", "partition", "rpartition") and len(a) > 1 and a[1] is C("}") and k is C(2 if n.endswith("partition") else -1) and known_tag(a[0]):
            return C(known_tag(a[0]))
        if n == "os.path.split" and cval(k) in (0, 1, -1, -2):
            from .lib import basename, dirname

            return (basename if cval(k) in (1, -1) else dirname)(a[0])
        if n in ("split", "partition") and len(a) in (2, 3) and cval(k) == 0 and a[1] is not NONE:
            # the text before the first separator
            return mk("i", mk("f", "split", a[0], a[1]), k)
        if n in ("rsplit", "rpartition", "split") and cval(k) in (-1,) and len(a) in (2, 3) and a[1] is not NONE and (n != "split" or len(a) == 2):
            return mk("i", mk("f", "split", a[0], a[1]), k)
        if n == "rpartition" and cval(k) == 2:
            return mk("i", mk("f", "split", a[0], a[1]), C(-1))
    return mk("i", t, k)


REBUILD["i"] = idx


# ---------------------------------------------------------------- predicates


def count_of(t):
    """(collection, element, guard) of a term that counts the elements satisfying the guard, or None"""
    if t.op == "f" and t.args[0] == "sum" and len(t.args) == 4:
        g = F
        for d in t.args[3]:
            if d.args[0].op != "c" or not isinstance(cval(d.args[0]), int) or cval(d.args[0]) <= 0:
                return None
            g = b_or(g, d.args[1].args[0])
        return t.args[1], t.args[2], g
    return None


def natural(t):
    """an int which is never negative"""
    return (t.op == "a" and t.args[1] in ("size", "ndim")) or (t.op == "f" and t.args[0] in ("count", "len"))


# lists which are never empty: made when their first item is put into them
FILLED = set()


def p_truthy(t):
    """guard: bool(t)"""
    o = t.op
    if o == "i" and t in FILLED:
        return T
    if o == "f" and t.args[0] == "sum":
        c = count_of(t)
        if c:
            return p_exists(*c)
    if natural(t) and not (o == "f" and t.args[0] == "len"):
        return p_ge(t, 1)
    if o == "c":
        return T if cval(t) else F
    if o in ("fn", "cls", "mod", "lib", "bm", "exc"):
        return T
    if o == "cat":
        for p in t.args:
            if p.op == "c" and cval(p):
                return T
        return atom(mk("truthy", t))
    if o == "f":
        n = t.args[0]
        if n == "len":
            return p_truthy(t.args[1])
        if n in ("list", "sorted", "values", "items", "tuple", "set", "enumerate", "reversed", "keys") and len(t.args) >= 2:
            return p_truthy(t.args[1])
        if n == "str" and len(t.args) == 2:
            return atom(mk("truthy", t))
        if n == "endswith" and len(t.args) == 3 and t.args[2].op == "c" and str(cval(t.args[2]))[:1] == "}" and known_tag(t.args[1]):
            return T if cval(t.args[2]) == "}" + known_tag(t.args[1]) else F
        if n in ("match", "fullmatch", "search"):
            return atom(mk("truthy", t))
        if n in ("path", "re"):
            return T
        if n == "type":
            return T
    if o == "undef":
        return F
    return atom(mk("truthy", t))


def nonnull(t):
    o = t.op
    if o in ("fn", "cls", "mod", "lib", "o", "bm", "cat", "elem", "i", "idx", "exc", "lastel", "firstel", "list", "inst", "tuple", "dict", "set"):
        return True
    if o == "f":
        n = t.args[0]
        # (made by a class of a library)
        return n in NONNULL_F or n in BOOL_F or "." in n and n.rpartition(".")[2][:1].isupper() and not n.startswith("call:")
    if o == "c":
        return cval(t) is not None
    return False


def p_eq(a, b):
    """guard: a == b"""
    if a is b:
        return T
    if a.op == "c" and b.op == "c":
        va, vb = cval(a), cval(b)
        if type(va) is not type(vb) and (va is None or vb is None):
            return F
        try:
            return T if va == vb else F
        except Exception:
            return F
    if b.op != "c" and (a.op == "c" or a.id > b.id):
        a, b = b, a
    if b.op == "c":
        v = cval(b)
        if v is None:
            if nonnull(a):
                return F
            if a.op == "f" and a.args[0] in ("match", "fullmatch", "search"):
                return b_not(p_truthy(a))
        elif isinstance(v, bool):
            if a.op == "f" and a.args[0] in BOOL_F:
                return p_truthy(a) if v else b_not(p_truthy(a))
        elif isinstance(v, int):
            if a.op == "f" and a.args[0] == "len":
                if v == 0:
                    return b_not(p_truthy(a.args[1]))
                if v < 0:
                    return F
            if a.op == "f" and a.args[0] == "find" and v == -1:
                return b_not(p_in(a.args[2], a.args[1]))
            if v == 0 and a.op == "f" and a.args[0] == "add" and natural(a.args[1]) and natural(a.args[2]):
                return b_and(p_eq(a.args[1], b), p_eq(a.args[2], b))
            if natural(a):
                if v == 0:
                    return b_not(p_ge(a, 1))
                if v < 0:
                    return F
                return b_and(p_ge(a, v), b_not(p_ge(a, v + 1)))
            if a.op == "f" and a.args[0] == "sum" and count_of(a):
                if v <= 0:
                    return b_not(p_exists(*count_of(a))) if v == 0 else F
                return b_and(p_ge(a, v), b_not(p_ge(a, v + 1)))
        elif isinstance(v, str):
            if v == "" and a.op == "cat" and p_truthy(a) == T:
                return F
            if a.op == "cat":
                first, last = a.args[0], a.args[-1]
                if first.op == "c" and not v.startswith(cval(first)):
                    return F
                if last.op == "c" and not v.endswith(cval(last)):
                    return F
                for p in a.args:
                    if p.op == "c" and cval(p) not in v:
                        return F
        if a.op in ("fn", "cls", "mod", "lib", "bm"):
            return F
        if a.op == "o":
            return F if not isinstance(v, (list, dict, tuple)) else atom(mk("eq", a, b))
    if a.op == "o" and b.op == "o":
        # distinct allocations; containers may still compare equal
        ka = a.args[1] if len(a.args) > 1 else ""
        kb = b.args[1] if len(b.args) > 1 else ""
        kinds = ("list", "dict", "set", "tuple")
        if ka in kinds and kb in kinds:
            return atom(mk("eq", a, b))
        return F
    for x, y in ((a, b), (b, a)):
        if x.op == "f" and x.args[0] == "slice" and x.args[2] in (C(None), C(0)) and x.args[3] is mk("f", "len", y) and x.args[4] is C(None):
            # the beginning of one text is the other
            return p_truthy(mk("f", "startswith", x.args[1], y))
        if x.op in ("fn", "cls", "mod", "lib") and y.op in ("fn", "cls", "mod", "lib", "o", "cat"):
            return F
        if x.op == "undef":
            return F
    return atom(mk("eq", a, b))


def strip_seq(t):
    while t.op == "f" and t.args[0] in ("list", "sorted", "tuple", "set", "reversed", "keys", "iter", "frozenset"):
        t = t.args[1]
    return t


def sequence(t):
    """certainly a list?"""
    if t.op == "list":
        return True
    if t.op == "f" and t.args[0] == "add":
        return sequence(t.args[1]) or sequence(t.args[2])
    return t.op == "f" and t.args[0] in ("list", "sorted", "tuple", "keys")


def p_in(x, t):
    """guard: x in t (t not a container object)"""
    t = strip_seq(t)
    if t.op == "f" and t.args[0] == "add" and sequence(t):
        return b_or(p_in(x, t.args[1]), p_in(x, t.args[2]))
    if t.op == "c":
        v = cval(t)
        if isinstance(v, str) and x.op == "a" and x.args[1] == "kind" and x.args[0].op == "a" and x.args[0].args[1] == "dtype":
            return b_or(*[p_eq(x, C(k)) for k in v])  # one letter
        if x.op == "c":
            try:
                return T if cval(x) in v else F
            except Exception:
                return F
    if t.op == "cat" and x.op == "c" and isinstance(cval(x), str):
        for p in t.args:
            if p.op == "c" and cval(x) in cval(p):
                return T
    if x.op == "elem" and x.args[0] is t:
        return T
    if x.op == "undef" or t.op == "undef":
        return F
    return atom(mk("in", x, t))


def p_ge(t, n):
    """guard: t >= n (n int)"""
    if t.op == "c":
        try:
            return T if cval(t) >= n else F
        except TypeError:
            return F
    if t.op == "f" and t.args[0] == "len":
        if n <= 0:
            return T
        if n == 1:
            return p_truthy(t.args[1])
    if n <= 0 and natural(t):
        return T
    if n <= 1 and t.op == "f" and t.args[0] == "sum" and count_of(t):
        return T if n <= 0 else p_exists(*count_of(t))
    if t.op == "f" and t.args[0] == "find" and n in (0, -1):
        return T if n == -1 else p_in(t.args[2], t.args[1])
    if t.op == "f" and t.args[0] == "count" and n == 1 and len(t.args) == 3:
        return p_in(t.args[2], t.args[1])
    # t + k >= n
    if t.op == "f" and t.args[0] == "add" and t.args[2].op == "c" and isinstance(cval(t.args[2]), int):
        return p_ge(t.args[1], n - cval(t.args[2]))
    if t.op == "f" and t.args[0] == "sub" and t.args[2].op == "c" and isinstance(cval(t.args[2]), int):
        return p_ge(t.args[1], n + cval(t.args[2]))
    g = atom(mk("ge", t, n))
    if n > 1 and (natural(t) or t.op == "f" and t.args[0] == "sum" and count_of(t)):
        return b_and(p_ge(t, n - 1), g) if n < 6 else b_and(p_ge(t, 1), g)
    return g


def p_lt(a, b):
    if a.op == "c" and b.op == "c":
        try:
            return T if cval(a) < cval(b) else F
        except TypeError:
            return F
    if b.op == "c" and isinstance(cval(b), int) and not isinstance(cval(b), bool):
        return b_not(p_ge(a, cval(b)))
    if a.op == "c" and isinstance(cval(a), int) and not isinstance(cval(a), bool):
        return p_ge(b, cval(a) + 1)
    # normalise k + x < y etc.: move an integer offset to the right
    a2, ka = offset(a)
    b2, kb = offset(b)
    return _lt(a2, b2, kb - ka)


def offset(t):
    if t.op == "f" and t.args[0] in ("add", "sub") and t.args[2].op == "c" and isinstance(cval(t.args[2]), int):
        t2, k = offset(t.args[1])
        return t2, k + (cval(t.args[2]) if t.args[0] == "add" else -cval(t.args[2]))
    return t, 0


def _lt(a, b, k):
    """a < b + k  (ints)"""
    if a is b:
        return T if k > 0 else F
    if a.id > b.id:
        # b > a - k  <=>  not (b <= a - k) <=> not (b < a - k + 1)
        return b_not(_lt2(b, a, 1 - k))
    return _lt2(a, b, k)


def _lt2(a, b, k):
    return atom(mk("lt", a, b, k))


_ex_memo = {}


def p_exists(t, e, g):
    """guard: some element e of t satisfies g"""
    k = (t, e, g)
    r = _ex_memo.get(k)
    if r is None:
        r = _ex_memo[k] = _p_exists(t, e, g)
    return r


def _p_exists(t, e, g):
    if g == F:
        return F
    if g == T:
        return p_truthy(t)
    # factor the atoms which do not depend on e
    for v in support(g):
        if e not in syms(ATOMS[v]):
            return b_ite(
                atom(ATOMS[v]),
                p_exists(t, e, cofactor(g, v, True)),
                p_exists(t, e, cofactor(g, v, False)),
            )
    n = len(support(g))
    if n == 1:
        a = ATOMS[next(iter(support(g)))]
        if g == atom(a) and a.op == "eq":
            x, y = a.args
            if x is e and e not in syms(y):
                return p_in(y, t)
            if y is e and e not in syms(x):
                return p_in(x, t)
    # an element is equal to x, and something holds of it
    for v in support(g):
        a = ATOMS[v]
        if a.op == "eq" and cofactor(g, v, False) == F:
            x, y = a.args
            if y is e:
                x, y = y, x
            if x is e and e not in syms(y):
                return b_and(p_in(y, t), subst_bdd(cofactor(g, v, True), {e: y}))
    return atom(mk("exists", e, t, mk("bdd", g)))


def reatom(a, m):
    """canonical guard of atom a after the substitution m"""
    o = a.op
    if o == "exists":
        e, t, g = a.args
        t2 = subst(t, m)
        g2 = subst_bdd(g.args[0], m)
        e2 = subst(e, m)
        return p_exists(t2, e2, g2)
    args = [subst(x, m) if isinstance(x, Term) else x for x in a.args]
    if o == "truthy":
        return p_truthy(args[0])
    if o == "eq":
        return p_eq(*args)
    if o == "in":
        return p_in(*args)
    if o == "ge":
        return p_ge(*args)
    if o == "lt":
        return _lt(*args)
    return atom(mk(o, *args))


REATOM[0] = reatom


# ---------------------------------------------------------------- axioms

# subclasses among library classes: (sub, super)
LIB_SUB = {("h5py.File", "h5py.Group"), ("numpy.bytes_", "builtins.bytes"), ("numpy.str_", "builtins.str"),
           ("numpy.bytes_", "numpy.generic"), ("numpy.str_", "numpy.generic"), ("builtins.bool", "builtins.int")}
# disjoint library classes
LIB_DISJOINT = [
    {"h5py.Group", "h5py.Dataset", "builtins.str", "builtins.bytes", "builtins.int", "builtins.float",
     "builtins.list", "builtins.tuple", "builtins.dict", "numpy.ndarray"},
    {"h5py.File", "h5py.Dataset", "builtins.str", "builtins.bytes", "builtins.int", "builtins.float",
     "builtins.list", "builtins.tuple", "builtins.dict", "numpy.ndarray"},
    {"numpy.bytes_", "numpy.str_", "numpy.ndarray", "h5py.Group", "h5py.Dataset"},
    {"numpy.generic", "numpy.ndarray", "h5py.Group", "h5py.Dataset"},
    {"h5py.HardLink", "h5py.SoftLink", "h5py.ExternalLink"},
]


def _lname(t):
    return t.args[0] if t.op == "lib" else None


def fixed_len(t):
    """the length of a display without loops or conditions"""
    if t.op != "list":
        return None
    ss = t.args[0]
    return len(ss) if isinstance(ss, tuple) and all(s.op == "seg" and not s.args[0] and s.args[3].args[0] == T for s in ss) else None


def pair_axiom(a, b):
    """a guard over atoms a, b that always holds (T when there is none)"""
    A, B = atom(a), atom(b)
    oa, ob = a.op, b.op
    if oa == "eq" and ob == "eq":
        for x, c in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            for y, d in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
                if x is y and c.op == "c" and d.op == "c" and p_eq(c, d) == F:
                    return b_not(b_and(A, B))
        return T
    for x, y, X, Y in ((a, b, A, B), (b, a, B, A)):
        if x.op == "eq" and x.args[1].op == "c":
            t, c = x.args
            if y.op == "truthy" and y.args[0] is t:
                return b_not(b_and(X, b_not(Y))) if cval(c) else b_not(b_and(X, Y))
            if y.op != "eq" and t in syms(y) and y.op != "truthy":
                v = reatom(y, {t: c})
                if v in (T, F):
                    return b_ite(X, Y if v == T else b_not(Y), T)
            if y.op == "truthy" and t in syms(y) and y.args[0].op == "f":
                v = fold_f(subst(y.args[0], {t: c}))
                if v is not None:
                    return b_ite(X, Y if v else b_not(Y), T)
            if y.op == "isinst" and y.args[0] is t:
                n = _lname(y.args[1])
                if n and n.startswith("builtins."):
                    import builtins

                    cl = getattr(builtins, n[9:], None)
                    if isinstance(cl, type):
                        return b_ite(X, Y if isinstance(cval(c), cl) else b_not(Y), T)
                if cval(c) is None:
                    return b_not(b_and(X, Y))
        if x.op == "isinst" and y.op == "isinst" and x.args[0] is y.args[0]:
            nx, ny = _lname(x.args[1]), _lname(y.args[1])
            if (nx, ny) in LIB_SUB:
                return b_ite(X, Y, T)
            for grp in LIB_DISJOINT:
                if nx in grp and ny in grp and nx != ny:
                    return b_not(b_and(X, Y))
        if x.op == "eq" and y.op in ("truthy", "ge"):
            for t, l in (x.args, x.args[::-1]):
                n = fixed_len(l)
                if n is not None and y.op == "truthy" and y.args[0] is t:
                    return b_or(b_not(X), Y if n else b_not(Y))
                if n is not None and y.op == "ge" and y.args[0] is mk("f", "len", t):
                    return b_or(b_not(X), Y if n >= y.args[1] else b_not(Y))
        if x.op == "lt" and y.op == "lt" and x.args[:2] == y.args[:2] and x.args[2] < y.args[2]:
            return b_or(b_not(X), Y)
        if x.op == "eq" and y.op == "lt" and set(x.args) == set(y.args[:2]):
            return b_or(b_not(X), Y if y.args[2] > 0 else b_not(Y))
        if x.op == "ge" and y.op == "ge" and x.args[0] is y.args[0] and x.args[1] > y.args[1]:
            return b_ite(X, Y, T)
        if x.op == "ge" and y.op == "eq" and y.args[0] is x.args[0] and y.args[1].op == "c":
            c = cval(y.args[1])
            if isinstance(c, int):
                return b_ite(Y, X if c >= x.args[1] else b_not(X), T)
        if x.op == "in" and y.op == "truthy" and y.args[0] is x.args[1]:
            return b_ite(X, Y, T)
        if x.op == "exists" and y.op == "truthy" and y.args[0] is x.args[1]:
            return b_ite(X, Y, T)
        if x.op == "truthy" and x.args[0].op == "f" and x.args[0].args[0] in ("startswith", "endswith"):
            f = x.args[0]
            if y.op == "truthy" and f.args[1] is y.args[0]:
                if f.args[2].op == "c" and cval(f.args[2]):
                    return b_ite(X, Y, T)
            if y.op == "truthy" and y.args[0].op == "f" and y.args[0].args[0] == f.args[0]:
                h = y.args[0]
                if f.args[1] is h.args[1] and f.args[2].op == "c" and h.args[2].op == "c":
                    u, v = cval(f.args[2]), cval(h.args[2])
                    if f.args[0] == "startswith":
                        if u.startswith(v):
                            return b_ite(X, Y, T)
                        if not v.startswith(u):
                            return b_not(b_and(X, Y))
                    else:
                        if u.endswith(v):
                            return b_ite(X, Y, T)
                        if not v.endswith(u):
                            return b_not(b_and(X, Y))
            if y.op == "in" and y.args[1] is f.args[1] and f.args[2].op == "c" and y.args[0].op == "c":
                if cval(y.args[0]) in cval(f.args[2]):
                    return b_ite(X, Y, T)
    return T


def fold_f(t):
    """python truth of a pure string predicate over constants, or None"""
    if t.op == "f" and t.args[0] in BOOL_F and all(x.op == "c" for x in t.args[1:]):
        try:
            return bool(getattr(cval(t.args[1]), t.args[0])(*[cval(x) for x in t.args[2:]]))
        except Exception:
            return None
    return None


def consistent(f, limit=400):
    """conjoin f with the axioms over its atoms; F if f is impossible"""
    sup = sorted(support(f))
    if len(sup) > limit:
        return f
    ats = [ATOMS[v] for v in sup]
    for i in range(len(ats)):
        for j in range(i + 1, len(ats)):
            if not related(ats[i], ats[j]):
                continue
            ax = pair_axiom(ats[i], ats[j])
            if ax != T:
                f = b_and(f, ax)
                if f == F:
                    return F
    # text which is not empty is true
    texts = {a.args[0]: a for a in ats if a.op == "isinst" and _lname(a.args[1]) == "builtins.str"}
    for a in ats:
        if a.op == "eq" and a.args[1] is C(""):
            t = a.args[0]
            tv = mk("truthy", t)
            if (t in texts or is_str_term(t)) and tv in ats:
                g = b_or(atom(a), atom(tv))
                f = b_and(f, b_or(b_not(atom(texts[t])), g) if t in texts else g)
                if f == F:
                    return F
    return f


def related(a, b):
    return bool(roots(a) & roots(b))


_roots = {}


def roots(a):
    r = _roots.get(a)
    if r is None:
        r = frozenset(x for x in syms(a) if x.op not in ("c", "lib", "cls", "bdd"))
        _roots[a] = r
    return r


def strip_match(pattern):
    """the text of a regular expression without redundant anchors, for fullmatch"""
    p = pattern
    if p.startswith("^"):
        p = p[1:]
    if p.endswith("$") and not p.endswith(r"\$"):
        p = p[:-1]
    try:
        re.compile(p)
    except re.error:
        return pattern
    return p
