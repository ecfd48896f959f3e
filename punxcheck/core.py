"""Terms, atoms, BDD guards and gated values: the domain of the analysis.

* Term    hash-consed value term (global value numbering)
* BDD     reduced ordered decision diagrams over canonical atoms: the guards
* GVal    gated value, {term: guard}; the value of a variable at a join

Nothing here runs any code of the analysed program, and no solver is used:
guards are kept canonical by construction, so that comparing two of them is
comparing two node numbers.
"""
import sys

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- terms


class Term:
    __slots__ = ("op", "args", "id", "_syms", "_str")

    def __repr__(self):
        return show(self)


_TAB = {}
_BYID = []


def mk(op, *args):
    k = (op, args)
    t = _TAB.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, len(_BYID)
        t._syms = None
        t._str = None
        _TAB[k] = t
        _BYID.append(t)
    return t


def C(v):
    return mk("c", type(v).__name__, v)


NONE, TRUE_T, FALSE_T = C(None), C(True), C(False)
UNDEF = mk("undef")
CALLS = mk("ns", "calls")


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[1]


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    if t.op == "bdd":
        for v in support(t.args[0]):
            subterms(ATOMS[v], seen)
        return seen
    for a in t.args:
        if isinstance(a, Term):
            subterms(a, seen)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, Term):
                    subterms(b, seen)
    return seen


def syms(t):
    """frozenset of all subterms (cached)"""
    if t._syms is None:
        t._syms = frozenset(subterms(t))
    return t._syms


REBUILD = {}  # op -> function(args) building a canonical term after substitution
REATOM = [None]  # function(atom term) -> bdd, canonicalising


def subst_bdd(f, m, memo=None):
    """substitute inside the atoms of a guard"""
    if f <= 1:
        return f

    def one(a):
        if not any(k in syms(a) for k in m):
            return atom(a)
        return REATOM[0](a, m)

    return map_atoms(f, one, memo)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if not t.args:
        return t
    if t.op == "bdd":
        r = mk("bdd", subst_bdd(t.args[0], m))
        memo[t] = r
        return r
    na = []
    ch = False
    for a in t.args:
        if isinstance(a, Term):
            b = subst(a, m, memo)
        elif isinstance(a, tuple):
            b = tuple(subst(x, m, memo) if isinstance(x, Term) else x for x in a)
        else:
            b = a
        ch = ch or b is not a and b != a
        na.append(b)
    if not ch:
        r = t
    elif t.op in REBUILD:
        r = REBUILD[t.op](*na)
    else:
        r = mk(t.op, *na)
    memo[t] = r
    return r


def show(t, depth=0):
    if isinstance(t, GVal):
        return repr(t)
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if t._str is not None:
        return t._str
    if depth > 9:
        return "…"
    d = depth + 1
    o, a = t.op, t.args
    if o == "c":
        s = repr(a[1])
    elif o == "p":
        s = str(a[0])
    elif o == "a":
        s = "%s.%s" % (show(a[0], d), a[1])
    elif o == "i":
        s = "%s[%s]" % (show(a[0], d), show(a[1], d))
    elif o == "elem":
        s = "each(%s)" % show(a[0], d)
    elif o == "idx":
        s = "index-in(%s)" % show(a[0], d)
    elif o == "cat":
        s = "+".join(show(x, d) for x in a)
    elif o == "f":
        s = "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    elif o in ("fn", "cls", "mod", "lib"):
        s = str(a[0])
    elif o == "bdd":
        s = "[%s]" % show_guard(a[0], 3)
    elif o == "eq":
        s = "%s == %s" % (show(a[0], d), show(a[1], d))
    elif o == "in":
        s = "%s in %s" % (show(a[0], d), show(a[1], d))
    elif o == "truthy":
        s = show(a[0], d)
    elif o == "isinst":
        s = "isinstance(%s, %s)" % (show(a[0], d), show(a[1], d))
    elif o == "ge":
        s = "%s >= %s" % (show(a[0], d), a[1])
    elif o == "exists":
        s = "any(%s for %s)" % (show_guard(a[2].args[0], 3), show(a[1], d))
    elif o == "o":
        s = "obj#%s" % a[0]
        if len(a) > 1:
            s = "%s#%s" % (a[1], a[0])
    else:
        s = "%s(%s)" % (o, ", ".join(show(x, d) for x in a))
    if depth == 0:
        t._str = s
    return s


# ---------------------------------------------------------------- BDDs

F, T = 0, 1
MAX_NODES = 8_000_000


class TooLarge(Exception):
    pass


_node = [(1 << 30, 0, 0), (1 << 30, 1, 1)]
_uniq = {}
_ite_memo = {}
ATOMS = []  # var -> Term
_ATOMVAR = {}


def _mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_node)
        if n > MAX_NODES:
            raise TooLarge("a condition is too large to be decided")
        _node.append(k)
        _uniq[k] = n
    return n


def atom(term):
    v = _ATOMVAR.get(term)
    if v is None:
        v = len(ATOMS)
        ATOMS.append(term)
        _ATOMVAR[term] = v
    return _mk(v, F, T)


def b_ite(f, g, h):
    if f == T:
        return g
    if f == F:
        return h
    if g == h:
        return g
    if g == T and h == F:
        return f
    k = (f, g, h)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    v = min(_node[f][0], _node[g][0], _node[h][0])

    def co(x, b):
        n = _node[x]
        return (n[2] if b else n[1]) if n[0] == v else x

    r = _mk(v, b_ite(co(f, 0), co(g, 0), co(h, 0)), b_ite(co(f, 1), co(g, 1), co(h, 1)))
    _ite_memo[k] = r
    return r


def b_not(f):
    return b_ite(f, F, T)


def b_and(*fs):
    r = T
    for f in fs:
        r = b_ite(r, f, F)
        if r == F:
            return F
    return r


def b_or(*fs):
    r = F
    for f in fs:
        r = b_ite(r, T, f)
        if r == T:
            return T
    return r


def b_xor(f, g):
    return b_ite(f, b_not(g), g)


def b_implies(f, g):
    return b_and(f, b_not(g)) == F


_sup_memo = {}


def support(f):
    """frozenset of atom variables"""
    if f <= 1:
        return frozenset()
    r = _sup_memo.get(f)
    if r is None:
        v, lo, hi = _node[f]
        r = frozenset([v]) | support(lo) | support(hi)
        _sup_memo[f] = r
    return r


def cofactor(f, v, val, memo=None):
    if f <= 1:
        return f
    if memo is None:
        memo = {}
    if f in memo:
        return memo[f]
    n = _node[f]
    if n[0] > v:
        r = f
    elif n[0] == v:
        r = n[2] if val else n[1]
    else:
        r = _mk(n[0], cofactor(n[1], v, val, memo), cofactor(n[2], v, val, memo))
    memo[f] = r
    return r


_res_memo = {}


def simplify(f, care):
    """Coudert-Madre restrict: some function equal to f wherever care holds"""
    if care == F:
        return F
    if care == T or f <= 1:
        return f
    k = (f, care)
    r = _res_memo.get(k)
    if r is not None:
        return r
    vf, vc = _node[f][0], _node[care][0]
    if vc < vf:
        r = simplify(f, b_or(_node[care][1], _node[care][2]))
    else:
        n = _node[f]
        if vc == vf:
            clo, chi = _node[care][1], _node[care][2]
        else:
            clo = chi = care
        if clo == F:
            r = simplify(n[2], chi)
        elif chi == F:
            r = simplify(n[1], clo)
        else:
            r = _mk(vf, simplify(n[1], clo), simplify(n[2], chi))
    _res_memo[k] = r
    return r


def map_atoms(f, fn, memo=None):
    """rebuild f with fn(atomterm) -> bdd"""
    if f <= 1:
        return f
    if memo is None:
        memo = {}
    if f in memo:
        return memo[f]
    v, lo, hi = _node[f]
    r = b_ite(fn(ATOMS[v]), map_atoms(hi, fn, memo), map_atoms(lo, fn, memo))
    memo[f] = r
    return r


def one_sat(f):
    """a satisfying assignment {atom term: bool} of f, or None"""
    if f == F:
        return None
    out = {}
    while f != T:
        v, lo, hi = _node[f]
        if lo != F:
            out[ATOMS[v]] = False
            f = lo
        else:
            out[ATOMS[v]] = True
            f = hi
    return out


def show_guard(f, limit=6):
    """a readable disjunction of cubes"""
    if f == T:
        return "always"
    if f == F:
        return "never"
    cubes = []

    def walk(n, acc):
        if len(cubes) > limit:
            return
        if n == T:
            cubes.append(list(acc))
            return
        if n == F:
            return
        v, lo, hi = _node[n]
        walk(hi, acc + [(ATOMS[v], True)])
        walk(lo, acc + [(ATOMS[v], False)])

    walk(f, [])
    out = []
    for c in cubes[:limit]:
        out.append(" and ".join(("" if p else "not ") + show(a) for a, p in c))
    s = " OR ".join(out)
    if len(cubes) > limit:
        s += " OR …"
    return s


# ---------------------------------------------------------------- gated values


class GVal:
    """{leaf term: guard}; the guards partition True"""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items  # tuple of (term, guard)

    def __repr__(self):
        if len(self.items) == 1:
            return show(self.items[0][0])
        return "{" + "; ".join("%s if %s" % (show(t), show_guard(g, 3)) for t, g in self.items) + "}"

    def leaves(self):
        return [t for t, g in self.items]

    def single(self):
        return self.items[0][0] if len(self.items) == 1 else None

    def guard_of(self, pred):
        return b_or(*[g for t, g in self.items if pred(t)])


_gv_memo = {}


def V(t):
    g = _gv_memo.get(t)
    if g is None:
        g = GVal(((t, T),))
        _gv_memo[t] = g
    return g


def from_dict(d):
    items = [(t, g) for t, g in d.items() if g != F]
    if len(items) == 1:
        return V(items[0][0])
    return GVal(tuple(items))


MAXLEAVES = 40


def collapse(gv):
    if len(gv.items) <= MAXLEAVES:
        return gv
    return V(mk("many", tuple(sorted((t for t, g in gv.items), key=lambda x: x.id))))


def g_ite(c, a, b):
    if c == T or a is b:
        return a
    if c == F:
        return b
    d = {}
    for t, g in a.items:
        d[t] = b_or(d.get(t, F), b_and(g, c))
    nc = b_not(c)
    for t, g in b.items:
        d[t] = b_or(d.get(t, F), b_and(g, nc))
    return collapse(from_dict(d))


def prune(gv, care):
    """drop the leaves which are impossible under care"""
    if len(gv.items) == 1:
        return gv
    items = [(t, g) for t, g in gv.items if b_and(g, care) != F]
    if len(items) == len(gv.items):
        return gv
    if not items:
        return gv
    if len(items) == 1:
        return V(items[0][0])
    # re-complete: give the rest to the last one by simplification
    d = {}
    for t, g in items:
        d[t] = simplify(g, care)
    # the simplified guards may overlap outside of care: make them disjoint
    rem = T
    out = {}
    keys = list(d)
    for t in keys[:-1]:
        g = b_and(d[t], rem)
        out[t] = g
        rem = b_and(rem, b_not(g))
    out[keys[-1]] = rem
    return from_dict(out)


def g_bool(g):
    """gated boolean from a guard"""
    if g == T:
        return V(TRUE_T)
    if g == F:
        return V(FALSE_T)
    return GVal(((TRUE_T, g), (FALSE_T, b_not(g))))


def g_map(fn, *gvs):
    """fn(*leaves) -> Term or GVal, distributed over the leaves"""
    if all(len(x.items) == 1 for x in gvs):
        r = fn(*[x.items[0][0] for x in gvs])
        return V(r) if isinstance(r, Term) else r
    combos = [((), T)]
    for gv in gvs:
        nxt = []
        for ts, g in combos:
            for t, h in gv.items:
                gh = b_and(g, h)
                if gh != F:
                    nxt.append((ts + (t,), gh))
        combos = nxt
        if len(combos) > 400:
            break
    if len(combos) > 400:
        return V(mk("many", tuple(sorted({t for gv in gvs for t in gv.leaves()}, key=lambda x: x.id))))
    d = {}
    for ts, g in combos:
        r = fn(*ts)
        if isinstance(r, Term):
            d[r] = b_or(d.get(r, F), g)
        else:
            for t, h in r.items:
                d[t] = b_or(d.get(t, F), b_and(g, h))
    return collapse(from_dict(d))


def g_subst(gv, m):
    d = {}
    for t, g in gv.items:
        t2, g2 = subst(t, m), subst_bdd(g, m)
        d[t2] = b_or(d.get(t2, F), g2)
    return collapse(from_dict(d))


def g_test(fn, *gvs):
    """fn(*leaves) -> guard"""
    if all(len(x.items) == 1 for x in gvs):
        return fn(*[x.items[0][0] for x in gvs])
    r = F
    combos = [((), T)]
    for gv in gvs:
        combos = [
            (ts + (t,), b_and(g, h))
            for ts, g in combos
            for t, h in gv.items
            if b_and(g, h) != F
        ]
    for ts, g in combos:
        r = b_or(r, b_and(g, fn(*ts)))
    return r
