"""The findings of the validation of a data file, against the reference behaviour."""
import ast

from .analysis import *  # noqa: F401,F403
from .analysis import Analysis, find_memo
from .compare import *  # noqa: F401,F403
from .compare import rows, setattrs, compare
from .equiv import eff_bags
from .interp import Event, State
from .preds import p_eq, p_in, p_truthy

VALIDATE = "punx.validate.Data_File_Validator.validate"
NON = C("non-NeXus content")


def own_names(f):
    """names a method may use for its own object"""
    return {"self"} | set(f.params()[:1] if f.cls is not None else ())


def call_graph(P):
    """names of functions called by each function (by name), for finding recursion"""
    byname = {}
    for f in P.funcs:
        if not isinstance(f.node, ast.Lambda):
            byname.setdefault(f.node.name, []).append(f)
    g = {}
    for f in P.funcs:
        out, own = set(), own_names(f)
        if not isinstance(f.node, ast.Lambda):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    nm = n.func.id if isinstance(n.func, ast.Name) else None
                    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in own:
                        nm = n.func.attr
                    for k in byname.get(nm, ()):
                        if k.module.name == f.module.name:
                            out.add(k)
        g[f] = out
    return g


def reach(g, f):
    seen, work = set(), list(g.get(f, ()))
    while work:
        x = work.pop()
        if x not in seen:
            seen.add(x)
            work.extend(g.get(x, ()))
    return seen


def recursive_functions(A, module):
    g = call_graph(A.P)
    rec = [f for f in A.P.funcs if f.module.name == module and f in reach(g, f)]
    # of functions which call each other, those that are called from elsewhere
    out = []
    for f in rec:
        mine = {x for x in rec if x in reach(g, f) and f in reach(g, x)}
        if mine == {f} or any(f in to for x, to in g.items() if x not in mine):
            out.append(f)
    return out or rec


def is_member(t):
    """an object h5py returns for a name in a group"""
    if t.op == "i":
        b = t.args[0]
    elif t.op == "f" and t.args[0] == "get":
        b = t.args[1]
    else:
        return False
    return not (b.op == "a" and b.args[1] == "attrs")


def assume(g):
    """facts of the catalog (property C17): classpath of a group, no name finding before the name check"""
    while True:
        n = g
        for v in sorted(support(g)):
            a = ATOMS[v]
            if a.op == "in" and a.args[1].op == "a" and a.args[1].args[1] == "validations":
                n = cofactor(n, v, False)
                break
            if a.op == "hasattr" and a.args[1] is C("name") and is_member(a.args[0]):
                n = cofactor(n, v, True)
                break
        if n == g:
            break
        g = n
    paths = {}
    for v in support(g):
        for x in syms(ATOMS[v]):
            if x.op == "a" and x.args[1] == "classpath":
                paths[x] = 1
    for x in paths:
        o = mk("a", x.args[0], "h5_object")
        grp = atom(mk("isinst", o, mk("lib", "h5py.Group")))
        one = b_or(p_eq(x, C("")), p_eq(x, NON), p_truthy(mk("f", "startswith", x, C("/NX"))))
        g = b_and(g, b_or(b_not(grp), one))
    return g


class Validation:
    def __init__(self):
        self.A = A = Analysis(["spec_validate"])
        self.I = I = A.I
        self.v = A.obj("validator", "Data_File_Validator")
        self.fname = mk("p", "fname")
        rec = recursive_functions(A, "punx.validate")
        if not rec:
            raise AnalysisBroken("no recursive catalog function in punx.validate")
        self.recursive = rec
        self.h5 = []
        self.start = None
        self.fresh = {}

        def opaque(I, st, vals, node):
            self.h5.append((I.getattr_(st, V(self.v), "h5", node), st.pc))
            self.start = len(I.ev)
            for a in ("validations", "addresses", "classpaths"):
                for t in I.getattr_(st, V(self.v), a, node).leaves():
                    c = I.content(st, t) if t.op == "o" else None
                    self.fresh[a].append((t, c is not None and c.base is None and not c.segs))
            return V(NONE)

        for f in rec:
            I.opaque[f.module.name + "." + f.qual] = opaque
        self.r = A.run_memo(VALIDATE, [self.v, self.fname], pre=self.restart)
        if len(self.h5) == 0:
            raise AnalysisBroken("validate() does not build the catalog with " + ", ".join(f.qual for f in rec))
        self.scope = b_or(*[pc for h, pc in self.h5])
        st = State(T, {})
        st.m[("h", self.v, "h5")] = self.h5[-1][0]
        for f in rec:
            I.opaque[f.module.name + "." + f.qual] = True
        self.s = A.run("spec_validate.validate", [self.v], st=st)
        self.code = self.code_rows()
        self.spec = self.spec_rows()
        self.diffs, self.compared = compare(self.code, self.spec, self.scope, assume)
        self.regions = self.find_regions()
        self._tests = None

    def restart(self):
        del self.h5[:]
        self.fresh = {"validations": [], "addresses": [], "classpaths": []}

    def lists_of(self, r):
        """containers that are the validator's list of findings"""
        return {t for e in r.events if e.kind == "setattr" and e.args["obj"] is self.v and e.args["attr"] == "validations" for t in e.args["value"].leaves()}

    @property
    def lists(self):
        return self.lists_of(self.r)

    def code_rows(self):
        sa = setattrs(self.r.events)
        out = []
        for e in self.r.events:
            if e.kind != "append":
                continue
            for t, g in (e.args["value"].items if isinstance(e.args["value"], GVal) else [(e.args["value"], T)]):
                c = self.I.class_of(t)
                if c is None or c.name != "Finding" or t not in sa:
                    continue
                f = sa[t]
                out.append((e, f["test_name"], f["status"], f["h5_address"]))
        self.entries = list(out)
        return rows(out + self.groupings(self.r))

    def groupings(self, r):
        """what is put into collections by which findings are grouped, in the form of findings"""
        return [(e[0], C(e[1]), e[3], e[2], *e[4:]) for e in eff_bags(self.I, r, "")]

    def spec_rows(self):
        rec = self.I.func_of(self.I.find_func("spec_validate.record"))
        out = []
        for e in self.s.events:
            if e.kind == "enter_fn" and e.args["func"] is rec:
                a = e.args["args"]
                out.append((e, a["test"], a["status"], a["address"]))
        return rows(out + self.groupings(self.s))

    def find_regions(self):
        """property -> [(loops, guard)] where the reference behaviour is about that property"""
        out = {}
        for e in self.s.events:
            if e.kind == "enter_fn":
                n = e.args["func"].qual
                if n[:1] == "C" and n[1:3].isdigit():
                    out.setdefault(n[:3], []).append((tuple((l.t, l.e) for l in e.loops), e.guard))
        return out

    def spec_props(self, row):
        out = set()
        for e in row.events:
            for f in e.stack:
                if f.qual[:1] == "C" and f.qual[1:3].isdigit():
                    out.add(f.qual[:3])
        return out

    def test_props(self, test):
        """properties whose reference behaviour records findings of this test"""
        if self._tests is None:
            self._tests = {}
            for r in self.spec:
                self._tests.setdefault(label(r.fields[0]), set()).update(self.spec_props(r))
        return self._tests.get(label(test), set())

    def props(self, d):
        """the properties a difference belongs to"""
        out = set()
        for r in d.spec:
            out |= self.spec_props(r)
        loops = tuple((t, e) for t, e, s in d.loops)
        near = set()
        for p, l in self.regions.items():
            for lp, g in l:
                if loops[: len(lp)] == lp and b_and(g, d.guard) != F and consistent(b_and(g, d.guard)) != F:
                    near.add(p)
        tests = set()
        for r in d.code + d.spec:
            tests |= self.test_props(r.fields[0])
        whole = {"C27", "C28"}
        out |= (near & tests) or tests or (near - whole)
        if not out:
            out = {"C18"}
        if d.kind in ("missing", "stop"):
            out.add("C18")
        return out


def label(t):
    """constant beginning of a test name"""
    if t.op == "cat" and t.args[0].op == "c":
        return t.args[0]
    return t
