"""Loading definitions does not depend on what was loaded before (C11)."""
import ast

from ..core import *  # noqa: F401,F403
from ..equiv import *  # noqa: F401,F403
from ..interp import UNDEF
from .nxdl import CM, N, analysis

MODULES = ("punx.nxdl_schema", "punx.nxdl_manager", "punx.schema_manager")
OWN = "changes-own-objects"
OWN_TEXT = (
    "each function that takes part in the loading of definitions changes only objects made by that call and the object it works for (its self or its argument), "
    "never an object made when modules, classes or functions were defined, nor one found in a collection given to it"
)
PER = "containers-per-instance"
PER_TEXT = "a collection attribute which loading changes is made anew by the constructor of each instance"
ONE = "no-shared-instances"
ONE_TEXT = "classes of definitions are not singletons, functions that load them do not return remembered results, and assign no global variables"
COPY = "reference-function"
COPY_TEXT = "the function computed from the source has, for every input, the results, exceptions and effects of the reference function in punxcheck/spec/spec_nxdl.py"


def functions(A):
    P = A.P
    fs = list(P.funcs.values()) if hasattr(P.funcs, "values") else list(P.funcs)
    return [f for f in fs if f.module.name in MODULES and "<" not in f.qual]


def classes(A):
    P = A.P
    cs = list(P.classes.values()) if hasattr(P.classes, "values") else list(P.classes)
    return [c for c in cs if c.module.name in MODULES or c.module.name == "punx.cache_manager" and c.qual == "NXDL_File_Set"]


def own(t, base):
    """the object is the function's own to change"""
    if t.op == "o":
        return t.args[0] > base
    if t.op in ("bag", "p"):
        return True
    if t.op == "f":
        if t.args[0] in ("made", "copy", "inst"):
            return True
        if t.args[0] == "object.__getattribute__":
            return t.args[1].op == "p" or own(t.args[1], base)
        return False
    if t.op == "a":
        # an attribute of the object worked for, or anything of an object made here
        return t.args[0].op == "p" or t.args[0].op != "p" and made_here(t.args[0], base)
    if t.op == "i":
        return made_here(t.args[0], base)
    return False


def made_here(t, base):
    while True:
        if t.op == "o":
            return t.args[0] > base
        if t.op == "bag" or t.op == "f" and t.args[0] == "made":
            return True
        if t.op in ("list", "dict", "set") and t.args and isinstance(t.args[0], tuple):
            # a collection built here: its members
            return bool(t.args[0]) and all(x.op == "seg" and isinstance(x.args[2], Term) and made_here(x.args[2], base) for x in t.args[0])
        if t.op in ("a", "i"):
            t = t.args[0]
        elif t.op == "elem":
            t = t.args[0]
            if not isinstance(t, Term):
                return False
        else:
            return False


class Owned:
    """collections made by the constructor of the instance"""

    def __init__(self, A):
        self.A, self.memo = A, {}

    def part(self, t, cls):
        while t.op in ("a", "i", "elem", "idx"):
            b = t.args[0]
            if not isinstance(b, Term):
                return False
            if t.op == "a" and b.op == "p":
                k = (cls.qual, t.args[1])
                if k not in self.memo:
                    self.memo[k] = b.args[0] == "self" and rebound(self.A, cls, t.args[1])
                return self.memo[k]
            t = b
        return False


CHANGES = ("append", "setitem", "delitem", "clear", "setattr")


def C11(ctx, rep):
    rep.rule(OWN, OWN_TEXT)
    rep.rule(PER, PER_TEXT)
    rep.rule(ONE, ONE_TEXT)
    rep.rule(COPY, COPY_TEXT)
    probe = analysis()
    methods = [(f.module.name + "." + f.qual, f.cls) for f in functions(probe) if f.cls is not None]
    owned = Owned(probe)
    changed, given, single, n = {}, [], [], 0
    runs = []
    for f in functions(probe):
        if f.qual.endswith("__str__"):
            continue
        q = f.module.name + "." + f.qual
        A = analysis(*[m for m, c in methods if m != q and (m.endswith(".__init__") or f.cls is None or c not in probe.I.mro(f.cls))])
        A.I.opaque[CM + "CacheManager.all_file_sets"] = None
        base = A.I.nobj
        r = A.run(q, [A.obj(p, f.cls.qual if i == 0 and f.cls else None) for i, p in enumerate(f.params())])
        rep.analysed(r)
        runs.append((f, A, base, r, {g for e in r.events for g in e.stack}))
    calls = {f.where(): {g.where() for g in fs} for f, A, base, r, fs in runs}
    private = lambda name: name.startswith("_") and not name.startswith("__")  # noqa: E731
    public = set().union(*[calls[f.where()] for f, A, base, r, fs in runs if not private(f.name)])
    for f, A, base, r, fs in runs:
        if private(f.name) and f.where() in public:
            continue  # judged as part of what calls it
        # a function which calls this one again is judged by itself, as this one is
        again = {g for g in fs if g.where() != f.where() and f.where() in calls.get(g.where(), ())}
        seen = set()
        for e in r.events:
            if e.kind not in CHANGES or any(g in again for g in e.stack):
                continue
            t = e.args.get("coll")
            t = e.args["obj"] if t is None else t
            if not isinstance(t, Term) or t is UNDEF:
                continue
            if t.op == "a" and e.kind != "setattr":
                changed.setdefault(t.args[1], e)
            k = (e.kind, t.op == "o" or t, e.where())
            if k in seen:
                continue
            seen.add(k)
            if e.kind == "setattr" and t.op == "inst":
                single.append((e, t, f.qual))
                continue
            n += 1
            ok = own(t, base) or f.cls is not None and owned.part(t, f.cls)
            rep.ob(OWN, "%s: %s at %s" % (f.qual, e.kind, e.where()), ok, e.where(), None if ok else "%s changes %s, which outlives the call" % (f.qual, show(t)[:300]))
            if e.kind == "setattr":
                for x, g in as_gv(e.args["value"]).items:
                    if x.op == "o" and x.args[0] <= base and A.I.content(r.state, x) is not None:
                        given.append((e, show(t), f.qual))
    again = resets(probe)
    for e, t, q in single:
        ok = (show(t.args[0]), e.args["attr"]) in again
        n += 1
        rep.ob(OWN, "%s: %s at %s" % (q, e.kind, e.where()), ok, e.where(), None if ok else "%s changes %s, which outlives the call, and is not reset when the next schema is read" % (q, show(t)))
    for e, t, q in given:
        ok = e.args["attr"] not in changed
        rep.ob(PER, "%s.%s" % (t, e.args["attr"]), ok, e.where(), "%s gives the object a collection made when the program was defined" % q)
    rep.floor("changes", n, 60)
    n = 0
    for c in classes(probe):
        shared = {}
        for k in probe.I.mro(c):
            for name, s in class_attributes(k):
                shared.setdefault(name, (k, s))
        for name, (k, s) in shared.items():
            if name not in changed:
                continue
            n += 1
            rep.ob(PER, "%s.%s" % (c.qual, name), rebound(probe, c, name), "%s:%s:%d" % (k.module.rel(), k.qual, s.lineno),
                   "all instances of %s share the collection %s of the class, changed at %s" % (c.qual, name, changed[name].where()))
        mine = {e.args["attr"] for e, t, q in single if show(t.args[0]) == "%s.%s" % (c.module.name, c.qual)}
        if mine and all(("%s.%s" % (c.module.name, c.qual), a) in again for a in mine) :
            continue
        for k in probe.I.mro(c):
            bad = k.qual in ("Singleton", "_Singleton") or any(kw.arg == "metaclass" for kw in k.node.keywords)
            rep.ob(ONE, "%s: class %s" % (c.qual, k.qual), not bad, "%s:%s:%d" % (c.module.rel(), c.qual, c.node.lineno), "%s has one instance only" % c.qual)
    for f in functions(probe):
        kept = [d for d in f.decorators() if "cache" in (d if isinstance(d, str) else ast.unparse(d)) and f.params()]
        rep.ob(ONE, "%s remembers nothing" % f.qual, not kept, "%s:%d" % (f.where(), f.node.lineno), "results of %s are remembered" % f.qual)
        for s in ast.walk(f.node):
            if isinstance(s, ast.Global):
                rep.ob(ONE, "%s: global" % f.qual, False, "%s:%d" % (f.where(), s.lineno), "%s assigns the global variable %s" % (f.qual, ", ".join(s.names)))
    A = analysis()
    equivalent(A, rep, COPY, N + "NXDL__base.parse_xml_attributes", "spec_nxdl.xml_attributes", [A.obj("item", "NXDL__base"), A.obj("defaults")], (eff_coll, eff_raise))
    A = analysis("punx.schema_manager.SchemaManager.__init__")
    fs = A.obj("file_set", "NXDL_File_Set")
    equivalent(A, rep, COPY, CM + "NXDL_File_Set.__getattribute__", "spec_nxdl.file_set_attribute", [fs, C("schema_manager")], (eff_state, eff_raise))


def resets(A):
    """(class, attribute) set to a constant before anything else when a schema is read"""
    out = set()
    q = "punx.schema_manager.Schema_Root.__init__"
    f = A.I.func_of(A.I.find_func(q))
    skip = [g.module.name + "." + g.qual for g in functions(A) if g.cls is not None and g.qual.endswith(".__init__") and not g.qual.startswith(("Schema_Root.", "_Mixin."))]
    B = analysis(*skip)
    r = B.run(q, [B.obj(p, "Schema_Root" if i == 0 else None) for i, p in enumerate(f.params())])
    for e in sorted(r.events, key=lambda e: e.seq):
        if e.kind == "call" and e.args["func"] in skip:
            break
        if e.kind == "setattr" and e.args["obj"].op == "inst" and e.guard == T and not e.loops and e.args["value"].single() is not None and e.args["value"].single().op == "c":
            out.add((show(e.args["obj"].args[0]), e.args["attr"]))
    return out


MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)


def class_attributes(c):
    for s in c.node.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, MUTABLE):
            for t in s.targets:
                if isinstance(t, ast.Name) and not (isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("split", "join", "format")):
                    yield t.id, s
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.value, MUTABLE) and isinstance(s.target, ast.Name):
            yield s.target.id, s


def rebound(A, c, name):
    f, _ = A.I.find_in_class(c, "__init__")
    if f is None:
        return False
    B = analysis()
    q = c.module.name + "." + c.qual + ".__init__"
    fn = B.I.func_of(f.single()) if hasattr(B.I, "func_of") else None
    self_ = B.obj("self", c.qual)
    qual = fn.module.name + "." + fn.qual
    r = B.run(qual, [self_] + [B.obj(p) for p in fn.params()[1:]])
    v = r.state.m.get(("h", self_, name))
    return v is not None and all(t.op == "o" or t.op == "f" for t, g in v.items)
