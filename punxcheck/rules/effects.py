"""Inspecting changes nothing (C01)."""
import ast

from ..core import *  # noqa: F401,F403
from ..interp import helper
from ..preds import consistent
from ..program import AnalysisBroken
from ..sweep import sweep
from ..writes import DIRECTORIES, writes

RULE = "no-write"
TEXT = (
    "no function which a command other than the installation (or the classes behind it: validator, tree views, cache manager, schemas) may reach through any call, "
    "and no module when it is loaded, creates, changes, renames or removes a file, opens an HDF5 file in another mode than 'r' or starts a program; "
    "only the directory of punx's own settings may be created"
)
MAIN = "punx.main"
INSTALL = "func_install"
# what users of the package (and the commands) inspect files with
CLASSES = {
    "punx.validate": ("Data_File_Validator", "ValidationItem"), "punx.h5tree": None, "punx.nxdltree": None, "punx.finding": None, "punx.utils": None,
    "punx.nxdl_manager": None, "punx.nxdl_schema": None, "punx.schema_manager": None,
    "punx.cache_manager": ("NXDL_File_Set", "SourceCache", "UserCache", "Base_Cache"),
}
LISTING = ("__init__", "select_NXDL_file_set", "all_file_sets", "table_of_caches")  # of the cache manager


class Graph:
    """which functions a function may call, by what it mentions"""

    def __init__(self, P):
        self.P = P
        self.functions, self.methods, self.classes = {}, {}, {}
        self.of_class = {}
        for f in P.funcs:
            if isinstance(f.node, ast.Lambda) or "." in f.qual.replace(f.cls.name + "." if f.cls else "", "", 1):
                continue  # nested: part of the function it is in
            (self.methods if f.cls else self.functions).setdefault(f.name, []).append(f)
            if f.cls:
                self.of_class.setdefault(f.cls.name, []).append(f)
        self.aliases = {}
        for m in P.modules.values():
            self.aliases[m.name] = self.imported(m)

    def imported(self, m):
        """names of modules, and other names for what was imported"""
        mods, names = set(), {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    mods.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    mods.add(a.asname or a.name)
                    if a.asname:
                        names.setdefault(a.asname, set()).add(a.name)
        return mods, names

    def mentions(self, module, node):
        """the functions mentioned in this part of the source"""
        mods, names = self.aliases[module.name]
        out = {}

        def add(n, *tables):
            for name in names.get(n.id, set()) | {n.id} if isinstance(n, ast.Name) else {n.attr}:
                for t in tables:
                    for f in t.get(name, ()):
                        out.setdefault(f, n)
                for f in self.of_class.get(name, ()):
                    if f.name.startswith("__"):
                        out.setdefault(f, n)

        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                add(n, self.functions)
            elif isinstance(n, ast.Attribute):
                b = n.value
                while isinstance(b, ast.Attribute):
                    b = b.value
                if isinstance(b, ast.Name) and b.id in mods:
                    add(n, self.functions, self.methods)
                else:
                    add(n, self.methods)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "attrgetter", "methodcaller"):
                for a in n.args:
                    if isinstance(a, ast.Constant) and isinstance(a.value, str):
                        for f in self.methods.get(a.value, []) + self.functions.get(a.value, []):
                            out.setdefault(f, n)
        return out

    def reach(self, roots, cut):
        """the functions which may be called from these, each with the way to it"""
        way, todo = {}, []
        for f, via in roots:
            if f not in way:
                way[f] = [via]
                todo.append(f)
        while todo:
            f = todo.pop()
            for g in self.mentions(f.module, f.node):
                if g not in way and not cut(g):
                    way[g] = way[f] + [f]
                    todo.append(g)
        return way


def own_settings(path):
    """the directory of the settings file of a cache"""
    for t in path.leaves() if isinstance(path, GVal) else (path,):
        while t.op == "f" and t.args[0] in ("path", "dirname", "abspath", "str") and len(t.args) == 2 or t.op == "a" and t.args[1] == "parent":
            t = t.args[1] if t.op == "f" else t.args[0]
        if t.op == "f" and t.args[0].startswith("call:"):
            if t.args[0].rpartition(".")[2] in ("path", "fileName"):
                continue
        if t.op == "m" or t.op == "f" and t.args[0] == "fileName":
            if any(x.op == "a" and x.args[1] == "qsettings" or x.op == "f" and "QSettings" in str(x.args[0]) for x in syms(t)):
                continue
        return False
    return True


def harmful(r):
    for w in writes(r):
        if w.verb == "change of HDF5 attributes":
            continue  # the files are open read-only
        if consistent(w.event.guard) == F:
            continue
        if w.verb in DIRECTORIES and w.paths and all(own_settings(p) for p in w.paths):
            continue
        yield w


def C01(ctx, rep):
    rep.rule(RULE, TEXT)
    A, runs = ctx.get("sweep", sweep)
    G = Graph(A.P)
    bad = {}
    for f, r in runs:
        rep.analysed(r)
        bad[f] = list(harmful(r))
    install = [f for f in G.functions.get(INSTALL, ()) if f.module.name == MAIN]
    if len(install) != 1:
        raise AnalysisBroken("anchor vanished: " + MAIN + "." + INSTALL)
    called = {n.func.id if isinstance(n.func, ast.Name) else n.func.attr for m in A.P.modules.values() for n in ast.walk(m.tree)
              if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))}
    mentioned = {g for t in (G.functions, G.methods) for l in t.values() for f in l for g in G.mentions(f.module, f.node) if g is not f}
    roots = []
    for f in [g for t in (G.functions, G.methods) for l in t.values() for g in l]:
        m = f.module.name
        if m == MAIN:
            # the installation is what is chosen on the command line; what else calls it is not
            if f is not install[0] and (f.name == "main" or f.name.startswith("func_") or f.cls):
                roots.append((f, "the command line"))
        elif m.startswith("punx.validations") or m in CLASSES and (CLASSES[m] is None or f.cls is not None and f.cls.name in CLASSES[m]):
            if f.name != "cleanup" and not (f.name.startswith("_") and not f.name.startswith("__") and f in mentioned):
                roots.append((f, m))  # (what is private to the package, and called in it, is reached through its callers)
        elif f.cls is not None and f.cls.name == "CacheManager" and f.name in LISTING:
            roots.append((f, m))
    cut = lambda g: g is install[0] and INSTALL not in called  # noqa: E731
    for m in A.P.modules.values():
        if not m.name.startswith("spec_"):
            top = ast.Module(body=[s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))], type_ignores=[])
            roots += [(g, "loading " + m.name) for g in G.mentions(m, top) if isinstance(g, object) and not cut(g) and loaded(top, g)]
    way = G.reach(roots, cut)
    followed = {g for f, r in runs for e in r.events for g in e.stack if g is not f}
    for f, r in runs:
        if f in way and not (helper(f) and f in followed):
            w = bad[f]
            rep.ob(RULE, f.where(), not w, w[0].event.where() if w else None,
                   "%s; reached through %s" % ("; ".join(x.text() for x in w[:4]), " > ".join(str(x) for x in way[f])) if w else None)
    for m, evs in sorted(A.I.modev.items()):
        w = list(harmful(Loaded(evs)))
        rep.ob(RULE, "module " + m, not w, w[0].event.where() if w else None, "; ".join(x.text() for x in w[:4]))
    rep.floor("functions reached", len(way), 150)
    rep.floor("writing functions which are not reached", len([f for f in bad if bad[f] and f not in way]), 2)


class Loaded:
    def __init__(self, events):
        self.events = events


def loaded(top, f):
    """is the function called (or handed over) while the module is loaded?"""
    for n in ast.walk(top):
        if isinstance(n, ast.Call):
            for x in [n.func] + n.args + [k.value for k in n.keywords]:
                if isinstance(x, ast.Name) and x.id in (f.name, f.cls.name if f.cls else None) or isinstance(x, ast.Attribute) and x.attr in (f.name, f.cls.name if f.cls else None):
                    return True
    return False
