"""The analysed program: modules, classes and functions of /repo/punx, resolved.

Only parses; nothing of the analysed program is imported or run.
"""
import ast
import hashlib
import os

REPO = os.environ.get("PUNX_REPO", "/repo")
SKIP_DIRS = {"tests", "ignore_now", "cache", "data", "__pycache__"}
SKIP_FILES = {"_version.py"}


class AnalysisBroken(Exception):
    """an anchor vanished or the source cannot be analysed: not a verdict"""


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.package = name if self.is_pkg else name.rpartition(".")[0]

    def rel(self):
        return os.path.relpath(self.path, REPO)

    def __repr__(self):
        return "<module %s>" % self.name


class Func:
    """a function definition (or lambda) in the program"""

    def __init__(self, fid, module, node, qual, cls=None):
        self.id, self.module, self.node, self.qual, self.cls = fid, module, node, qual, cls
        self.name = getattr(node, "name", "<lambda>")
        self._locals = None
        self._gen = None

    def __repr__(self):
        return "%s.%s" % (self.module.name, self.qual)

    def where(self):
        return "%s:%s" % (self.module.rel(), self.qual)

    def decorators(self):
        return [ast.unparse(d) for d in getattr(self.node, "decorator_list", [])]

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def locals(self):
        if self._locals is None:
            self._locals, self._globals = assigned_names(self.node)
        return self._locals

    def is_generator(self):
        if self._gen is None:
            self._gen = any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(self.node)
            )
        return self._gen


class Class:
    def __init__(self, cid, module, node, qual):
        self.id, self.module, self.node, self.qual = cid, module, node, qual
        self.name = node.name
        self.bases = []  # Terms, filled at evaluation time
        self.attrs = {}  # name -> GVal
        self.inst_types = {}  # attr -> class name, inferred

    def __repr__(self):
        return "%s.%s" % (self.module.name, self.qual)


def walk_scope(node):
    """the nodes of a function/module, without those of nested scopes"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(n, "decorator_list", []):
                stack.append(d)
            stack.extend(n.args.defaults)
            stack.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        if isinstance(n, ast.ClassDef):
            stack.extend(n.bases)
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension targets are local to it, the rest is not
            stack.extend(ast.iter_child_nodes(n))
            continue
        stack.extend(ast.iter_child_nodes(n))


def target_names(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            target_names(e, out)
    elif isinstance(t, ast.Starred):
        target_names(t.value, out)


def assigned_in(stmts):
    """names bound by these statements in their own scope"""
    out = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            continue
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target_names(t, out)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if not (isinstance(n, ast.AnnAssign) and n.value is None):
                target_names(n.target, out)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            target_names(n.target, out)
        elif isinstance(n, ast.NamedExpr):
            target_names(n.target, out)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    target_names(i.optional_vars, out)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                out.add(a.asname or a.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target_names(t, out)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out


def assigned_names(fnode):
    a = fnode.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    body = fnode.body if isinstance(fnode.body, list) else [ast.Expr(fnode.body)]
    names |= assigned_in(body)
    glob = set()
    for n in walk_scope(fnode):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
    return names - glob, glob


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.funcs = []
        self.classes = []
        self.load()

    def load(self):
        root = os.path.join(self.repo, "punx")
        if not os.path.isdir(root):
            raise AnalysisBroken("no package directory: " + root)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
            for f in sorted(files):
                if not f.endswith(".py") or f in SKIP_FILES:
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                name = rel[: -len(".__init__")] if rel.endswith(".__init__") else rel
                self.add_file(name, p)

    def add_file(self, name, path):
        src = open(path, encoding="utf-8", errors="replace").read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as exc:
            raise AnalysisBroken("cannot parse %s: %s" % (path, exc))
        self.modules[name] = Module(name, path, tree, src)
        return self.modules[name]

    def module(self, name):
        """module of that name; '<pkg>.__init__' is a separate module object"""
        if name in self.modules:
            return self.modules[name]
        if name.endswith(".__init__") and name[: -len(".__init__")] in self.modules:
            m = self.modules[name[: -len(".__init__")]]
            n = Module(name, m.path, m.tree, m.src)
            n.is_pkg, n.package = False, m.name
            self.modules[name] = n
            return n
        return None

    def new_func(self, module, node, qual, cls=None):
        f = Func(len(self.funcs), module, node, qual, cls)
        self.funcs.append(f)
        return f

    def new_class(self, module, node, qual):
        c = Class(len(self.classes), module, node, qual)
        self.classes.append(c)
        return c

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]
