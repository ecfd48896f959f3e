"""Interprocedural gated value-flow analysis of Python source.

The program is evaluated once over symbolic inputs.  A value is a set of terms
with mutually exclusive guards; both branches of a condition are analysed and
joined; a loop over an unknown collection is analysed once for one symbolic
element, and what the loop leaves behind (a flag, a count, a collection, an
early exit) is put in closed form.  Every call to a function of the program is
followed.  The result is a table of guarded events (findings recorded, files
touched, exceptions that escape, ...), which the rules query.
"""
import ast
import builtins as _bi

from .core import *  # noqa: F401,F403
from .core import g_subst, subst_bdd
from .preds import *  # noqa: F401,F403
from .preds import FILLED, idx, cat, elem, p_truthy, p_eq, p_in, p_ge, p_lt, p_exists, strip_seq, is_str_term
from .program import AnalysisBroken, assigned_in, target_names

MAXDEPTH = 40
MANY = 16
SELF_T = mk("self")


class State:
    __slots__ = ("pc", "m")

    def __init__(self, pc=T, m=None):
        self.pc, self.m = pc, {} if m is None else m

    def copy(self, pc=None):
        return State(self.pc if pc is None else pc, dict(self.m))


class Seg:
    __slots__ = ("loops", "key", "val", "guard")

    def __init__(self, loops, key, val, guard):
        self.loops, self.key, self.val, self.guard = loops, key, val, guard


class Content:
    __slots__ = ("kind", "segs", "base", "loops", "pc")

    def __init__(self, kind, segs=(), base=None, loops=(), pc=T):
        self.kind, self.segs, self.base, self.loops, self.pc = kind, segs, base, loops, pc

    def with_segs(self, segs):
        return Content(self.kind, segs, self.base, self.loops, self.pc)


class LoopCtx:
    __slots__ = ("t", "e", "stop", "node")

    def __init__(self, t, e, node=None):
        self.t, self.e, self.stop, self.node = t, e, F, node

    def key(self):
        return (self.t, self.e, self.stop)

    def __repr__(self):
        return "for each %s" % show(self.t)


class Event:
    __slots__ = ("kind", "guard", "loops", "args", "node", "stack", "seq", "module", "tries")

    def __repr__(self):
        return "%s %s @%s" % (self.kind, {k: show(v) if isinstance(v, (Term, GVal)) else v for k, v in self.args.items()}, self.where())

    def where(self):
        f = self.stack[-1].where() if self.stack else (self.module.rel() if self.module else "?")
        return "%s:%s" % (f, getattr(self.node, "lineno", "?"))

    def path(self):
        return " -> ".join(f.qual for f in self.stack)


class Frame:
    __slots__ = ("fid", "func", "module", "locals", "returns", "ctl", "yields", "closure", "cls", "loopdepth")

    def __init__(self, fid, func, module, locals_, closure=None):
        self.fid, self.func, self.module, self.locals = fid, func, module, locals_
        self.returns, self.ctl, self.yields, self.closure, self.cls = [], [], None, closure, None


class LoopCtl:
    __slots__ = ("breaks", "continues")

    def __init__(self):
        self.breaks, self.continues = [], []


class TryScope:
    __slots__ = ("handlers", "caught")

    def __init__(self, handlers):
        self.handlers, self.caught = handlers, []


LIB_EXC = {  # library exception -> bases (dotted or builtin)
    "requests.exceptions.ConnectionError": ["requests.exceptions.RequestException"],
    "requests.exceptions.Timeout": ["requests.exceptions.RequestException"],
    "requests.exceptions.ConnectTimeout": ["requests.exceptions.ConnectionError", "requests.exceptions.Timeout"],
    "requests.exceptions.ProxyError": ["requests.exceptions.ConnectionError"],
    "requests.exceptions.SSLError": ["requests.exceptions.ConnectionError"],
    "requests.exceptions.ReadTimeout": ["requests.exceptions.Timeout"],
    "requests.exceptions.ChunkedEncodingError": ["requests.exceptions.RequestException"],
    "requests.exceptions.HTTPError": ["requests.exceptions.RequestException"],
    "requests.exceptions.RequestException": ["builtins.OSError"],
    "lxml.etree.LxmlError": ["builtins.Exception"],
    "lxml.etree.LxmlSyntaxError": ["lxml.etree.LxmlError", "builtins.SyntaxError"],
    "lxml.etree.ParseError": ["lxml.etree.LxmlSyntaxError"],
    "lxml.etree.XMLSyntaxError": ["lxml.etree.ParseError"],
    "lxml.etree.DocumentInvalid": ["lxml.etree.LxmlError"],
    "lxml.etree.XMLSchemaParseError": ["lxml.etree.LxmlError"],
    "lxml.etree.XSLTParseError": ["lxml.etree.LxmlError"],
    "zipfile.BadZipFile": ["builtins.Exception"],
    "json.JSONDecodeError": ["builtins.ValueError"],
    "re.error": ["builtins.Exception"],
}
LIB_ALIAS = {
    "h5py._hl.files.File": "h5py.File",
    "h5py._hl.group.Group": "h5py.Group",
    "h5py._hl.dataset.Dataset": "h5py.Dataset",
    "h5py._hl.group.HardLink": "h5py.HardLink",
    "h5py._hl.group.SoftLink": "h5py.SoftLink",
    "h5py._hl.group.ExternalLink": "h5py.ExternalLink",
    "requests.ConnectionError": "requests.exceptions.ConnectionError",
    "requests.RequestException": "requests.exceptions.RequestException",
    "requests.Timeout": "requests.exceptions.Timeout",
    "requests.HTTPError": "requests.exceptions.HTTPError",
    "requests.ConnectTimeout": "requests.exceptions.ConnectTimeout",
    "requests.ReadTimeout": "requests.exceptions.ReadTimeout",
    "builtins.IOError": "builtins.OSError",
    "builtins.EnvironmentError": "builtins.OSError",
    "numpy.str_": "builtins.str",
    "json.decoder.JSONDecodeError": "json.JSONDecodeError",
    "collections.abc.Mapping": "builtins.dict",
    "typing.Dict": "builtins.dict",
}


def lib(name):
    return mk("lib", LIB_ALIAS.get(name, name))


def helper(f):
    """part of what calls it: a function for use in its module only"""
    return f.name.startswith("_") and not f.name.startswith("__") and f.name not in ("_",)


def steps_one(x, v):
    """v += 1, or v = v + 1"""
    if isinstance(x, ast.AugAssign):
        return isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and x.target.id == v and isinstance(x.value, ast.Constant) and x.value.value == 1
    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == v and isinstance(x.value, ast.BinOp):
        b = x.value
        for y, z in ((b.left, b.right), (b.right, b.left)):
            if isinstance(b.op, ast.Add) and isinstance(y, ast.Name) and y.id == v and isinstance(z, ast.Constant) and z.value == 1:
                return True
    return False


def grows(body, limit):
    """may the statements change the length of what the limit is about?"""
    ns = {n.id for n in ast.walk(limit) if isinstance(n, ast.Name) and n.id != "len"}
    for x in body:
        for n in ast.walk(x):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "popleft", "appendleft"):
                if any(isinstance(m, ast.Name) and m.id in ns for m in ast.walk(n.func.value)):
                    return True
            elif isinstance(n, ast.Delete):
                if any(isinstance(m, ast.Name) and m.id in ns for m in ast.walk(n)):
                    return True
    return False


def leaf_order(x):
    t = strip_seq(x[0])
    return (0, t.args[0], "") if t.op == "o" else (1, 0, show(t))


def last_of_key(s):
    """what a loop stores under one key again and again is there once"""
    if not s.loops or s.key is None:
        return T
    out = T
    for k, g in s.key.items:
        es = [l.e for l in s.loops]
        if not all(tells(k, e) for e in es):
            out = b_and(out, b_or(b_not(g), atom(mk("lastkey", k, tuple(es)))))
    return out


def tells(k, e):
    """different members have different keys"""
    if k is e or k is mk("idx", e):
        return True
    if k.op in ("list", "fmt", "cat"):
        return any(tells(x, e) for x in subparts(k))
    if k.op == "f" and k.args[0] in ("str", "decode", "decode_byte_string", "call:punx.utils.decode_byte_string"):
        return any(isinstance(x, Term) and tells(x, e) for x in k.args[1:])
    return False


def subparts(k):
    out, todo = [], list(k.args)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, Term):
            if x.op == "seg":
                todo.extend(x.args)
            else:
                out.append(x)
    return out


class Interp:
    def __init__(self, program, types=None, quiet=False):
        from . import lib as L

        self.P = program
        self.L = L
        self.ev = []
        self.quiet = 0
        self.loops = []
        self.stack = []
        self.frames = []
        self.tries = []
        self.base_m = {}
        self.nobj = 0
        self.nfid = 0
        self.closures = {}
        self.defaults = {}
        self.partials = {}
        self.modstate = {}
        self.clsterms = {}
        self.clsof = {}
        self.opaque = {}  # qualified name -> handler or True
        self.prims = {}
        self.splitting = set()  # library calls whose exceptions are told apart even where nothing handles them
        self.types = types or {}
        self.bagged = {}
        self.growing, self.reads = [], []
        self.ptypes = {}
        self.otypes = {}
        self.labels = {}
        self.unresolved = {}
        self.rec = []  # recursive calls seen
        self.memos = {}
        self.positions = {}  # of the members of a list
        self.searching = 0
        self.stats = {"calls": 0, "branches": 0, "loops": 0, "funcs": set(), "stmts": 0}
        self.force_rec = set()
        self.entered = {}
        self.factories = {}
        self.copies = {}
        self.on_libcall = None
        self.record_sortkey = None
        self.memo = None
        self.shallow = False  # follow only the function analysed

    # ------------------------------------------------------------ state

    def get(self, st, k):
        v = st.m.get(k)
        if v is None:
            v = self.base_m.get(k)
        return v

    def record(self, kind, st, node=None, guard=None, **args):
        g = st.pc if guard is None else guard
        if g == F:
            return None
        e = Event()
        e.kind, e.guard, e.loops, e.args, e.node = kind, g, tuple(self.loops), args, node
        e.stack, e.seq = tuple(self.stack), len(self.ev)
        e.module = self.frames[-1].module if self.frames else None
        e.tries = tuple(self.tries)
        self.ev.append(e)
        return e

    def heap_default(self, k):
        if k[0] == "h":
            t, a = k[1], k[2]
            if t is CALLS:
                return V(C(0))
            if t.op == "o":
                v = self.class_attr(t, a)
                return v if v is not None else V(UNDEF)
            return V(mk("a", t, a))
        return V(UNDEF)

    def merge(self, st, children):
        live = [c for c in children if c.pc != F]
        if not live:
            st.pc = F
            if children:
                st.m = children[0].m
            return st
        if len(live) == 1:
            st.m, st.pc = live[0].m, live[0].pc
            return st
        total = b_or(*[c.pc for c in live])
        conds = [simplify(c.pc, total) for c in live]
        ms = [c.m for c in live]
        m0 = ms[0]
        out = dict(m0)
        for mi in ms[1:]:
            for k in mi:
                if k not in out:
                    out[k] = None
        n = len(ms)
        for k in out:
            vals = [m.get(k) for m in ms]
            v0 = vals[0]
            for v in vals:
                if v is not v0:
                    break
            else:
                continue
            if k[0] == "c":
                out[k] = self.merge_content(k, vals, conds)
                continue
            if k[0] == "n":
                out[k] = V(C(True))
                continue
            if k[0] == "h" and k[1].op == "o" and any(v is None and ("n", k[1]) not in m for v, m in zip(vals, ms)) and any(("n", k[1]) in m for m in ms):
                # made on some of the paths only: the others know nothing of it
                known = [(m.get(k), c) for m, c in zip(ms, conds) if ("n", k[1]) in m]
                d = self.heap_default(k)
                r = known[-1][0] or d
                for v, c in known[-2::-1]:
                    r = g_ite(c, v or d, r)
                out[k] = r
                continue
            if any(v is None for v in vals):
                d = self.base_m.get(k)
                if d is None:
                    d = self.heap_default(k)
                vals = [d if v is None else v for v in vals]
            r = vals[-1]
            for i in range(n - 2, -1, -1):
                r = g_ite(conds[i], vals[i], r)
            out[k] = r
        st.m, st.pc = out, total
        return st

    def merge_content(self, k, vals, conds):
        vals = [self.base_m.get(k) if v is None else v for v in vals]
        pres = [(v, c) for v, c in zip(vals, conds) if v is not None]
        if len(pres) < len(vals) and k[1].op != "o":
            # a symbolic container modified on some of the paths only
            pres = [(v if v is not None else Content(pres[0][0].kind, (), k[1]), c) for v, c in zip(vals, conds)]
        first = pres[0][0]
        if all(v is first for v, c in pres):
            return first
        # common prefix
        n = 0
        while all(len(v.segs) > n and v.segs[n] is first.segs[n] for v, c in pres):
            n += 1
        segs = list(first.segs[:n])
        for v, c in pres:
            for s in v.segs[n:]:
                segs.append(Seg(s.loops, s.key, s.val, b_and(s.guard, c)))
        base = None
        for v, c in pres:
            base = base or v.base
        return Content(first.kind, tuple(segs), base, first.loops, first.pc)

    # ------------------------------------------------------------ objects

    def new_obj(self, st, label, node=None):
        self.nobj += 1
        return mk("o", self.nobj, label)

    def new_container(self, st, kind, segs=()):
        o = self.new_obj(st, kind)
        st.m[("c", o)] = Content(kind, tuple(segs), None, tuple(self.loops), st.pc)
        return o

    def mk_list(self, st, vals, kind="list"):
        return self.new_container(st, kind, [Seg((), None, v, T) for v in vals])

    def content(self, st, t):
        return self.get(st, ("c", t))

    def is_container(self, t):
        return t.op == "o" and t.args[1] in ("list", "dict", "set", "tuple")

    def busy(self, c, t, read=True):
        """does the content come (also) from iterations of a loop which is running?"""
        if t in self.growing:
            return True
        for s in c.segs:
            for l in s.loops:
                if l in self.loops:
                    return True
        if read and t.op == "o":
            self.reads.append(t)
        return False

    def seg_exists(self, seg, g):
        g = b_and(seg.guard, g)
        for l in reversed(seg.loops):
            g = p_exists(l.t, l.e, g)
        return g

    def bag(self, st, o, c=None):
        """a term standing for the content of container o"""
        c = c or self.content(st, o)
        if c is None:
            return o
        if c.base is not None and not c.segs:
            return c.base
        return self.reify(st, o)

    def reify(self, st, t, depth=0, under=T):
        """structural, allocation-independent term for a value (used where `under` holds)"""
        if isinstance(t, GVal):
            if len(t.items) == 1:
                return self.reify(st, t.items[0][0], depth, under)
            return mk("gv", tuple(mk("g", self.reify(st, x, depth, under), mk("bdd", g)) for x, g in sorted(t.items, key=lambda y: y[0].id)))
        if t.op == "o":
            if t in self.copies:
                s = self.copies[t]
                extra = [mk("fld", k[2], self.reify(st, st.m[k], depth + 2, under)) for k in sorted((k for k in st.m if k[0] == "h" and k[1] is t), key=lambda k: k[2])]
                return mk("f", "copy", s, *extra)
            c = self.content(st, t)
            if c is not None and depth < 4:
                segs = []
                for s in c.segs:
                    segs.append(
                        mk(
                            "seg",
                            tuple(mk("for", l.t, l.e, mk("bdd", l.stop)) for l in s.loops),
                            self.reify(st, s.key, depth + 1, under) if s.key is not None else NONE,
                            self.reify(st, s.val, depth + 1, under),
                            mk("bdd", simplify(s.guard, b_and(c.pc, under)) if b_and(c.pc, under) != F else s.guard),
                        )
                    )
                if c.kind == "set":
                    segs.sort(key=lambda s: s.id)
                elif c.kind == "dict":
                    # a later entry replaces one of the same key
                    for i in range(len(segs)):
                        while i and segs[i].id < segs[i - 1].id and p_eq(segs[i].args[1], segs[i - 1].args[1]) == F:
                            segs[i - 1 : i + 1] = segs[i], segs[i - 1]
                            i -= 1
                if c.base is not None:
                    segs.insert(0, c.base)
                return mk("list" if c.kind == "tuple" else c.kind, tuple(segs))
            cls = self.class_of(t)
            if cls is not None and depth < 3:
                fields = []
                for k in sorted((k for k in st.m if k[0] == "h" and k[1] is t), key=lambda k: k[2]):
                    fields.append(mk("fld", k[2], subst(self.reify(st, st.m[k], depth + 2, under), {t: SELF_T})))
                if ("n", t) in self.base_m:  # made when its module was loaded: there is one
                    return mk("new", t, tuple(fields)) if fields else t
                return mk("new", self.clsterm(cls), tuple(fields))
        return t

    # ------------------------------------------------------------ classes and types

    def clsterm(self, c):
        return mk("cls", repr(c))

    def class_by_term(self, t):
        return self.clsof.get(t)

    def class_of(self, t):
        """Class of an instance term, or None"""
        r = self.otypes.get(t)
        if r is not None:
            return r
        d = self.type_of(t)
        if d is not None and d[0] == "obj":
            return self.find_class(d[1])
        return None

    def find_class(self, name):
        r = self._clsname.get(name) if hasattr(self, "_clsname") else None
        if r is None:
            self._clsname = {}
            for c in self.P.classes:
                self._clsname.setdefault(c.name, c)
            r = self._clsname.get(name)
        return r

    def mro(self, c, seen=None):
        out = [c]
        for b in c.bases:
            bc = self.clsof.get(b)
            if bc is not None:
                for x in self.mro(bc):
                    if x not in out:
                        out.append(x)
        return out

    def find_in_class(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k.attrs[name], k
        return None, None

    def class_attr(self, t, name):
        c = self.class_of(t)
        if c is None:
            return None
        v, _ = self.find_in_class(c, name)
        return v

    def type_of(self, t):
        """('obj', classname) | ('dict'|'list', elemtype) | None"""
        d = self.ptypes.get(t)
        if d is not None:
            return d
        if t in self.otypes:
            return ("obj", self.otypes[t].name)
        o = t.op
        if o in ("firstel", "lastel"):
            return self.type_of(t.args[1])
        if o == "inst":
            return ("obj", t.args[0].args[0].rpartition(".")[2])
        if o == "a":
            bt = self.type_of(t.args[0])
            if bt is not None and bt[0] == "obj":
                d = self.types.get((bt[1], t.args[1]))
                if d is not None:
                    return d
                c = self.find_class(bt[1])
                if c is not None:
                    for k in self.mro(c):
                        n = k.inst_types.get(t.args[1])
                        if n:
                            return ("obj", n)
                        d = self.types.get((k.name, t.args[1]))
                        if d is not None:
                            return d
            if bt is None:
                return self.types.get((None, t.args[1]))
            return None
        if o in ("i", "elem", "firstel", "lastel"):
            b = t.args[0]
            b = strip_seq(b)
            if b.op == "f" and b.args[0] == "values":
                b = b.args[1]
                d = self.type_of(b)
                return d[1] if d is not None and d[0] == "dict" else None
            d = self.type_of(b)
            if d is None:
                return None
            if o == "i" and d[0] in ("dict", "list"):
                return d[1]
            if o != "i" and d[0] == "list":
                return d[1]
            return None
        if o == "f" and t.args[0] in ("copy", "first", "last") and len(t.args) > 1 and isinstance(t.args[1], Term):
            return self.type_of(t.args[1])
        if o == "carry":
            return self.ptypes.get(t)
        if o in ("list", "dict"):
            for s in t.args[0]:
                if s.op == "seg":
                    v = s.args[2]
                    d = self.type_of(v)
                    if d:
                        return (o, d)
        return None

    def infer_inst_types(self):
        """self.x = Cls(...) in the methods of a class gives the type of x"""
        for c in self.P.classes:
            for f in c.node.body:
                if not isinstance(f, ast.FunctionDef) or not f.args.args:
                    continue
                me = f.args.args[0].arg
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        cn = n.value.func
                        nm = cn.id if isinstance(cn, ast.Name) else cn.attr if isinstance(cn, ast.Attribute) else None
                        if nm and any(k.name == nm for k in self.P.classes):
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                    c.inst_types[t.attr] = nm

    def outside_stores(self):
        """names of attributes which are set on other objects than self"""
        if getattr(self, "_outside", None) is None:
            self._outside = {
                n.attr
                for m in self.P.modules.values()
                if not m.name.startswith("spec_")
                for n in ast.walk(m.tree)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"))
            }
        return self._outside

    def assigned_instance_attrs(self, c):
        r = getattr(c, "_ia", None)
        if r is None:
            r = set(self.outside_stores())
            inherit = [k for k in self.P.classes if k is not c and not k.module.name.startswith("spec_") and c in self.mro(k)]
            for k in inherit:  # which the object may be an instance of
                for n in k.node.body:
                    for x in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []:
                        target_names(x, r)
            for k in self.mro(c) + inherit:
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        r.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__":
                        r.add("*")
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                        r.add("*")
            if getattr(self, "loaded", False):
                c._ia = r
        return r

    # ------------------------------------------------------------ modules

    def import_module(self, name):
        """term for the module of that dotted name"""
        m = self.P.module(name)
        if m is None:
            return lib(name)
        t = mk("mod", name)
        if name not in self.modstate:
            self.modstate[name] = "running"
            self.exec_module(m)
            self.modstate[name] = "done"
        return t

    def exec_module(self, m):
        saved = (self.ev, self.loops, self.stack, self.frames, self.tries)
        self.ev, self.loops, self.stack, self.frames, self.tries = [], [], [], [], []
        fr = Frame(("M", m.name), None, m, None)
        st = State(T, {})
        self.frames.append(fr)
        # a module's own names are visible to functions called while it loads
        st.m = _ModDict(self.base_m)
        st.m[("v", fr.fid, "__name__")] = V(C(m.name))
        st.m[("v", fr.fid, "__file__")] = V(mk("p", "__file__(" + m.name + ")"))
        st.m[("v", fr.fid, "__doc__")] = V(C(ast.get_docstring(m.tree) or ""))
        self.exec_block(m.tree.body, st, fr)
        for k, v in st.m.items():
            self.base_m[k] = v
        self.modev = getattr(self, "modev", {})
        self.modev[m.name] = self.ev
        self.ev, self.loops, self.stack, self.frames, self.tries = saved

    def load_all(self):
        for n in sorted(self.P.modules):
            if not n.startswith("spec_"):
                self.import_module(n)
        self.loaded = True
        self.infer_inst_types()

    def mod_var(self, modname, name):
        return self.base_m.get(("v", ("M", modname), name))

    # ------------------------------------------------------------ helpers

    def has_subclass(self, cls):
        """a class of the program is derived from it"""
        t = self.clsterm(cls)
        return any(k is not t and cls in self.mro(c) for k, c in self.clsof.items() if k.op == "cls")

    def per_leaf(self, st, gv, fn):
        """fn(state, leaf) -> GVal, with the state split by leaf"""
        gv = prune(gv, st.pc)
        if len(gv.items) == 1:
            return fn(st, gv.items[0][0])
        kids, vals = [], []
        # one of them: in the same order however the choice is written
        for t, g in sorted(gv.items, key=leaf_order):
            pc = b_and(st.pc, g)
            if pc == F:
                continue
            c = State(pc, dict(st.m))
            v = fn(c, t)
            kids.append(c)
            vals.append(v)
        if not kids:
            return V(UNDEF)
        return self.merge_vals(st, kids, vals)

    def merge_vals(self, st, kids, vals):
        """merge the states and the values computed in them"""
        live = [(c, v) for c, v in zip(kids, vals) if c.pc != F]
        if not live:
            st.pc = F
            st.m = kids[0].m if kids else st.m
            return vals[0] if vals else V(UNDEF)
        if len(live) == 1:
            st.m, st.pc = live[0][0].m, live[0][0].pc
            return live[0][1]
        for c, v in live:
            c.m[("v", "tmp", "")] = v
        self.merge(st, [c for c, v in live])
        return st.m.pop(("v", "tmp", ""))

    def branch(self, st, cond, then, other):
        """run then(state)/other(state) under cond; both may be None"""
        self.stats["branches"] += 1
        p1 = b_and(st.pc, cond)
        p2 = b_and(st.pc, b_not(cond))
        if p1 != F and consistent_cached(p1) == F:
            p1 = F
        if p2 != F and consistent_cached(p2) == F:
            p2 = F
        if p1 == F:
            st.pc = p2
            if other:
                other(st)
            return
        if p2 == F:
            st.pc = p1
            if then:
                then(st)
            return
        a = State(p1, dict(st.m))
        b = State(p2, st.m)
        if then:
            then(a)
        if other:
            b.m = dict(b.m)
            other(b)
        self.merge(st, [a, b])

    def truth(self, st, gv):
        return g_test(lambda t: self.truth_leaf(st, t), gv)

    def truth_leaf(self, st, t):
        if t.op == "o":
            c = self.content(st, t)
            if c is not None:
                if self.busy(c, t):
                    return atom(mk("truthy", self.bag_of(t)))
                g = F
                if c.base is not None:
                    g = p_truthy(c.base)
                for s in c.segs:
                    g = b_or(g, self.seg_exists(s, T))
                return g
            cls = self.class_of(t)
            if cls is not None:
                v, _ = self.find_in_class(cls, "__bool__")
                w, _ = self.find_in_class(cls, "__len__")
                if v is not None or w is not None:
                    return atom(mk("truthy", t))
            return T
        if t.op in ("inst",):
            return T
        c = self.content(st, t)
        if c is not None and c.segs:
            return b_or(p_truthy(t), *[self.seg_exists(s, T) for s in c.segs])
        return p_truthy(t)

    def bag_of(self, t, key=None):
        """a term for what a collection holds while loops add to it"""
        b = mk("bag", t.args[1] if t.op == "o" else t, self.loopkey() if key is None else key)
        self.bagged.setdefault(t, set()).add(b)
        return b

    def loopkey(self):
        return tuple(mk("for", l.t, l.e) for l in self.loops)

    def eq(self, st, a, b):
        """guard a == b for terms"""
        ca = self.content(st, a) if a.op == "o" else None
        cb = self.content(st, b) if b.op == "o" else None
        if ca is not None and cb is not None and a is not b:
            if ca.kind == cb.kind and ca.base is None and cb.base is None:
                if all(s.guard == T and not s.loops for s in ca.segs + cb.segs) and ca.kind in ("list", "tuple"):
                    if len(ca.segs) != len(cb.segs):
                        return F
                    g = T
                    for x, y in zip(ca.segs, cb.segs):
                        g = b_and(g, g_test(lambda p, q: self.eq(st, p, q), x.val, y.val))
                    return g
            ra, rb = self.reify(st, a), self.reify(st, b)
            return p_eq(ra, rb)
        for c, x, y in ((ca, a, b), (cb, b, a)):
            if c is not None and y.op == "c":
                if cval(y) is None or isinstance(cval(y), (str, int, float, bool, bytes)):
                    return F
            elif c is not None:
                if y.op in ("fn", "cls", "mod", "lib", "cat"):
                    return F
                r = self.reify(st, x)
                return p_eq(r, y)
        return p_eq(a, b)

    def contains(self, st, x, t):
        """guard x in t for terms"""
        c = self.content(st, t)
        if t.op == "f" and t.args[0] == "keys":
            return self.contains(st, x, t.args[1])
        t = strip_seq(t)
        if c is None and t.op == "o":
            c = self.content(st, t)
        if c is None:
            if t.op == "f" and t.args[0] == "values" and t.args[1].op == "o":
                c = self.content(st, t.args[1])
                if c is not None:
                    return b_or(*[self.seg_exists(s, g_test(lambda p: self.eq(st, x, p), s.val)) for s in c.segs])
            return p_in(x, t)
        if self.busy(c, t) and t.op == "o":
            return atom(mk("in", x, self.bag_of(t)))
        if t.op == "o" and len(c.segs) > MANY:
            # nothing is said about the members of a large collection
            return atom(mk("in", x, self.bag_of(t, ("many", len(c.segs)))))
        g = F
        if c.base is not None:
            g = p_in(x, c.base)
        for s in c.segs:
            item = s.key if c.kind == "dict" else s.val
            g = b_or(g, self.seg_exists(s, g_test(lambda p: self.eq(st, x, p), item)))
        return g

    def subscript(self, st, t, k, node=None):
        """value of t[k] for terms (container or symbolic); -> GVal, found-guard"""
        c = self.content(st, t)
        if k.op == "idx" and isinstance(k.args[0], Term) and not (c is not None and (c.kind == "dict" or t.op == "o" and self.busy(c, t))):
            # the one that the loop, which counts, is at
            loops, self.loops = self.loops, [l for l in self.loops if l.e is not k.args[0]]
            ps = self.pieces(st, t)
            self.loops = loops
            if len(ps) == 1 and len(ps[0][0]) == 1 and ps[0][0][0].e is k.args[0] and ps[0][0][0].stop == F and ps[0][2] == T:
                return ps[0][1], T
        if k.op == "f" and k.args[0] == "position" and self.positions.get(k) is not None:
            segs, val = self.positions[k]
            if k.args[1] is t and segs is (c.segs if c is not None else None) or k.args[1].op == "list" and k.args[1] is self.reify(st, t):
                return val, T
        if c is None:
            if t.op == "f" and t.args[0] in ("list", "sorted") and k.op == "idx":
                t2 = strip_seq(t)
                return V(idx(t2, k)), T
            if t.op == "list":
                ps = self.seg_pieces(t) if k.op == "c" and isinstance(cval(k), int) and all(y.op == "seg" for y in t.args[0]) else [((1,), None, F)]
                if all(not l and g == T for l, v, g in ps) and -len(ps) <= cval(k) < len(ps):
                    return ps[cval(k)][1], T
                return V(mk("i", t, k)), T
            return V(idx(t, k)), T
        if c.kind == "dict":
            same = [x for x in c.segs if x.key is not None and x.key.single() is k]
            if len(same) == 1 and same[0].loops and not self.busy(c, t, False):
                # the value stored with the key that the loop is at
                x = same[0]
                if all(any(l.t is y.t and l.e is y.e for y in self.loops) for l in x.loops) and b_and(st.pc, b_not(b_and(x.guard, last_of_key(x)))) == F:
                    return x.val, T
            if self.busy(c, t, False) and t.op == "o":
                # stored in this round of the loop
                last = c.segs[-1] if c.segs else None
                if last is not None and last.key.single() is k and all(l in self.loops for l in last.loops) and b_and(st.pc, b_not(last.guard)) == F:
                    return last.val, T
                b = self.bag_of(t)
                self.ptypes.setdefault(b, self.type_of(self.reify(st, t)) or ("dict", None))
                return V(idx(b, k)), p_in(k, b)
            out, found = None, F
            rest = []
            for s in reversed(c.segs):
                if s.loops:
                    # key(e) == k for the element e
                    g = g_test(lambda p: self.eq(st, p, k), s.key)
                    l = s.loops[-1]
                    if len(s.loops) == 1 and s.key.single() is l.e:
                        hit = b_and(p_in(k, l.t), subst_bdd(s.guard, {l.e: k}))
                        val = g_subst(s.val, {l.e: k})
                    else:
                        hit = self.seg_exists(s, g)
                        f = mk("firstel", l.t, l.e, mk("bdd", b_and(s.guard, g)))
                        val = g_subst(s.val, {l.e: f})
                else:
                    hit = b_and(s.guard, g_test(lambda p: self.eq(st, p, k), s.key))
                    val = s.val
                rest.append((hit, val))
            if c.base is not None:
                out = V(idx(c.base, k))
                found = p_in(k, c.base)
            for hit, val in reversed(rest):
                found = b_or(found, hit)
                out = val if out is None else g_ite(hit, val, out)
            if out is None:
                out = V(UNDEF)
            elif found != T and c.base is None:
                # absent: KeyError, the value does not matter
                pass
            return out, found
        # list / tuple
        if k.op == "c" and isinstance(cval(k), int) and c.base is None:
            if all(s.guard == T and not s.loops for s in c.segs):
                try:
                    return c.segs[cval(k)].val, T
                except IndexError:
                    return V(UNDEF), F
            n = cval(k)
            pre = c.segs[: n + 1] if n >= 0 else c.segs[n:]
            if len(pre) == abs(n) + (1 if n >= 0 else 0) and all(s.guard == T and not s.loops for s in pre):
                return c.segs[n].val, T
            if n == 0 and len(c.segs) == 1 and len(c.segs[0].loops) == 1:
                s = c.segs[0]
                l = s.loops[0]
                fe = mk("firstel", l.t, l.e, mk("bdd", s.guard))
                d = self.type_of(l.e)
                if d:
                    self.ptypes.setdefault(fe, d)
                return g_subst(s.val, {l.e: fe}), T
        if c.base is not None and not c.segs:
            return V(idx(c.base, k)), T
        r = self.reify(st, t)
        return V(mk("i", r, k)), T

    # ------------------------------------------------------------ iteration

    def pieces(self, st, t):
        """how to iterate over t: [(loops, value GVal, guard)]"""
        c = self.content(st, t)
        if c is not None and not (t.op == "o" and self.busy(c, t)):
            out = []
            if c.base is not None:
                out.extend(self.sym_pieces(st, c.base))
            for s in c.segs:
                if c.kind == "dict":
                    out.append((s.loops, s.key, b_and(s.guard, last_of_key(s))))
                else:
                    out.append((s.loops, s.val, s.guard))
            return out
        if c is not None:
            return self.sym_pieces(st, self.bag_of(t))
        if t.op == "c":
            v = cval(t)
            if isinstance(v, (str, bytes)) and len(v) <= 64:
                return [((), V(C(v[i : i + 1])), T) for i in range(len(v))]
            return []
        if t.op == "f":
            n = t.args[0]
            if n in ("list", "sorted", "tuple", "set", "reversed", "keys", "iter", "frozenset"):
                x = t.args[1]
                if x.op == "list" and all(y.op == "seg" for y in x.args[0]):
                    return self.seg_pieces(x)
                return self.pieces(st, x)
            if n in ("items", "values"):
                d = strip_seq(t.args[1])
                c = self.content(st, d)
                if c is not None and not (d.op == "o" and self.busy(c, d)):
                    out = []
                    if c.base is not None:
                        out.extend(self.sym_pieces(st, mk("f", n, c.base)))
                    for s in c.segs:
                        g = b_and(s.guard, last_of_key(s))
                        if n == "values":
                            out.append((s.loops, s.val, g))
                        else:
                            out.append((s.loops, V(self.mk_list(st, [s.key, s.val], "tuple")), g))
                    return out
                if c is not None:
                    d = self.bag_of(d)
                return self.sym_pieces(st, mk("f", n, d))
            if n == "enumerate":
                inner = self.pieces(st, t.args[1])
                start = t.args[2] if len(t.args) > 2 else C(0)
                if all(not l and g == T for l, v, g in inner) and start.op == "c":
                    return [
                        ((), V(self.mk_list(st, [V(C(i + cval(start))), v], "tuple")), T)
                        for i, (l, v, g) in enumerate(inner)
                    ]
                out = []
                for l, v, g in inner:
                    e = l[-1].e if l else mk("f", "enumpos", t)
                    i = mk("idx", e)
                    if start is not C(0):
                        i = mk("f", "add", i, start)
                    out.append((l, V(self.mk_list(st, [V(i), v], "tuple")), g))
                return out
            if n == "range":
                a = t.args[1:]
                if all(x.op == "c" for x in a):
                    try:
                        r = list(range(*[cval(x) for x in a]))
                    except Exception:
                        r = None
                    if r is not None and len(r) <= 16:
                        return [((), V(C(i)), T) for i in r]
                elif len(a) == 1 and a[0].op == "f" and a[0].args[0] == "len":
                    x = a[0].args[1]
                    inner = self.seg_pieces(x) if x.op == "list" and all(y.op == "seg" for y in x.args[0]) else self.pieces(st, x)
                    if len(inner) == 1 and inner[0][0]:
                        return [(inner[0][0], V(mk("idx", inner[0][0][-1].e)), inner[0][2])]
                    # where each part of the list is in it
                    x, out = a[0].args[1], []
                    c = self.content(st, x)
                    for j, (l, v, g) in enumerate(inner):
                        k = mk("f", "position", x, C(j), *[y.e for y in l])
                        self.positions[k] = (c.segs if c is not None else None, v)
                        out.append((l, V(k), g))
                    return out
        if t.op == "firsts":
            pass
        return self.sym_pieces(st, t)

    def depth_of(self, t):
        return sum(1 for l in self.loops if l.t is t)

    def grouped(self, bag):
        """is each list that was put into the dictionary followed by an item put into it?"""
        slots, items = {}, {}
        for e in self.ev:
            b = e.args.get("base")
            if e.kind not in ("slot", "append") or not isinstance(b, Term) or b.op != "i" or b.args[0] is not bag:
                continue
            d = slots if e.kind == "slot" else items
            d[b] = b_or(d.get(b, F), e.guard)
        return bool(slots) and all(b_and(g, b_not(items.get(b, F))) == F for b, g in slots.items())

    def seg_pieces(self, t):
        """the pieces of a list of which the content is known, when it is put in order"""
        out = []
        for s in t.args[0]:
            loops = []
            for f in s.args[0]:
                l = LoopCtx(f.args[0], f.args[1])
                l.stop = f.args[2].args[0]
                loops.append(l)
            v = s.args[2]
            v = from_dict({g.args[0]: g.args[1].args[0] for g in v.args[0]}) if v.op == "gv" else V(v)
            out.append((tuple(loops), v, s.args[3].args[0]))
        return out

    def sym_pieces(self, st, t):
        base = t
        if t.op == "f" and t.args[0] in ("items", "values"):
            base = strip_seq(t.args[1])
            e = elem(base, self.depth_of(base))
            v = V(mk("i", base, e))
            if base.op == "bag" and self.grouped(base):
                FILLED.add(mk("i", base, e))
            if t.args[0] == "items":
                v = V(self.mk_list(st, [V(e), v], "tuple"))
            return [((LoopCtx(base, e),), v, T)]
        base = strip_seq(t)
        if base.op == "list" or base.op == "dict":
            pass
        e = elem(base, self.depth_of(base))
        if base.op == "bag" and self.grouped(base):
            FILLED.add(mk("i", base, e))
        return [((LoopCtx(base, e),), V(e), T)]

    def iterate(self, st, gv, body, fr, assigned=(), node=None, ctl=None):
        """run body(state, value) for every element of gv"""

        def leaf(s, t):
            if from_file(t):
                self.record("iterop", s, node, value=t)
            for loops, val, g in self.pieces(s, t):
                if s.pc == F:
                    break
                self.run_piece(s, loops, val, g, body, fr, assigned, node, ctl)
            return V(NONE)

        self.per_leaf(st, gv, leaf)

    def run_piece(self, st, loops, val, g, body, fr, assigned, node, ctl):
        if not loops:
            if g == T:
                body(st, val)
            else:
                self.branch(st, g, lambda s: body(s, val), None)
            return
        l, rest = loops[0], loops[1:]
        t, e = l.t, l.e
        # the same element symbol must not be in use already
        sub = None
        if any(x.t is t and x.e is e for x in self.loops):
            e2 = elem(t, self.depth_of(t)) if e.op == "elem" else mk("elem", t, self.depth_of(t) + 100)
            sub = {e: e2}
            e = e2
        if sub:
            val = g_subst(val, sub)
            g = subst_bdd(g, sub)
            rest = tuple(self.sub_loop(x, sub) for x in rest)

        def inner(s):
            self.run_piece(s, rest, val, g, body, fr, assigned, node, ctl)

        seq = t
        if l.stop != F:
            # elements up to the one that stopped the loop which built this
            if b_and(st.pc, p_exists(t, l.e, l.stop)) != F:
                seq = mk("upto", t, l.e, mk("bdd", l.stop))
        self.sym_loop(st, seq, e, inner, fr, assigned, node, ctl)

    def sub_loop(self, l, m):
        n = LoopCtx(subst(l.t, m), subst(l.e, m), l.node)
        n.stop = subst_bdd(l.stop, m)
        return n

    def exit_lists(self, fr, ctl):
        out = []
        if ctl is not None:
            out.append(ctl.breaks)
        out.append(fr.returns)
        for f in self.frames[:-1]:
            if f is not fr:
                out.append(f.returns)
        for s in self.tries:
            out.append(s.caught)
        return out

    def sym_loop(self, st, t, e, body, fr, assigned, node, ctl):
        self.stats["loops"] += 1
        entry_m, entry_pc = st.m, st.pc
        carry = {}
        for n in assigned:
            v = entry_m.get(("v", fr.fid, n))
            o = v.single() if v is not None else None
            if o is not None and o.op == "o" and self.is_container(o):
                continue  # stays the same collection, unless found to be replaced
            carry[("v", fr.fid, n)] = mk("carry", t, e, n)
        lists = self.exit_lists(fr, ctl)
        base_marks = [len(x) for x in lists]
        ev_mark = len(self.ev)
        named = False
        grown = set()
        read_mark, growing_mark = len(self.reads), len(self.growing)
        for attempt in range(9):
            lc = LoopCtx(t, e, node)
            self.loops.append(lc)
            b = State(entry_pc, dict(entry_m))
            for k, ct in carry.items():
                b.m[k] = V(ct)
                init = entry_m.get(k) or self.base_m.get(k)
                if init is not None and init.single() is not None:
                    d = self.type_of(init.single())
                    if d:
                        self.ptypes.setdefault(ct, d)
            # an iteration happens only when there is an element
            tr = p_truthy(t)
            if tr not in (T, F):
                b.pc = b_and(b.pc, tr) if False else b.pc
            self.growing.extend(grown)
            body(b)
            del self.growing[growing_mark:]
            self.loops.pop()
            mod = []
            if b.pc != F and attempt < 6:
                # what is read before it is added to may have been added by an earlier iteration
                new = set()
                for o in set(self.reads[read_mark:]) - grown:
                    w = entry_m.get(("c", o))
                    x = b.m.get(("c", o))
                    if w is not None and x is not w and x is not None and len(x.segs) > len(w.segs):
                        new.add(o)
                if new:
                    grown |= new
                    del self.ev[ev_mark:]
                    for x, n in zip(lists, base_marks):
                        del x[n:]
                    continue
            for k, v in entry_m.items():
                if k[0] in "vh" and k not in carry and k[1] != "tmp":
                    w = b.m.get(k)
                    if w is not v and (w is None or w.items != v.items) and b.pc != F:
                        mod.append(k)
            for k, w in b.m.items():
                if k[0] == "h" and k not in entry_m and k not in carry and k[1].op != "o" and b.pc != F:
                    # attribute of something that existed before, set in the loop
                    if e not in syms(k[1]):
                        mod.append(k)
                if k[0] == "v" and k not in entry_m and k not in carry and k[1] != "tmp" and b.pc != F:
                    if any(f.fid == k[1] for f in self.frames) or k[1] in self.closures or (isinstance(k[1], tuple)):
                        mod.append(k)
            if not mod or attempt >= 5:
                # carried values are named for what is done with them, not for the variable
                new = self.carry_names(carry, entry_m, b, t, e, ev_mark, lists, base_marks) if not named else None
                if not new:
                    break
                named = True
                carry.update(new)
            # roll back and start again with these carried
            for k in mod:
                carry[k] = mk("carry", t, e, k[2] if k[0] == "v" else mk("at", k[1], k[2]))
            del self.ev[ev_mark:]
            for x, n in zip(lists, base_marks):
                del x[n:]
        # ---- exits taken inside the body
        exits = []
        for x, n in zip(lists, base_marks):
            for i in range(n, len(x)):
                exits.append((x, i))
        S = F
        for x, i in exits:
            S = b_or(S, simplify(x[i][0].pc, entry_pc))
        lc.stop = S
        anystop = b_and(entry_pc, p_exists(t, e, S)) if S != F else F
        tr = p_truthy(t)
        # ---- closed forms of what is carried
        care = b_and(b.pc, b_not(S))
        closed = {}
        if b.pc != F:
            for k, ct in carry.items():
                end = b.m.get(k)
                init = entry_m.get(k) or self.base_m.get(k) or (self.heap_default(k) if k[0] == "h" else V(UNDEF))
                if end is None:
                    end = V(UNDEF)
                end = prune(end, care) if care != F else end
                closed[k] = self.closed_form(k, init, end, ct, carry, t, e, simplify_care(care, entry_pc), tr, st)
        normal = State(F, {})
        npc = b_and(entry_pc, b_not(anystop)) if S != F else entry_pc
        if b.pc == F and S != F:
            # no iteration can be completed
            normal.m = dict(entry_m)
        elif b.pc == F:
            normal.m = dict(entry_m)
            # every iteration ends the program: only an empty collection goes on
            npc = b_and(entry_pc, b_not(tr)) if not exits else npc
        else:
            normal.m = dict(b.m)
            for k, v in closed.items():
                normal.m[k] = v
        normal.pc = npc
        # ---- transform the exits
        for x, i in exits:
            ent = x[i]
            s = ent[0]
            rel = simplify(s.pc, entry_pc)
            fe = mk("firstel", t, e, mk("bdd", S))
            d = self.type_of(e)
            if d:
                self.ptypes.setdefault(fe, d)
            sub = {e: fe}
            for k, ct in carry.items():
                cv = closed.get(k)
                if cv is None:
                    cv = entry_m.get(k)
                if cv is not None and cv.single() is not None:
                    sub[ct] = cv.single()
            which = T if rel == S else subst_bdd(simplify(rel, S), sub)
            pc = b_and(anystop, which)
            s2 = State(pc, {})
            for k, v in s.m.items():
                if k[0] == "c":
                    s2.m[k] = v
                    continue
                o = entry_m.get(k)
                if o is v:
                    s2.m[k] = v
                    continue
                ct = carry.get(k)
                if ct is not None and v.single() is ct:
                    s2.m[k] = closed.get(k) or o or V(UNDEF)
                    if closed.get(k) is None and o is None:
                        del s2.m[k]
                    continue
                v2 = prune(v, s.pc)
                s2.m[k] = self.sub_val(v2, sub, carry, closed, entry_m)
            rest = tuple(self.sub_val(prune(y, s.pc), sub, carry, closed, entry_m) if isinstance(y, GVal) else y for y in ent[1:])
            x[i] = (s2,) + rest
        st.m, st.pc = normal.m, normal.pc

    def carry_names(self, carry, entry_m, b, t, e, ev_mark, lists, base_marks):
        cts = set(carry.values())
        used = set()

        def look(x):
            if isinstance(x, GVal):
                for y, g in x.items:
                    look(y)
                    lookg(g)
            elif isinstance(x, Term):
                if x.op == "carry":
                    used.add(x)
                used.update(cts & syms(x))
            elif isinstance(x, dict):
                for y in x.values():
                    look(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    look(y)

        def lookg(g):
            for v in support(g):
                used.update(cts & syms(ATOMS[v]))

        for ev in self.ev[ev_mark:]:
            lookg(ev.guard)
            if ev.kind not in ("enter_fn", "leave_fn"):
                look(ev.args)
        for x, n in zip(lists, base_marks):
            for ent in x[n:]:
                lookg(ent[0].pc)
                look(ent[1:])
        out = {}
        hole, other = mk("hole", 0), mk("hole", 1)
        for k, ct in carry.items():
            if ct not in used:
                continue
            end = b.m.get(k)
            if end is None or end.single() is ct:
                continue
            end = prune(end, b.pc) if b.pc != F else end
            m = {c: (hole if c is ct else other) for c in cts}
            init = entry_m.get(k) or self.base_m.get(k) or V(UNDEF)
            sig = mk("step", self.gkey(init), self.gkey(g_subst(end, m)))
            out[k] = mk("carry", t, e, sig)
        return out

    def sub_val(self, v, sub, carry, closed, entry_m):
        # carried values with several leaves are distributed
        out = g_subst(v, sub)
        for k, ct in carry.items():
            if any(ct in syms(t) for t, g in out.items):
                cv = closed.get(k) or entry_m.get(k)
                if cv is not None and cv.single() is None:
                    d = {}
                    for t, g in out.items:
                        if ct in syms(t):
                            for t2, g2 in cv.items:
                                x = subst(t, {ct: t2})
                                d[x] = b_or(d.get(x, F), b_and(g, g2))
                        else:
                            d[t] = b_or(d.get(t, F), g)
                    out = from_dict(d)
        return out

    def closed_form(self, k, init, end, ct, carry, t, e, care, tr, st=None):
        """value after the loop of something assigned in it"""
        if end.single() is ct:
            return init
        carries = set(carry.values())

        def uses(x):
            return any(c in syms(x) for c in carries)

        def guse(g):
            return any(uses(ATOMS[v]) for v in support(g))

        # boolean or-/and- accumulation: guards depend on the truth of the carried value
        tv = atom(mk("truthy", ct))
        if init.single() is not None and init.single().op == "c":
            iv = cval(init.single())
            vnum = [v for v in range(0)]
            dep = [g for x, g in end.items if any(ATOMS[v] is mk("truthy", ct) for v in support(g))]
            if dep and isinstance(iv, bool):
                var = next(v for g in dep for v in support(g) if ATOMS[v] is mk("truthy", ct))
                same = {x: cofactor(g, var, iv) for x, g in end.items}
                other = {x: cofactor(g, var, not iv) for x, g in end.items}
                o = [x for x, g in other.items() if g != F]
                if o in ([C(not iv)], [ct]) and not any(guse(g) for g in same.values()):
                    flip = b_or(*[g for x, g in same.items() if x is C(not iv)])
                    keep = [x for x, g in same.items() if g != F and x not in (C(not iv), C(iv), ct)]
                    if not keep:
                        ex = p_exists(t, e, flip)
                        return g_ite(ex, V(C(not iv)), init)
        gc = F
        leaves = []
        for x, g in end.items:
            if x is ct:
                gc = b_or(gc, g)
            else:
                leaves.append((x, g))
        if any(guse(g) for x, g in end.items):
            leaves2 = self.chosen(ct, leaves, carries)
            if leaves2 is not None:
                leaves = leaves2
        if any(guse(g) for x, g in leaves):
            return V(mk("fold", t, e, self.gkey(end), self.gkey(init)))
        if not any(uses(x) for x, g in leaves):
            A = b_not(gc)
            if len(leaves) == 1 and e not in syms(leaves[0][0]):
                return g_ite(p_exists(t, e, A), V(leaves[0][0]), init)
            le = mk("lastel", t, e, mk("bdd", A))
            d = self.type_of(e)
            if d:
                self.ptypes.setdefault(le, d)
            rest = from_dict({x: simplify(g, A) for x, g in leaves}) if leaves else init
            # make the guards partition
            rem, dd = T, {}
            for i, (x, g) in enumerate(leaves):
                gg = rem if i == len(leaves) - 1 else b_and(simplify(g, A), rem)
                rem = b_and(rem, b_not(gg))
                dd[x] = gg
            rest = from_dict(dd)
            return g_ite(p_exists(t, e, A), g_subst(rest, {e: le}), init)
        # accumulators
        deltas, op = [], None
        for x, g in leaves:
            if x.op == "f" and x.args[0] in ("add", "max", "min") and not uses(x.args[2]) and x.args[1] is ct:
                o, d = x.args[0], x.args[2]
            elif x.op == "f" and x.args[0] in ("add", "max", "min") and not uses(x.args[1]) and x.args[2] is ct:
                o, d = x.args[0], x.args[1]
            elif x.op == "f" and x.args[0] == "add" and ct in syms(x.args[1]) and not uses(x.args[2]):
                # carry + a + b
                inner = x.args[1]
                if inner.op == "f" and inner.args[0] == "add" and inner.args[1] is ct and not uses(inner.args[2]):
                    o, d = "add", mk("f", "add", inner.args[2], x.args[2])
                else:
                    o = None
            elif x.op == "cat" and x.args[0] is ct and not any(uses(y) for y in x.args[1:]):
                o, d = "add", cat(*x.args[1:])
            else:
                o = None
            if o is None or (op is not None and op != o):
                op = None
                deltas = None
                break
            op = o
            deltas.append((d, g))
        if deltas:
            key = tuple(mk("g", d, mk("bdd", simplify(g, care) if care != F else g)) for d, g in sorted(deltas, key=lambda y: y[0].id))
            acc = mk("f", "sum" if op == "add" else op + "imum", t, e, key)
            if st is not None and op != "add":
                init = g_map(lambda i: self.reify(st, i) if self.is_container(i) else i, init)
            return g_map(lambda i: self.arith(op, i, acc) if i is not UNDEF else UNDEF, init)
        return V(mk("fold", t, e, self.gkey(end), self.gkey(init)))

    def chosen(self, ct, leaves, carries):
        """`if x > best: best = x` is the maximum of the two"""
        out = {}
        for x, g in leaves:
            use = [v for v in support(g) if any(c in syms(ATOMS[v]) for c in carries)]
            if not use:
                out[x] = b_or(out.get(x, F), g)
                continue
            if len(use) != 1 or any(c in syms(x) for c in carries):
                return None
            yes, no = cofactor(g, use[0], True), cofactor(g, use[0], False)
            if yes != F and no != F:
                return None
            rest = yes if no == F else no
            one = atom(ATOMS[use[0]])
            one = one if no == F else b_not(one)
            if g != b_and(rest, one):
                return None
            if one in (p_lt(ct, x), b_not(p_lt(x, ct))):
                op = "max"
            elif one in (p_lt(x, ct), b_not(p_lt(ct, x))):
                op = "min"
            else:
                return None
            out[self.arith(op, ct, x)] = rest
        return list(out.items())

    def arith(self, op, a, b):
        if op == "add":
            if a is C(0):
                return b
            return mk("f", "add", a, b)
        x, y = sorted((a, b), key=lambda z: z.id)
        return mk("f", op, x, y)

    def gkey(self, gv):
        if gv.single() is not None:
            return gv.single()
        return mk("gv", tuple(mk("g", x, mk("bdd", g)) for x, g in sorted(gv.items, key=lambda y: y[0].id)))

    # ------------------------------------------------------------ exceptions

    def exc_bases(self, t):
        """all class names of an exception class term"""
        out = []
        c = self.clsof.get(t)
        if c is not None:
            for k in self.mro(c):
                out.append(self.clsterm(k))
                for b in k.bases:
                    if b.op == "lib":
                        out.extend(self.exc_bases(b))
            return out
        if t.op == "lib":
            n = LIB_ALIAS.get(t.args[0], t.args[0])
            out.append(mk("lib", n))
            if n in LIB_EXC:
                for b in LIB_EXC[n]:
                    out.extend(self.exc_bases(mk("lib", b)))
            elif n.startswith("builtins."):
                cl = getattr(_bi, n[9:], None)
                if isinstance(cl, type) and issubclass(cl, BaseException):
                    for k in cl.__mro__:
                        out.append(lib("builtins." + k.__name__))
            else:
                out.append(lib("builtins.Exception"))
                out.append(lib("builtins.BaseException"))
        return out

    def find_handler(self, cls):
        bases = set(self.exc_bases(cls))
        for sc in reversed(self.tries):
            for i, hs in enumerate(sc.handlers):
                if hs is None or any(h in bases for h in hs):
                    return sc, i
        return None, None

    def do_raise(self, st, cls, exc, node, explicit=True):
        if st.pc == F:
            return
        sc, i = self.find_handler(cls)
        if sc is None:
            self.record("escape", st, node, cls=cls, exc=exc)
        else:
            self.record("raise", st, node, cls=cls, exc=exc, caught=True)
            sc.caught.append((State(st.pc, dict(st.m)), exc, i))
        st.pc = F

    def may_raise(self, st, classes, term, node, what):
        """library operation which can raise one of these"""
        if st.pc == F:
            return
        done = set()
        for name in classes:
            cls = lib(name) if isinstance(name, str) else name
            sc, i = self.find_handler(cls)
            if sc is None:
                self.record("libescape", st, node, cls=cls, what=what, term=term)
                if what in self.splitting:
                    a = atom(mk("raises", term, C(cls.args[0])))
                    x = State(b_and(st.pc, a), st.m)
                    if x.pc != F:
                        self.record("escape", x, node, cls=cls, exc=V(mk("exc", cls, term)))
                    st.pc = b_and(st.pc, b_not(a))
                continue
            if (id(sc), i) in done:
                continue
            done.add((id(sc), i))
            if what == "subscript" and cls.args[0] == "builtins.KeyError":
                a = b_not(p_in(term.args[1], term.args[0])) if term.op == "i" else atom(mk("raises", term, C("KeyError")))
            else:
                a = atom(mk("raises", term, C(cls.args[0])))
            pc = b_and(st.pc, a)
            if pc != F:
                exc = V(mk("exc", cls, term))
                sc.caught.append((State(pc, dict(st.m)), exc, i))
            st.pc = b_and(st.pc, b_not(a))

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st.pc == F:
                return
            self.exec_stmt(s, st, fr)

    def exec_stmt(self, s, st, fr):
        self.stats["stmts"] += 1
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.unknown(s, "statement")
            return
        m(s, st, fr)

    def unknown(self, node, what):
        k = "%s %s" % (what, type(node).__name__)
        self.unresolved[k] = self.unresolved.get(k, 0) + 1

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev_expr(s.value, st, fr)

    def st_Pass(self, s, st, fr):
        pass

    st_Global = st_Nonlocal = st_Pass

    def st_Assign(self, s, st, fr):
        v = self.ev_expr(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev_expr(s.value, st, fr), st, fr)

    def st_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, t, st, fr)
            new = self.aug(s, cur, self.ev_expr(s.value, st, fr), st, fr)
            self.assign(t, new, st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev_expr(t.value, st, fr)
            cur = self.getattr_(st, b, t.attr, t)
            new = self.aug(s, cur, self.ev_expr(s.value, st, fr), st, fr)
            if new is cur or new.items == cur.items:
                return  # changed in place
            self.setattr_(st, b, t.attr, new, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev_expr(t.value, st, fr)
            k = self.ev_expr(t.slice, st, fr)
            cur = self.getitem(st, b, k, t)
            new = self.aug(s, cur, self.ev_expr(s.value, st, fr), st, fr)
            self.setitem(st, b, k, new, s)

    def aug(self, s, cur, val, st, fr):
        if isinstance(s.op, ast.Add):
            # list += x extends in place
            def leaf(c, t):
                if self.is_container(t) and t.args[1] == "list":
                    self.L.method(self, c, t, "extend", [val], {}, s)
                    return V(t)
                d = self.type_of(t)
                if (d is not None and d[0] == "list") or (t.op == "a" and t.args[1] in LISTY):
                    self.L.method(self, c, t, "extend", [val], {}, s)
                    return V(t)
                return self.binop(c, s.op, V(t), val, s)

            return self.per_leaf(st, cur, leaf)
        return self.binop(st, s.op, cur, val, s)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if n == 1 and not isinstance(t.elts[0], ast.Starred):
                # the only item, whatever it is taken from
                v = g_map(lambda x: mk("f", "list", x) if x.op in ("a", "i", "p") or x.op == "f" and x.args[0] in ("values", "keys") else x, v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, V(mk("f", "rest", self.gkey(v), C(i))), st, fr)
                    continue
                k = i if not star or i < star[0] else i - n
                self.assign(x, self.getitem(st, v, V(C(k)), t, quiet=True), st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev_expr(t.value, st, fr)
            self.setattr_(st, b, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev_expr(t.value, st, fr)
            k = self.ev_expr(t.slice, st, fr)
            self.setitem(st, b, k, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def setvar(self, name, v, st, fr):
        st.m[("v", self.var_frame(name, fr).fid, name)] = v

    def var_frame(self, name, fr):
        f = fr
        while f is not None:
            if f.locals is None or name in f.locals:
                return f
            f = f.closure
        # module level
        return self.modframe(fr.module)

    def modframe(self, m):
        r = getattr(m, "_frame", None)
        if r is None:
            r = m._frame = Frame(("M", m.name), None, m, None)
        return r

    def st_If(self, s, st, fr):
        c = self.ev_cond(s.test, st, fr)
        self.branch(
            st,
            c,
            lambda x: self.exec_block(s.body, x, fr),
            (lambda x: self.exec_block(s.orelse, x, fr)) if s.orelse else None,
        )

    def st_For(self, s, st, fr):
        it = self.ev_expr(s.iter, st, fr)
        c = it.single()
        if c is not None and c.op == "f" and c.args[0] == "itertools.count" and not s.orelse:
            if len(c.args) < 3 or c.args[2] is C(1):
                first = c.args[1] if len(c.args) > 1 else C(0)

                def begin(x, n):
                    self.assign(s.target, V(n), x, fr)

                if self.search(s, st, fr, first, begin, None, sorted(assigned_in(s.body) - _tn(s.target)), _tn(s.target)):
                    return
        ctl = LoopCtl()
        assigned = sorted(assigned_in(s.body) | _tn(s.target))
        loc = [n for n in assigned if self.var_frame(n, fr) is fr]

        def body(x, v):
            fr.ctl.append((ctl, ctl.continues))
            saved = ctl.continues
            ctl.continues = []
            self.assign(s.target, v, x, fr)
            self.exec_block(s.body, x, fr)
            conts = ctl.continues
            ctl.continues = saved
            fr.ctl.pop()
            if conts:
                self.merge(x, [State(x.pc, x.m)] + [c[0] for c in conts])

        self.iterate(st, it, body, fr, loc, s, ctl)
        if s.orelse:
            self.exec_block(s.orelse, st, fr)
        if ctl.breaks:
            self.merge(st, [State(st.pc, st.m)] + [b[0] for b in ctl.breaks])

    st_AsyncFor = st_For

    def st_While(self, s, st, fr):
        r = self.while_as_for(s, st, fr) or self.while_unrolled(s, st, fr) or self.search_while(s, st, fr)
        if r:
            return
        ctl = LoopCtl()
        assigned = sorted(assigned_in(s.body))
        loc = [n for n in assigned if self.var_frame(n, fr) is fr]
        t = mk("f", "while", C(ast.unparse(s.test)))
        e = elem(t, self.depth_of(t))

        def body(x):
            fr.ctl.append((ctl, None))
            saved, ctl.continues = ctl.continues, []
            c = self.ev_cond(s.test, x, fr)
            # leaving by the test ends the loop
            out = State(b_and(x.pc, b_not(c)), dict(x.m))
            x.pc = b_and(x.pc, c)
            self.exec_block(s.body, x, fr)
            conts, ctl.continues = ctl.continues, saved
            fr.ctl.pop()
            if conts:
                self.merge(x, [State(x.pc, x.m)] + [c2[0] for c2 in conts])

        self.sym_loop(st, t, e, body, fr, loc, s, ctl)
        # after the loop the test is false, in terms of the values left behind
        if not (isinstance(s.test, ast.Constant) and s.test.value):
            q = len(self.ev)
            c = self.ev_cond(s.test, st, fr)
            del self.ev[q:]
            st.pc = b_and(st.pc, b_not(c))
            if s.orelse:
                self.exec_block(s.orelse, st, fr)
        else:
            st.pc = F
        if ctl.breaks:
            self.merge(st, [State(st.pc, st.m)] + [b[0] for b in ctl.breaks])

    def while_unrolled(self, s, st, fr, limit=12):
        """a loop whose condition is known each time, and which ends"""
        ctl = LoopCtl()
        m0, pc0 = dict(st.m), st.pc
        lists = self.exit_lists(fr, ctl) + [self.ev, self.rec]
        marks = [len(x) for x in lists]
        for i in range(limit):
            c = self.ev_cond(s.test, st, fr)
            if b_and(st.pc, b_not(c)) == F and st.pc != F:
                fr.ctl.append((ctl, None))
                saved, ctl.continues = ctl.continues, []
                self.exec_block(s.body, st, fr)
                conts, ctl.continues = ctl.continues, saved
                fr.ctl.pop()
                if conts:
                    self.merge(st, [State(st.pc, st.m)] + [x[0] for x in conts])
                if st.pc == F:
                    break
            elif b_and(st.pc, c) == F:
                if s.orelse:
                    self.exec_block(s.orelse, st, fr)
                break
            else:
                i = limit
                break
        else:
            i = limit
        if i == limit:
            st.m, st.pc = m0, pc0
            for x, n in zip(lists, marks):
                del x[n:]
            return False
        if ctl.breaks:
            self.merge(st, [State(st.pc, st.m)] + [b[0] for b in ctl.breaks])
        return True

    def search_while(self, s, st, fr):
        if s.orelse:
            return False
        for v in sorted(assigned_in(s.body)):
            if self.var_frame(v, fr) is not fr or not any(steps(x, v) for x in s.body):
                continue
            init = self.name(v, s, st, fr).single()
            if init is None or init is UNDEF:
                continue

            def begin(x, n, v=v):
                self.setvar(v, V(n), x, fr)

            if self.search(s, st, fr, init, begin, v, sorted(assigned_in(s.body) - {v}), {v}):
                return True
        return False

    def search(self, *args):
        self.searching += 1
        try:
            return self.search_from(*args)
        finally:
            self.searching -= 1

    def search_from(self, s, st, fr, init, begin, var, others, bound):
        """a loop which does nothing but look for the first number with a property"""
        if st.pc == F:
            return False
        n = mk("p", "number!%d" % self.searching)
        heads = {w: V(mk("p", "head!" + w)) for w in others}
        nxt = self.arith("add", n, C(1))
        ctl = LoopCtl()
        lists = self.exit_lists(fr, None) + [self.ev, self.rec]
        marks = [len(x) for x in lists]
        nret = len(fr.returns)
        m0, pc0 = dict(st.m), st.pc

        def fail():
            for x, k in zip(lists, marks):
                del x[k:]
            st.m, st.pc = m0, pc0
            return False

        unknown = set(heads)
        for attempt in range(3):
            for x, k in zip(lists, marks):
                del x[k:]
            ctl.breaks, ctl.continues = [], []
            x = State(pc0, dict(m0))
            begin(x, n)
            for w, h in heads.items():
                self.setvar(w, h, x, fr)
            exits = []
            fr.ctl.append((ctl, None))
            if isinstance(s, ast.While):
                c = self.ev_cond(s.test, x, fr)
                if b_and(x.pc, b_not(c)) != F:
                    exits.append((State(b_and(x.pc, b_not(c)), dict(x.m)),))
                x.pc = b_and(x.pc, c)
            self.exec_block(s.body, x, fr)
            fr.ctl.pop()
            if ctl.continues:
                self.merge(x, [State(x.pc, x.m)] + [q[0] for q in ctl.continues])
            if x.pc == F:
                return fail()
            for l, k in zip(lists[:-2], marks):
                if l is not fr.returns and len(l) > k:
                    return fail()
            exits += ctl.breaks
            rets = fr.returns[nret:]
            if any(e.kind not in QUIET or (e.kind == "lib" and not e.args["name"].startswith(("builtins.", "os.path."))) for e in self.ev[marks[-2]:]):
                return fail()
            own = {("v", fr.fid, w) for w in list(others) + list(bound)}
            for q in [x] + [y[0] for y in exits + rets]:
                for k, w in q.m.items():
                    if k not in own and k[0] in "vh" and k[1] != "tmp" and m0.get(k) is not w and any(f.fid == k[1] for f in self.frames):
                        return fail()
                    if k[0] == "h" and m0.get(k) is not w and k[1].op != "o":
                        return fail()
            if var is not None and x.m.get(("v", fr.fid, var), V(UNDEF)).single() is not nxt:
                return fail()
            hs = {mk("p", "head!" + w) for w in heads}

            def free(v):
                return not any(h in syms(t) for t in v.leaves() for h in hs) and not any(
                    h in syms(ATOMS[a]) for t, g in v.items for a in support(g) for h in hs)

            used = False
            X = F
            for y in exits + rets:
                rel = simplify(y[0].pc, pc0)
                X = b_or(X, rel)
                used = used or any(h in syms(ATOMS[a]) for a in support(rel) for h in hs)
                for k in own:
                    v = y[0].m.get(k)
                    if v is not None and not free(v) and not (k[2] in heads and v is heads[k[2]]):
                        used = True
                for v in y[1:]:
                    if isinstance(v, GVal) and not free(v):
                        used = True
            if X == F:
                return fail()
            unread = {k for y in exits for k in own if k[2] in heads and y[0].m.get(k) is heads[k[2]]}
            if not used and not unread:
                break
            # values at the start of a round, by induction
            new = {}
            for w in heads:
                end = x.m.get(("v", fr.fid, w))
                if end is None or not free(end) or w not in unknown:
                    if used and w in unknown:
                        return fail()
                    continue
                h = g_subst(end, {nxt: n})
                start = m0.get(("v", fr.fid, w))
                if start is None or g_subst(h, {n: init}).items != start.items:
                    if used:
                        return fail()
                    continue
                new[w] = h
            if not new:
                if used:
                    return fail()
                break
            unknown -= set(new)
            heads.update(new)
        else:
            return fail()
        least = mk("f", "least", init, n, mk("bdd", X))
        del self.ev[marks[-2]:]
        out = []
        for y in exits:
            out.append(self.at_number(y, n, least, X, pc0, own))
        fr.returns[nret:] = [self.at_number(y, n, least, X, pc0, own) for y in rets]
        st.pc = F
        if out:
            self.merge(st, [State(st.pc, st.m)] + [y[0] for y in out])
        return True

    def at_number(self, y, n, least, X, pc0, own):
        rel = simplify(simplify(y[0].pc, pc0), X)
        s2 = State(b_and(pc0, subst_bdd(rel, {n: least})), dict(y[0].m))
        for k in own:
            if k in s2.m:
                s2.m[k] = g_subst(s2.m[k], {n: least})
        return (s2,) + tuple(g_subst(v, {n: least}) if isinstance(v, GVal) else v for v in y[1:])

    def while_as_for(self, s, st, fr):
        """a loop which takes one thing after the other, written with while"""
        return self.counting_while(s, st, fr) or self.iterator_while(s, st, fr) or self.popping_while(s, st, fr)

    def as_for(self, s, st, fr, target, it, body, orelse):
        f = ast.copy_location(ast.For(target=target, iter=it, body=body or [ast.Pass()], orelse=orelse), s)
        ast.fix_missing_locations(f)
        self.st_For(f, st, fr)
        return True

    def counting_while(self, s, st, fr):
        """while i < n: ...; i += 1   is   for i in range(i0, n): ..."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))):
            return False
        if not isinstance(t.left, ast.Name) or not s.body:
            return False
        v = t.left.id
        at = [i for i, x in enumerate(s.body) if steps_one(x, v)]
        if len(at) != 1:
            return False
        before, after = s.body[: at[0]], s.body[at[0] + 1 :]
        if v in assigned_in(before + after) or any(isinstance(n, ast.Name) and n.id == v for x in after for n in ast.walk(x)):
            return False
        if any(isinstance(n, ast.Continue) for x in before for n in ast.walk(x)):
            return False
        if set(assigned_in(s.body)) & {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}:
            return False
        if grows(before + after, t.comparators[0]):
            return False
        cur = self.name(v, t.left, st, fr).single()
        if cur is None or cur.op != "c":
            return False
        start = [] if cval(cur) == 0 else [ast.Constant(cval(cur))]
        it = ast.Call(ast.Name("range", ast.Load()), start + [t.comparators[0]], [])
        ended = any(isinstance(n, ast.Name) and n.id == v and n.lineno > s.end_lineno for n in ast.walk(fr.func.node)) if fr.func is not None and hasattr(s, "end_lineno") else False
        self.as_for(s, st, fr, ast.Name(v, ast.Store()), it, before + after, s.orelse)
        if ended and st.pc != F:
            self.setvar(v, V(mk("f", "counted", C(v), mk("c", "int", str(self.nfid)))), st, fr)
        return True

    def iterator_while(self, s, st, fr):
        """while True: try: x = next(i) except StopIteration: break; ...   is   for x in i: ..."""
        if not (isinstance(s.test, ast.Constant) and s.test.value and s.body and isinstance(s.body[0], ast.Try)):
            return False
        r = s.body[0]
        if len(r.body) != 1 or len(r.handlers) != 1 or r.finalbody:
            return False
        h, x = r.handlers[0], r.body[0]
        if not (isinstance(h.type, ast.Name) and h.type.id == "StopIteration" and h.name is None and h.body and isinstance(h.body[-1], (ast.Break, ast.Return))):
            return False
        if any(isinstance(n, (ast.Break, ast.Continue)) for y in h.body[:-1] for n in ast.walk(y)):
            return False
        if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name)):
            return False
        c = x.value
        if c.func.id != "next" or len(c.args) != 1 or c.keywords or not isinstance(c.args[0], ast.Name):
            return False
        i = c.args[0].id
        if sum(isinstance(n, ast.Name) and n.id == i for n in ast.walk(s)) != 1:
            return False
        end = h.body[:-1] if isinstance(h.body[-1], ast.Break) else h.body
        return self.as_for(s, st, fr, x.targets[0], c.args[0], r.orelse + s.body[1:], end)

    def popping_while(self, s, st, fr):
        """while q: x = q.pop(0); ...   is   for x in q: ...   when q is used for nothing else"""
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
            t = t.left
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "len" and len(t.args) == 1:
            t = t.args[0]
        if not isinstance(t, ast.Name) or s.orelse:
            return False
        x = s.body[0]
        if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute)):
            return False
        c = x.value
        if not (isinstance(c.func.value, ast.Name) and c.func.value.id == t.id):
            return False
        first = c.func.attr == "pop" and len(c.args) == 1 and isinstance(c.args[0], ast.Constant) and c.args[0].value == 0 or c.func.attr == "popleft" and not c.args
        last = c.func.attr == "pop" and not c.args
        if not (first or last) or any(isinstance(n, ast.Name) and n.id == t.id for y in s.body[1:] for n in ast.walk(y)):
            return False
        q = self.name(t.id, t, st, fr).single()
        if q is None or q.op != "o" or self.content(st, q) is None or self.content(st, q).kind != "list":
            return False
        it = t if first else ast.Call(ast.Name("reversed", ast.Load()), [t], [])
        self.as_for(s, st, fr, x.targets[0], it, s.body[1:], [])
        if st.pc != F and not any(isinstance(n, (ast.Break,)) for y in s.body for n in ast.walk(y)):
            c = self.content(st, q)
            st.m[("c", q)] = Content("list", (), None, c.loops, c.pc)
        return True

    def st_Break(self, s, st, fr):
        if fr.ctl and st.pc != F:
            fr.ctl[-1][0].breaks.append((State(st.pc, dict(st.m)),))
        st.pc = F

    def st_Continue(self, s, st, fr):
        if fr.ctl and st.pc != F:
            fr.ctl[-1][0].continues.append((State(st.pc, dict(st.m)),))
        st.pc = F

    def st_Return(self, s, st, fr):
        v = self.ev_expr(s.value, st, fr) if s.value is not None else V(NONE)
        if st.pc != F:
            fr.returns.append((State(st.pc, dict(st.m)), v))
        st.pc = F

    def st_Raise(self, s, st, fr):
        if s.exc is None:
            exc = self.get(st, ("v", fr.fid, "!exc")) or V(mk("f", "reraised"))
        else:
            exc = self.ev_expr(s.exc, st, fr)
        if s.cause is not None:
            self.ev_expr(s.cause, st, fr)

        def leaf(c, t):
            if t.op in ("cls", "lib"):
                cls = t
                e = V(mk("exc", t))
            else:
                cls = self.exc_class(t)
                e = V(t)
            self.do_raise(c, cls, e, s)
            return V(NONE)

        self.per_leaf(st, exc, leaf)
        st.pc = F

    def exc_class(self, t):
        if t.op == "exc":
            return t.args[0]
        c = self.class_of(t)
        if c is not None:
            return self.clsterm(c)
        if t.op == "f" and t.args[0].startswith("builtins."):
            return lib(t.args[0])
        if t.op == "f":
            return lib(t.args[0])
        return lib("builtins.Exception")

    def st_Try(self, s, st, fr):
        handlers = []
        for h in s.handlers:
            if h.type is None:
                handlers.append(None)
                continue
            v = self.ev_expr(h.type, st, fr)
            out = []
            for t in v.leaves():
                c = self.content(st, t)
                if c is not None:
                    for sg in c.segs:
                        out.extend(sg.val.leaves())
                else:
                    out.append(t)
            handlers.append([LIBCANON(x) for x in out])
        sc = TryScope(handlers)
        self.tries.append(sc)
        b = State(st.pc, dict(st.m))
        self.exec_block(s.body, b, fr)
        self.tries.remove(sc)
        if s.orelse:
            self.exec_block(s.orelse, b, fr)
        ends = [b]
        for i, h in enumerate(s.handlers):
            got = [c for c in sc.caught if c[2] == i and c[0].pc != F]
            if not got:
                continue
            x = State(F, {})
            ex = self.merge_vals(x, [c[0] for c in got], [c[1] for c in got])
            x.m[("v", fr.fid, "!exc")] = ex
            if h.name:
                x.m[("v", fr.fid, h.name)] = ex
            self.record("handler", x, h, exc=ex)
            self.exec_block(h.body, x, fr)
            if h.name and x.pc != F:
                x.m[("v", fr.fid, h.name)] = V(UNDEF)
            ends.append(x)
        pcs = st.pc
        self.merge(st, ends)
        if s.finalbody:
            x = State(st.pc if st.pc != F else pcs, dict(st.m))
            dead = st.pc == F
            self.exec_block(s.finalbody, x, fr)
            if not dead:
                st.m, st.pc = x.m, x.pc

    st_TryStar = st_Try

    def st_With(self, s, st, fr):
        entered = []
        for it in s.items:
            v = self.ev_expr(it.context_expr, st, fr)
            self.record("enter", st, s, ctx=v)
            entered.append(v)
            bound = v

            def leaf(c, t):
                cls = self.class_of(t)
                if cls is not None:
                    f, _ = self.find_in_class(cls, "__enter__")
                    if f is not None:
                        return self.call(c, V(mk("bm", f.single(), t)), [], {}, s)
                return V(t)

            bound = self.per_leaf(st, v, leaf)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, bound, st, fr)
        sup = None
        for v in entered:
            for t in v.leaves():
                if t.op == "f" and t.args[0] == "contextlib.suppress":
                    sup = t.args[1:]
        if sup is not None:
            sc = TryScope([[LIBCANON(x) for x in sup]])
            self.tries.append(sc)
            b = State(st.pc, dict(st.m))
            self.exec_block(s.body, b, fr)
            self.tries.remove(sc)
            self.merge(st, [b] + [c[0] for c in sc.caught])
        else:
            self.exec_block(s.body, st, fr)
        for v in entered:
            self.record("exit", State(T, st.m), s, ctx=v)

    st_AsyncWith = st_With

    def st_Assert(self, s, st, fr):
        self.ev_cond(s.test, State(st.pc, dict(st.m)), fr)

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.m[("v", self.var_frame(t.id, fr).fid, t.id)] = V(UNDEF)
            elif isinstance(t, ast.Attribute):
                b = self.ev_expr(t.value, st, fr)
                for x in b.leaves():
                    self.record("delattr", st, s, obj=x, attr=t.attr)
                    st.m[("h", x, t.attr)] = V(UNDEF)
            elif isinstance(t, ast.Subscript):
                b = self.ev_expr(t.value, st, fr)
                k = self.ev_expr(t.slice, st, fr)

                def leaf(c, x):
                    self.record("delitem", c, s, obj=x, key=k)
                    self.del_key(c, x, k)
                    return V(NONE)

                self.per_leaf(st, b, leaf)

    def del_key(self, st, x, k):
        c = self.content(st, x)
        if c is None:
            return
        segs = []
        for sg in c.segs:
            if sg.key is not None and k is not None:
                g = g_test(lambda p, q: self.eq(st, p, q), sg.key, k)
                g = b_and(sg.guard, b_not(g))
                if g != F:
                    segs.append(Seg(sg.loops, sg.key, sg.val, g))
        st.m[("c", x)] = c.with_segs(tuple(segs))

    def st_Import(self, s, st, fr):
        for a in s.names:
            t = self.import_module(a.name)
            if a.asname is None and "." in a.name:
                t = self.import_module(a.name.split(".")[0])
            self.setvar((a.asname or a.name).split(".")[0], V(t), st, fr)

    def st_ImportFrom(self, s, st, fr):
        mod = s.module or ""
        if s.level:
            pkg = fr.module.package
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            mod = pkg + ("." + mod if mod else "")
        if mod == "__future__":
            return
        t = self.import_module(mod)
        for a in s.names:
            if a.name == "*":
                self.unknown(s, "import *")
                continue
            v = None
            if t.op == "mod":
                fid = ("M", t.args[0])
                v = self.get(st, ("v", fid, a.name))
                if v is None and self.P.module(mod + "." + a.name):
                    v = V(self.import_module(mod + "." + a.name))
                if v is None:
                    self.record("badimport", st, s, module=mod, name=a.name)
                    v = V(mk("a", t, a.name))
            else:
                v = V(lib(mod + "." + a.name))
            self.setvar(a.asname or a.name, v, st, fr)

    def st_FunctionDef(self, s, st, fr):
        v = self.make_func(s, st, fr)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, fr)
        self.setvar(s.name, v, st, fr)

    st_AsyncFunctionDef = st_FunctionDef

    def decorate(self, d, v, st, fr):
        if isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod"):
            return V(mk("deco", d.id, v.single()))
        txt = ast.unparse(d)
        if txt.endswith(("cached_property",)):
            return V(mk("deco", "property", v.single()))
        if txt.startswith(("functools.lru_cache", "functools.cache", "lru_cache", "cache", "functools.wraps", "contextlib.contextmanager")):
            if not txt.startswith(("functools.wraps", "contextlib")):
                return V(mk("deco", "cache", v.single()))
            return v
        if txt.endswith((".setter", ".deleter")):
            return v
        f = self.ev_expr(d, st, fr)
        return self.call(st, f, [v], {}, d)

    def make_func(self, node, st, fr):
        key = ("F", id(node))
        f = self.labels.get(key)
        if f is None:
            q = getattr(node, "name", "<lambda>")
            if fr.cls is not None:
                q = fr.cls.qual + "." + q
            elif fr.func is not None:
                q = fr.func.qual + "." + q
            f = self.P.new_func(fr.module, node, q, fr.cls)
            self.labels[key] = f
            node._keep = f
        clos = fr
        if fr.cls is not None:
            clos = fr.closure
        if clos is not None and clos.locals is None:
            clos = None  # module level
        t = mk("fn", repr(f), clos.fid if clos is not None else None, f.id)
        if clos is not None:
            self.closures[clos.fid] = clos
        a = node.args
        ds = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults) :], a.defaults):
            ds[p.arg] = self.ev_expr(d, st, fr)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                ds[p.arg] = self.ev_expr(d, st, fr)
        self.defaults[t] = ds
        return V(t)

    def st_ClassDef(self, s, st, fr):
        key = ("C", id(s))
        q = s.name if fr.func is None else fr.func.qual + "." + s.name
        c = self.labels.get((key, fr.module.name))
        if c is None:
            c = self.P.new_class(fr.module, s, q)
            self.labels[(key, fr.module.name)] = c
        t = self.clsterm(c)
        self.clsof[t] = c
        c.bases = []
        for b in s.bases:
            c.bases.extend(LIBCANON(x) for x in self.ev_expr(b, st, fr).leaves())
        for kw in s.keywords:
            v = self.ev_expr(kw.value, st, fr)
            if kw.arg == "metaclass":
                c.metaclass = v.single()
        cf = Frame(("K", repr(c)), None, fr.module, assigned_in(s.body), fr if fr.locals is not None else None)
        cf.cls = c
        self.exec_block(s.body, st, cf)
        for n in cf.locals:
            v = st.m.get(("v", cf.fid, n))
            if v is not None:
                c.attrs[n] = v
        self.setvar(s.name, V(t), st, fr)

    def st_Match(self, s, st, fr):
        subj = self.ev_expr(s.subject, st, fr)
        ends = []
        for case in s.cases:
            if st.pc == F:
                break
            g, binds = self.pattern(case.pattern, subj, st, fr)
            x = State(b_and(st.pc, g), dict(st.m))
            for n, v in binds:
                self.setvar(n, v, x, fr)
            if case.guard is not None and x.pc != F:
                c = self.ev_cond(case.guard, x, fr)
                g = b_and(g, c)
                x.pc = b_and(x.pc, c)
            st.pc = b_and(st.pc, b_not(g))
            if x.pc != F:
                self.exec_block(case.body, x, fr)
            ends.append(x)
        self.merge(st, [State(st.pc, st.m)] + ends)

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            v = self.ev_expr(p.value, st, fr)
            return g_test(lambda a, b: self.eq(st, a, b), subj, v), []
        if isinstance(p, ast.MatchSingleton):
            return g_test(lambda a: self.eq(st, a, C(p.value)), subj), []
        if isinstance(p, ast.MatchOr):
            gs = [self.pattern(q, subj, st, fr)[0] for q in p.patterns]
            return b_or(*gs), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return T, ([(p.name, subj)] if p.name else [])
            g, b = self.pattern(p.pattern, subj, st, fr)
            return g, b + ([(p.name, subj)] if p.name else [])
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            c = self.ev_expr(p.cls, st, fr)
            return self.L.isinstance_(self, st, subj, c), []
        self.unknown(p, "pattern")
        return atom(mk("truthy", mk("f", "pattern", C(ast.unparse(p)), self.gkey(subj)))), []

    # ------------------------------------------------------------ expressions

    def ev_cond(self, node, st, fr):
        """guard of the truth of an expression"""
        v = self.ev_expr(node, st, fr)
        v = prune(v, st.pc)
        for t, g in v.items:
            if from_file(t):
                self.record("truthop", st, node, guard=b_and(st.pc, g), value=t)
        return self.truth(st, v)

    def ev_expr(self, node, st, fr):
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            self.unknown(node, "expression")
            return V(mk("f", "opaque", C(ast.unparse(node))))
        return m(node, st, fr)

    def ex_Constant(self, n, st, fr):
        return V(C(n.value)) if n.value is not Ellipsis else V(mk("f", "ellipsis"))

    def ex_Name(self, n, st, fr):
        return self.name(n.id, n, st, fr)

    def name(self, nm, node, st, fr):
        f = fr
        while f is not None:
            if f.locals is not None and nm in f.locals:
                v = self.get(st, ("v", f.fid, nm))
                if v is None:
                    if f.cls is not None:  # class body falls back to the module
                        break
                    if f is not fr:
                        v = None
                    self.record("unbound", st, node, name=nm)
                    return V(UNDEF)
                v = prune(v, st.pc)
                for t, g in v.items:
                    if t is UNDEF:
                        self.record("unbound", st, node, guard=b_and(st.pc, g), name=nm)
                        if len(v.items) > 1:
                            v = prune(v, b_and(st.pc, b_not(g)))
                        break
                return v
            f = f.closure
        v = self.get(st, ("v", ("M", fr.module.name), nm))
        if v is not None:
            return v
        if hasattr(_bi, nm) or nm in ("__file__", "exit", "quit"):
            return V(lib("builtins." + nm))
        if self.modstate.get(fr.module.name) != "done" and fr.func is not None:
            return V(mk("f", "later", C(nm)))
        self.record("undefined", st, node, name=nm)
        return V(UNDEF)

    def ex_Attribute(self, n, st, fr):
        b = self.ev_expr(n.value, st, fr)
        return self.getattr_(st, b, n.attr, n)

    def getattr_(self, st, b, name, node):
        return self.per_leaf(st, b, lambda c, t: self.getattr_leaf(c, t, name, node))

    def getattr_leaf(self, st, t, name, node, call=False):
        if from_file(t):
            self.record("attrop", st, node, value=t, attr=name)
        v = self.get(st, ("h", t, name))
        if v is not None:
            return prune(v, st.pc)
        o = t.op
        if o == "mod":
            v = self.get(st, ("v", ("M", t.args[0]), name))
            if v is not None:
                return v
            sub = self.P.module(t.args[0] + "." + name)
            if sub is not None:
                return V(self.import_module(t.args[0] + "." + name))
            self.record("noattr", st, node, obj=t, attr=name)
            return V(mk("a", t, name))
        if o == "lib":
            if not stdlib_has(t.args[0], name):
                self.record("noattr", st, node, obj=t, attr=name)
            return V(lib(t.args[0] + "." + name))
        if o == "cls":
            c = self.clsof.get(t)
            if c is not None:
                v, k = self.find_in_class(c, name)
                if v is not None:
                    s = v.single()
                    if s is not None and s.op == "deco":
                        if s.args[0] == "classmethod":
                            return V(mk("bm", s.args[1], t))
                        return V(s.args[1]) if s.args[0] == "staticmethod" else V(s)
                    return v
                if name == "__name__":
                    return V(C(c.name))
                if any(b.op == "lib" for k in self.mro(c) for b in k.bases):
                    return V(mk("meth", t, name) if call else mk("a", t, name))
            return V(mk("meth", t, name) if call else mk("a", t, name))
        if o == "super":
            c = self.clsof.get(t.args[0])
            for k in self.mro(c)[1:]:
                if name in k.attrs:
                    return V(mk("bm", k.attrs[name].single(), t.args[1]))
            return V(mk("meth", t, name))
        if o == "c" or self.is_container(t):
            return V(mk("meth", t, name))
        cls = self.class_of(t)
        if cls is not None and o != "carry" or (cls is not None and o == "carry"):
            v, k = self.find_in_class(cls, name)
            if v is not None:
                s = v.single()
                if s is not None:
                    if s.op == "fn":
                        return V(mk("bm", s, t))
                    if s.op == "deco":
                        if s.args[0] == "property":
                            return self.call(st, V(mk("bm", s.args[1], t)), [], {}, node)
                        if s.args[0] == "staticmethod":
                            return V(s.args[1])
                        if s.args[0] == "classmethod":
                            return V(mk("bm", s.args[1], self.clsterm(cls)))
                        if s.args[0] == "cache":
                            return V(mk("bm", s.args[1], t))
                if o == "o":
                    return v
                ia = self.assigned_instance_attrs(cls)
                if name not in ia and "*" not in ia and not call:
                    return v
                if name not in ia and not call and name not in self.outside_attrs() and s is not None and self.is_container(s):
                    # a constant of the class, which no statement assigns
                    return v
                return V(mk("a", t, name))
            if name == "__class__":
                return V(self.clsterm(cls))
            if name == "__dict__":
                return V(mk("a", t, name))
            if o == "o":
                if any(b.op == "lib" and b.args[0] != "builtins.object" for kk in self.mro(cls) for b in kk.bases):
                    return V(mk("meth", t, name) if call else mk("a", t, name))
                if name.startswith("__"):
                    return V(mk("meth", t, name))
                self.record("noattr", st, node, obj=t, attr=name)
                return V(mk("a", t, name))
            if name.startswith("__"):
                return V(mk("meth", t, name))
            if not self.possible_attr(cls, name):
                self.record("noattr", st, node, obj=t, attr=name)
            return V(mk("meth", t, name) if call and not self.known_attr(cls, name) else mk("a", t, name))
        if t is UNDEF:
            return V(UNDEF)
        r = self.L.attribute(self, st, t, name, node)
        if r is not None:
            return r
        if call:
            # a method which only one class of the program has
            fns = self.method_by_name(name)
            if self.foreign(t):
                fns = []
            if len(fns) == 1 and name not in COMMON_METHODS:
                return V(mk("bm", fns[0], t))
            return V(mk("meth", t, name))
        return V(mk("a", t, name))

    def possible_attr(self, cls, name):
        """may an instance of the class, or of a subclass, have this attribute?"""
        subs = [c for c in self.P.classes if cls in self.mro(c)]
        for c in subs:
            if name in c.attrs:
                return True
            if any(b.op == "lib" and b.args[0] != "builtins.object" for k in self.mro(c) for b in k.bases):
                return True
            ia = self.assigned_instance_attrs(c)
            if name in ia or "*" in ia:
                return True
        return name in self.outside_attrs()

    def outside_attrs(self):
        """attributes assigned to objects other than self anywhere in the program"""
        r = getattr(self, "_oa", None)
        if r is None:
            r = self._oa = set()
            for m in self.P.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        if not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                            r.add(n.attr)
        return r

    def known_attr(self, cls, name):
        return name in self.assigned_instance_attrs(cls)

    def foreign(self, t):
        """an object made by a library"""
        d = self.type_of(t)
        if d is not None:
            return d[0] != "obj"
        return t.op == "f" and "." in t.args[0] and not t.args[0].startswith("punx.") and t.args[0].replace(".", "").replace("_", "").isalnum()

    def method_by_name(self, name):
        out = []
        for c in self.P.classes:
            v = c.attrs.get(name)
            if v is not None and v.single() is not None and v.single().op == "fn":
                if v.single() not in out:
                    out.append(v.single())
        return out

    def setattr_(self, st, b, name, v, node):
        def leaf(c, t):
            self.record("setattr", c, node, obj=t, attr=name, value=v)
            c.m[("h", t, name)] = v
            for x in v.leaves():
                self.bind_origin(c, t, name, x)
            return V(NONE)

        self.per_leaf(st, b, leaf)

    def bind_origin(self, st, t, name, x):
        pass

    def ex_Subscript(self, n, st, fr):
        b = self.ev_expr(n.value, st, fr)
        k = self.ev_expr(n.slice, st, fr)
        return self.getitem(st, b, k, n)

    def ex_Slice(self, n, st, fr):
        parts = []
        for x in (n.lower, n.upper, n.step):
            parts.append(self.gkey(self.ev_expr(x, st, fr)) if x is not None else NONE)
        return V(mk("f", "slice", *parts))

    def ex_ExtSlice(self, n, st, fr):
        return V(mk("f", "slices", C(ast.unparse(n))))

    def ex_Index(self, n, st, fr):
        return self.ev_expr(n.value, st, fr)

    def getitem(self, st, b, k, node, quiet=False):
        def leaf(c, t):
            kk = prune(k, c.pc)

            def kl(c2, kt):
                return self.getitem_leaf(c2, t, kt, node, quiet)

            return self.per_leaf(c, kk, kl)

        return self.per_leaf(st, b, leaf)

    def getitem_leaf(self, st, t, k, node, quiet=False):
        if k.op == "f" and k.args[0] == "slice" and len(k.args) == 4:
            return self.L.slice_(self, st, t, k, node)
        if k.op == "o":
            k = self.reify(st, k)
        cls = self.class_of(t)
        if cls is not None:
            f, _ = self.find_in_class(cls, "__getitem__")
            if f is not None:
                return self.call(st, V(mk("bm", f.single(), t)), [V(k)], {}, node)
        known = self.memo_value(st, t, k)
        if known is not None:
            return known
        if t in self.factories and self.content(st, t) is not None:
            new = self.call(st, self.factories[t], [], {}, node)
            return self.L.set_default(self, st, t, V(k), new, node)
        v, found = self.subscript(st, t, k, node)
        c = self.content(st, t)
        if not quiet:
            self.record("sub", st, node, obj=t, key=k)
        if c is not None and c.kind == "dict":
            if found != T:
                miss = b_and(st.pc, b_not(found))
                if miss != F:
                    sc, i = self.find_handler(lib("builtins.KeyError"))
                    if sc is not None:
                        sc.caught.append((State(miss, dict(st.m)), V(mk("exc", lib("builtins.KeyError"), k)), i))
                        st.pc = b_and(st.pc, found)
                    elif c.base is None and not quiet:
                        self.record("keyerror", st, node, guard=miss, obj=t, key=k)
                        if found == F:
                            st.pc = F
                            return V(UNDEF)
        elif c is None and not quiet and self.tries and t.op not in ("c",):
            term = v.single()
            if term is not None and term.op == "i":
                if k.op == "c" and isinstance(cval(k), int):
                    cl = ["builtins.IndexError"]
                else:
                    cl = ["builtins.KeyError", "builtins.OSError"]
                cl = [x for x in cl if self.find_handler(lib(x))[0] is not None]
                if cl:
                    done = []
                    # both kinds are caught by one handler, or separately
                    if len(cl) == 2 and self.find_handler(lib(cl[0])) == self.find_handler(lib(cl[1])):
                        sc, i = self.find_handler(lib(cl[0]))
                        a = b_or(b_not(p_in(term.args[1], term.args[0])), atom(mk("raises", term, C("builtins.OSError"))))
                        pc = b_and(st.pc, a)
                        if pc != F:
                            sc.caught.append((State(pc, dict(st.m)), V(mk("exc", lib(cl[0]), term)), i))
                        st.pc = b_and(st.pc, b_not(a))
                    else:
                        self.may_raise(st, cl, term, node, "subscript")
        return prune(v, st.pc) if st.pc != F else v

    def setitem(self, st, b, k, v, node):
        def leaf(c, t):
            return self.per_leaf(c, k, lambda c2, kt: self.setitem_leaf(c2, t, kt, v, node))

        self.per_leaf(st, b, leaf)

    def setitem_leaf(self, st, t, k, v, node):
        if k.op == "o":
            k = self.reify(st, k)
        c = self.content(st, t)
        # establishing an empty list in an absent slot changes nothing by itself
        lst = v.single()
        if lst is not None and self.is_container(lst) and lst.args[1] in ("list",):
            cc = self.content(st, lst)
            if cc.base is None and k.op != "c" and all(not x.loops and x.guard == T for x in cc.segs):
                if b_and(st.pc, self.contains(st, k, t)) == F:
                    if c is None:
                        c = Content("dict", (), t)
                    elif c.base is None:
                        c = Content(c.kind, c.segs, self.bag_of(t, self.sitekey(t)), c.loops, c.pc)
                    st.m[("c", t)] = c
                    # its content lives in the slot
                    slot = idx(c.base, k)
                    self.record("slot", st, node, obj=t, key=k, base=slot)
                    st.m[("c", lst)] = Content("list", (), slot, cc.loops, cc.pc)
                    st.m[("slotof", lst)] = V(slot)
                    for x in cc.segs:
                        self.L.CONT["append"](self, st, lst, [x.val], {}, node)
                    return V(NONE)
        absent = c is not None and c.base is not None and b_and(st.pc, self.contains(st, k, t)) == F
        self.record("setitem", st, node, obj=t, key=V(k), value=v, base=c.base if c is not None else None, absent=absent)
        if self.memo and self.memo_base(st, t) is not None:
            return V(NONE)
        if c is None:
            if t.op == "f" or t.op == "c":
                return V(NONE)
            c = Content("dict", (), t)
        loops = tuple(l for l in self.loops if l not in c.loops)
        segs = list(c.segs)
        if c.kind == "list" and k.op == "c" and isinstance(cval(k), int):
            if all(s.guard == T and not s.loops for s in segs) and -len(segs) <= cval(k) < len(segs):
                segs[cval(k)] = Seg((), None, v, T)
            st.m[("c", t)] = c.with_segs(tuple(segs))
            return V(NONE)
        if not loops:
            # replaces whatever was stored for the same key on this path
            segs = [s for s in segs if not (s.key is not None and not s.loops and s.key.single() is k)]
            segs.append(Seg((), V(k), v, T))
        else:
            segs = [s for s in segs if not (s.key is not None and s.loops == loops and s.key.single() is k)]
            segs.append(Seg(loops, V(k), v, simplify(st.pc, c.pc)))
        st.m[("c", t)] = c.with_segs(tuple(segs))
        return V(NONE)

    def memo_value(self, st, t, k):
        if self.memo:
            b = self.memo_base(st, t)
            if b is not None and k in self.memo[b.args[1]]:
                return self.memo[b.args[1]][k]
        return None

    def memo_base(self, st, t):
        """the attribute that holds dictionary t, when it is only a cache of computed values"""
        if t.op == "a":
            b = t
        else:
            c = self.content(st, t)
            b = c.base if c is not None else None
        if b is not None and b.op == "a" and b.args[1] in self.memo:
            return b
        return None

    def sitekey(self, t):
        return tuple(mk("for", l.t, l.e) for l in self.loops)

    # --- operators

    def ex_BoolOp(self, n, st, fr):
        is_and = isinstance(n.op, ast.And)
        vals = n.values

        def rec(i, s):
            v = self.ev_expr(vals[i], s, fr)
            if i == len(vals) - 1:
                return v
            c = self.truth(s, prune(v, s.pc))
            go = c if is_and else b_not(c)
            p1 = b_and(s.pc, go)
            if p1 != F and consistent_cached(p1) == F:
                p1 = F
            if p1 == F:
                return v
            p2 = b_and(s.pc, b_not(go))
            if p2 == F:
                return rec(i + 1, s)
            a = State(p1, dict(s.m))
            r = rec(i + 1, a)
            b = State(p2, s.m)
            # value of the short-circuit side
            sv = prune(v, p2)
            out = self.merge_vals(s, [a, b], [r, sv])
            return out

        return rec(0, st)

    def ex_UnaryOp(self, n, st, fr):
        v = self.ev_expr(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return g_bool(b_not(self.truth(st, prune(v, st.pc))))
        if isinstance(n.op, ast.USub):
            return g_map(lambda t: C(-cval(t)) if t.op == "c" and isinstance(cval(t), (int, float)) else mk("f", "neg", t), v)
        return g_map(lambda t: mk("f", type(n.op).__name__, t), v)

    def ex_Compare(self, n, st, fr):
        left = self.ev_expr(n.left, st, fr)
        g = T
        for op, r in zip(n.ops, n.comparators):
            right = self.ev_expr(r, st, fr)
            g = b_and(g, self.compare(st, op, left, right, n))
            left = right
        return g_bool(g)

    def compare(self, st, op, a, b, node):
        a, b = prune(a, st.pc), prune(b, st.pc)
        o = type(op).__name__
        if o not in ("Is", "IsNot", "In", "NotIn"):
            for v, w in ((a, b), (b, a)):
                for t, g in v.items:
                    if from_file(t):
                        self.record("cmpop", st, node, guard=b_and(st.pc, g), value=t, other=w, op=o)
        if o in ("Eq", "Is"):
            return g_test(lambda x, y: self.eq(st, x, y), a, b)
        if o in ("NotEq", "IsNot"):
            return b_not(g_test(lambda x, y: self.eq(st, x, y), a, b))
        if o in ("In", "NotIn"):
            self.record("inop", st, node, item=a, coll=b)
            g = g_test(lambda x, y: self.contains(st, x, y), a, b)
            return g if o == "In" else b_not(g)
        if o == "Lt":
            return g_test(lambda x, y: self.lt(st, x, y), a, b)
        if o == "Gt":
            return g_test(lambda x, y: self.lt(st, y, x), a, b)
        if o == "LtE":
            return b_not(g_test(lambda x, y: self.lt(st, y, x), a, b))
        if o == "GtE":
            return b_not(g_test(lambda x, y: self.lt(st, x, y), a, b))
        return atom(mk("truthy", mk("f", o, self.gkey(a), self.gkey(b))))

    def lt(self, st, x, y):
        # comparing text with a constant: not an integer comparison
        for u, w in ((x, y), (y, x)):
            if u.op == "c" and not isinstance(cval(u), int):
                return p_lt(x, y)
        return p_lt(x, y)

    def ex_BinOp(self, n, st, fr):
        a = self.ev_expr(n.left, st, fr)
        b = self.ev_expr(n.right, st, fr)
        return self.binop(st, n.op, a, b, n)

    def binop(self, st, op, a, b, node):
        a, b = prune(a, st.pc), prune(b, st.pc)
        o = type(op).__name__
        if o == "Add":
            for p, q in ((a, b), (b, a)):
                text = g_test(lambda y: T if is_str_term(y) else F, q)
                for x, g in p.items:
                    if x is not UNDEF and not is_str_term(x) and self.content(st, x) is None:
                        self.record("textop", st, node, guard=b_and(st.pc, g, text), value=x, op="+")

        def leaf(x, y):
            if x is UNDEF or y is UNDEF:
                return UNDEF
            cx, cy = self.content(st, x), self.content(st, y)
            if o == "Add":
                if cx is not None and cy is not None:
                    k = self.new_container(st, cx.kind if x.op == "o" else "list", cx.segs + cy.segs)
                    if cx.base is not None:
                        st.m[("c", k)].base = cx.base
                    return k
                if x.op == "c" and y.op == "c":
                    try:
                        return C(cval(x) + cval(y))
                    except TypeError:
                        return mk("f", "add", x, y)
                if is_str_term(x) or is_str_term(y):
                    return cat(x, y)
                if cx is not None or cy is not None:
                    return mk("f", "add", self.reify(st, x), self.reify(st, y))
                return mk("f", "add", x, y) if not (x.op == "c" and isinstance(cval(x), int)) else mk("f", "add", y, x)
            if o == "Mod" and is_str_term(x):
                return self.L.percent(self, st, x, y, node)
            if o == "Mult" and x.op == "c" and y.op == "c":
                try:
                    return C(cval(x) * cval(y))
                except TypeError:
                    pass
            if o == "Div":
                p = self.L.path_div(self, x, y)
                if p is not None:
                    return p
            if x.op == "c" and y.op == "c" and isinstance(cval(x), (int, float)) and isinstance(cval(y), (int, float)):
                try:
                    v = {"Sub": lambda p, q: p - q, "Mult": lambda p, q: p * q, "Div": lambda p, q: p / q,
                         "FloorDiv": lambda p, q: p // q, "Mod": lambda p, q: p % q, "Pow": lambda p, q: p**q,
                         "BitOr": lambda p, q: p | q, "BitAnd": lambda p, q: p & q}[o](cval(x), cval(y))
                    return C(v)
                except Exception:
                    pass
            names = {"Sub": "sub", "Mult": "mul"}
            if o == "Div":  # of numbers: the same
                x, y = [z.args[1] if z.op == "f" and z.args[0] == "float" and len(z.args) == 2 and z.args[1].op == "f" and z.args[1].args[0] in ("sum", "len", "add") and not is_str_term(z.args[1]) else z for z in (x, y)]
            if cx is not None:
                x = self.reify(st, x)
            if cy is not None:
                y = self.reify(st, y)
            return mk("f", names.get(o, o), x, y)

        return g_map(leaf, a, b)

    def ex_IfExp(self, n, st, fr):
        c = self.ev_cond(n.test, st, fr)
        p1, p2 = b_and(st.pc, c), b_and(st.pc, b_not(c))
        if p1 == F:
            st.pc = p2
            return self.ev_expr(n.orelse, st, fr)
        if p2 == F:
            st.pc = p1
            return self.ev_expr(n.body, st, fr)
        a, b = State(p1, dict(st.m)), State(p2, dict(st.m))
        va = self.ev_expr(n.body, a, fr)
        vb = self.ev_expr(n.orelse, b, fr)
        return self.merge_vals(st, [a, b], [va, vb])

    def ex_NamedExpr(self, n, st, fr):
        v = self.ev_expr(n.value, st, fr)
        f = fr
        while f.func is None and f.closure is not None and f.locals is not None and n.target.id not in f.locals:
            f = f.closure
        self.setvar(n.target.id, v, st, fr)
        return v

    def ex_Lambda(self, n, st, fr):
        return self.make_func(n, st, fr)

    def ex_List(self, n, st, fr):
        return self.display(n, st, fr, "list")

    def ex_Tuple(self, n, st, fr):
        return self.display(n, st, fr, "tuple")

    def ex_Set(self, n, st, fr):
        return self.display(n, st, fr, "set")

    def display(self, n, st, fr, kind):
        segs = []
        base = None
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev_expr(x.value, st, fr)
                for loops, val, g in self.pieces_gv(st, v):
                    segs.append(Seg(loops, None, val, g))
            else:
                segs.append(Seg((), None, self.ev_expr(x, st, fr), T))
        return V(self.new_container(st, kind, segs))

    def pieces_gv(self, st, v):
        out = []
        for t, g in v.items:
            for loops, val, h in self.pieces(st, t):
                out.append((loops, val, b_and(g, h)))
        return out

    def ex_Dict(self, n, st, fr):
        d = self.new_container(st, "dict")
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.L.method(self, st, d, "update", [self.ev_expr(v, st, fr)], {}, n)
            else:
                kv = self.ev_expr(k, st, fr)
                self.raw_store(st, d, kv, self.ev_expr(v, st, fr))
        return V(d)

    def raw_store(self, st, d, k, v):
        """store without an event (a display, not a modification)"""
        c = st.m[("c", d)]
        self.record("put", st, None, obj=d, key=k, value=v)
        loops = tuple(l for l in self.loops if l not in c.loops)
        segs = [s for s in c.segs if not (s.key is not None and s.loops == loops and k.single() is not None and s.key.single() is k.single())]
        segs.append(Seg(loops, k, v, simplify(st.pc, c.pc)))
        st.m[("c", d)] = c.with_segs(tuple(segs))

    def raw_append(self, st, d, v):
        c = self.content(st, d)
        self.record("put", st, None, obj=d, key=None, value=v)
        loops = tuple(l for l in self.loops if l not in c.loops)
        st.m[("c", d)] = c.with_segs(c.segs + (Seg(loops, None, v, simplify(st.pc, c.pc) if loops else T),))

    def comp(self, n, st, fr, kind):
        d = self.new_container(st, kind)
        names = set()
        for g in n.generators:
            target_names(g.target, names)
        self.nfid += 1
        cf = Frame(self.nfid, fr.func, fr.module, names, fr)
        cf.returns = fr.returns

        def rec(i, s):
            if i == len(n.generators):
                if kind == "dict":
                    k = self.ev_expr(n.key, s, cf)
                    self.raw_store(s, d, k, self.ev_expr(n.value, s, cf))
                else:
                    v = self.ev_expr(n.elt, s, cf)
                    # under the filters of this comprehension
                    c = self.content(s, d)
                    self.record("put", s, n, obj=d, key=None, value=v)
                    loops = tuple(l for l in self.loops if l not in c.loops)
                    s.m[("c", d)] = c.with_segs(c.segs + (Seg(loops, None, v, simplify(s.pc, c.pc)),))
                return
            g = n.generators[i]
            it = self.ev_expr(g.iter, s, cf if i else fr)

            def body(x, v):
                self.assign(g.target, v, x, cf)

                def filt(j, y):
                    if j == len(g.ifs):
                        rec(i + 1, y)
                        return
                    c = self.ev_cond(g.ifs[j], y, cf)
                    y2 = State(b_and(y.pc, c), dict(y.m))
                    rest = b_and(y.pc, b_not(c))
                    if y2.pc != F:
                        filt(j + 1, y2)
                        if rest == F:
                            y.m, y.pc = y2.m, y2.pc
                        else:
                            o = State(rest, y.m)
                            cont = y2.m.get(("c", d))
                            self.merge(y, [y2, o])
                            # guards of the new segments are complete already
                            y.m[("c", d)] = cont
                filt(0, x)

            self.iterate(s, it, body, cf, sorted(_tn(g.target)), n, None)

        rec(0, st)
        return V(d)

    def ex_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, "list")

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, "set")

    def ex_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, "dict")

    def ex_JoinedStr(self, n, st, fr):
        parts = [V(C(""))]
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(V(C(v.value)))
            else:
                x = self.ev_expr(v.value, st, fr)
                spec = self.ev_expr(v.format_spec, st, fr).single() if v.format_spec else None
                if spec is not None and cval(spec) if spec is not None and spec.op == "c" else spec:
                    x = g_map(lambda t: mk("f", "format", t, spec), x)
                if v.conversion == 114:
                    x = g_map(lambda t: mk("f", "repr", t), x)
                parts.append(g_map(lambda t: self.textual(st, t), x))
        if len(parts) == 2:  # text already
            return prune(parts[1], st.pc)
        r = parts[0]
        for p in parts[1:]:
            r = g_map(cat, r, prune(p, st.pc))
        return r

    def textual(self, st, t):
        """the term standing for str(t)"""
        if t.op == "c":
            return C(str(cval(t))) if not isinstance(cval(t), str) else t
        if t.op == "o":
            if self.content(st, t) is not None:
                return mk("f", "str", self.reify(st, t))
            cls = self.class_of(t)
            if cls is not None:
                return self.L.str_of(self, st, t)
        return mk("f", "str", t) if not is_str_term(t) and self.type_of(t) != ("str",) else t

    ex_FormattedValue = ex_JoinedStr

    def ex_Starred(self, n, st, fr):
        return self.ev_expr(n.value, st, fr)

    def ex_Yield(self, n, st, fr):
        v = self.ev_expr(n.value, st, fr) if n.value else V(NONE)
        f = fr
        while f.yields is None and f.closure is not None:
            f = f.closure
        if f.yields is not None:
            self.raw_append_guarded(st, f.yields, v)
        return V(NONE)

    def raw_append_guarded(self, st, d, v):
        c = self.content(st, d)
        self.record("put", st, None, obj=d, key=None, value=v)
        loops = tuple(l for l in self.loops if l not in c.loops)
        st.m[("c", d)] = c.with_segs(c.segs + (Seg(loops, None, v, simplify(st.pc, c.pc) if loops else T),))

    def ex_YieldFrom(self, n, st, fr):
        v = self.ev_expr(n.value, st, fr)
        f = fr
        if f.yields is not None:
            d = f.yields
            self.iterate(st, v, lambda s, x: self.raw_append_guarded(s, d, x), fr, (), n, None)
        return V(NONE)

    def ex_Await(self, n, st, fr):
        return self.ev_expr(n.value, st, fr)

    # ------------------------------------------------------------ calls

    def ex_Call(self, n, st, fr):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not n.args:
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.closure
            if f is not None:
                me = self.get(st, ("v", f.fid, f.func.params()[0]))
                return V(mk("super", self.clsterm(f.func.cls), me.single() or NONE))
        if isinstance(fn, ast.Attribute):
            base = self.ev_expr(fn.value, st, fr)
            callee = self.per_leaf(st, base, lambda c, t: self.getattr_leaf(c, t, fn.attr, fn, call=True))
        else:
            callee = self.ev_expr(fn, st, fr)
        args, kwargs, star = [], {}, None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev_expr(a.value, st, fr)
                s = v.single()
                c = self.content(st, s) if s is not None else None
                if c is not None and c.base is None and all(x.guard == T and not x.loops for x in c.segs):
                    args.extend(x.val for x in c.segs)
                else:
                    args.append(g_map(lambda t: mk("star", self.reify(st, t)), v))
            else:
                args.append(self.ev_expr(a, st, fr))
        for k in n.keywords:
            v = self.ev_expr(k.value, st, fr)
            if k.arg is None:
                s = v.single()
                c = self.content(st, s) if s is not None else None
                if c is not None and c.base is None and all(x.key.single() is not None and x.key.single().op == "c" for x in c.segs):
                    for x in c.segs:
                        kwargs[cval(x.key.single())] = x.val
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        if st.pc == F:
            return V(UNDEF)
        return self.call(st, callee, args, kwargs, n)

    def call(self, st, callee, args, kwargs, node):
        return self.per_leaf(st, callee, lambda c, t: self.call_leaf(c, t, args, kwargs, node))

    def call_leaf(self, st, t, args, kwargs, node):
        o = t.op
        if o == "fn":
            return self.inline(st, t, args, kwargs, node)
        if o == "bm":
            f = t.args[0]
            if f.op == "fn":
                return self.inline(st, f, [V(t.args[1])] + args, kwargs, node)
            return self.call_leaf(st, f, [V(t.args[1])] + args, kwargs, node)
        if o == "deco":
            return self.call_leaf(st, t.args[1], args, kwargs, node)
        if o == "cls":
            return self.instantiate(st, t, args, kwargs, node)
        if o == "lib":
            return self.L.function(self, st, t.args[0], args, kwargs, node)
        if o == "meth":
            return self.L.method(self, st, t.args[0], t.args[1], args, kwargs, node)
        if o == "part":
            f, a0, k0 = self.partials[t]
            return self.call(st, f, a0 + args, dict(k0, **kwargs), node)
        cls = self.class_of(t)
        if cls is not None:
            f, _ = self.find_in_class(cls, "__call__")
            if f is not None:
                return self.inline(st, f.single(), [V(t)] + args, kwargs, node)
        if t is UNDEF:
            return V(UNDEF)
        if o == "c":
            self.record("badcall", st, node, callee=t)
            return V(UNDEF)
        self.record("symcall", st, node, callee=t, args=args)
        return V(mk("f", "call", t, *[self.gkey(a) for a in args]))

    def func_of(self, t):
        return self.P.funcs[t.args[2]]

    def inline(self, st, t, args, kwargs, node):
        f = self.func_of(t)
        q = f.module.name + "." + f.qual
        self.stats["calls"] += 1
        root = node is None and not self.stack  # the function to be analysed
        h = self.prims.get(q)
        if h is not None and not root:
            return h(self, st, args, kwargs, node)
        if q in self.opaque and not root:
            vals = self.bind_values(st, t, f, args, kwargs, node)
            self.record("call", st, node, func=q, args=vals)
            h = self.opaque[q]
            v = h(self, st, vals, node) if callable(h) else None
            self.havoc_objects(st, vals.values())
            if v is not None:
                return v
            return V(mk("f", "call:" + q, *[self.gkey(v) for v in vals.values()]))
        if self.shallow and self.stack and not self.nested(f) and not (helper(f) and f.module is self.stack[-1].module and f not in self.stack):
            vals = self.bind_values(st, t, f, args, kwargs, node)
            self.record("call", st, node, func=q, args=vals)
            self.havoc_objects(st, vals.values())
            return V(mk("f", "call:" + q, *[self.gkey(v) for v in vals.values()]))
        if f in self.stack or len(self.stack) > MAXDEPTH:
            vals = self.bind_values(st, t, f, args, kwargs, node)
            self.record("reccall", st, node, func=f, args=vals)
            self.rec.append((f, t))
            self.havoc_objects(st, vals.values())
            r = mk("f", "rec:" + f.qual, *[self.reify(st, v) for v in vals.values()])
            d = self.types.get(("return", f.qual))
            if d:
                self.ptypes.setdefault(r, d)
            return V(r)
        self.stats["funcs"].add(q)
        self.entered[q] = self.entered.get(q, 0) + 1
        vals = self.bind_values(st, t, f, args, kwargs, node)
        self.nfid += 1
        clos = self.closures.get(t.args[1]) if t.args[1] is not None else None
        fr = Frame(self.nfid, f, f.module, f.locals(), clos)
        gen = f.is_generator() if not isinstance(f.node, ast.Lambda) else False
        for p, v in vals.items():
            st.m[("v", fr.fid, p)] = v
        ygen = None
        if gen:
            ygen = self.new_container(st, "list")
            fr.yields = ygen
        self.record("enter_fn", st, node, func=f, args=vals)
        self.stack.append(f)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                rv = self.ev_expr(f.node.body, st, fr)
                fr.returns.append((State(st.pc, st.m), rv))
                st.pc = F
            else:
                self.exec_block(f.node.body, st, fr)
                if st.pc != F:
                    fr.returns.append((State(st.pc, st.m), V(NONE)))
        finally:
            self.stack.pop()
            self.frames.pop()
        rets = [(s, v) for s, v in fr.returns if s.pc != F]
        if not rets:
            st.pc = F
            self.record("leave_fn", st, node, func=f)
            return V(UNDEF)
        rv = self.merge_vals(st, [s for s, v in rets], [v for s, v in rets])
        rv = prune(rv, st.pc)
        if fr.fid not in self.closures:
            for k in [k for k in st.m if k[0] == "v" and k[1] == fr.fid]:
                del st.m[k]
        self.record("leave_fn", st, node, func=f)
        if gen:
            return V(ygen)
        return rv

    def nested(self, f):
        """is f defined inside of the function that is analysed?"""
        n = self.stack[0].node
        return f.module is self.stack[0].module and any(x is f.node for x in ast.walk(n))

    def havoc_objects(self, st, vals):
        """an unknown number of calls may have changed the containers these objects hold"""
        seen = set()
        work = [t for v in vals for t in v.leaves()]
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            for k in [k for k in st.m if k[0] == "h" and k[1] is o]:
                for t in st.m[k].leaves():
                    if self.is_container(t) and ("c", t) not in self.base_m:
                        c = self.content(st, t)
                        base = mk("a", o, k[2])
                        st.m[("c", t)] = Content(c.kind, (), base, c.loops, c.pc)

    def bind_values(self, st, t, f, args, kwargs, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        kwargs = dict(kwargs)
        extra = []
        i = 0
        star = False
        for v in args:
            s = v.single()
            if s is not None and s.op == "star":
                star = True
                for j, p in enumerate(pos[i:]):
                    vals[p] = V(mk("i", s.args[0], C(j)))
                i = len(pos)
                continue
            if i < len(pos):
                vals[pos[i]] = v
                i += 1
            else:
                extra.append(v)
        if a.vararg:
            vals[a.vararg.arg] = V(self.mk_list(st, extra, "tuple"))
        elif extra and not star:
            self.record("arity", st, node, func=f, why="too many arguments")
        known = set(pos) | {x.arg for x in a.kwonlyargs}
        rest = {}
        dstar = kwargs.pop("**", None)
        for k, v in kwargs.items():
            if k in known:
                if k in vals and k in pos[:i] and not star:
                    self.record("arity", st, node, func=f, why="argument '%s' given twice" % k)
                vals[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            d = self.new_container(st, "dict")
            for k, v in rest.items():
                self.raw_store(st, d, V(C(k)), v)
            vals[a.kwarg.arg] = V(d)
        elif rest:
            self.record("arity", st, node, func=f, why="unexpected argument(s) %s" % ", ".join(sorted(rest)))
        ds = self.defaults.get(t, {})
        for p in list(pos) + [x.arg for x in a.kwonlyargs]:
            if p not in vals:
                if dstar is not None:
                    vals[p] = V(mk("i", self.gkey(dstar), C(p)))
                elif p in ds:
                    vals[p] = ds[p]
                else:
                    self.record("arity", st, node, func=f, why="missing argument '%s'" % p)
                    vals[p] = V(UNDEF)
        # in the order of the signature
        order = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        out = {p: vals[p] for p in order}
        for p in vals:
            if p not in out:
                out[p] = vals[p]
        return out

    def is_singleton(self, c):
        for k in self.mro(c):
            for b in k.bases:
                if b not in self.clsof and b.op != "lib":
                    return True
            if getattr(k, "metaclass", None) is not None:
                return True
        return False

    def instantiate(self, st, t, args, kwargs, node):
        c = self.clsof.get(t)
        if c is None:
            return V(mk("f", "new", t))
        meta = any(b.op == "lib" and b.args[0] == "builtins.type" for k in self.mro(c) for b in k.bases)
        if meta:
            return V(mk("f", "metaclass-instance", t))
        if self.is_singleton(c):
            self.record("singleton", st, node, cls=t)
            return V(mk("inst", t))
        if self.shallow:
            init, k = self.find_in_class(c, "__init__")
            o = mk("f", "made", t, len(self.ev))
            self.ptypes[o] = ("obj", c.name)
            self.record("new", st, node, cls=t, obj=o)
            if init is not None and init.single() is not None and init.single().op == "fn":
                self.bind_values(st, init.single(), self.func_of(init.single()), [V(o)] + args, kwargs, node)
            return V(o)
        q = c.module.name + "." + c.qual
        if q in self.opaque:
            # an instance known by what it was made of, one for each iteration
            init, k = self.find_in_class(c, "__init__")
            vals = {}
            if init is not None and init.single() is not None and init.single().op == "fn":
                vals = self.bind_values(st, init.single(), self.func_of(init.single()), [V(NONE)] + args, kwargs, node)
                vals = {k: v for k, v in list(vals.items())[1:] if k not in ("args", "kwargs")}
            o = mk("f", "made", t, *[self.reify(st, v) for v in vals.values()], *[l.e for l in self.loops])
            self.ptypes[o] = ("obj", c.name)
            self.record("call", st, node, func=q, args=vals)
            h = self.opaque[q]
            if callable(h):
                h(self, st, dict(vals, self=V(o)), node)
            return V(o)
        o = self.new_obj(st, c.name)
        st.m[("n", o)] = V(C(True))
        self.otypes[o] = c
        self.record("new", st, node, cls=t, obj=o)
        init, k = self.find_in_class(c, "__init__")
        if init is not None and init.single() is not None and init.single().op == "fn":
            self.inline(st, init.single(), [V(o)] + args, kwargs, node)
        else:
            st.m[("h", o, "args")] = V(self.mk_list(st, args, "tuple"))
        return V(o)

    # ------------------------------------------------------------ entry

    def find_func(self, qual):
        """function term of a dotted name such as punx.validate.Data_File_Validator.validate"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            if self.P.module(mn) is not None and mn in self.modstate:
                v = self.mod_var(mn, parts[i])
                rest = parts[i + 1 :]
                if v is None:
                    continue
                t = v.single()
                for r in rest:
                    c = self.clsof.get(t)
                    if c is None:
                        return None
                    v, _ = self.find_in_class(c, r)
                    if v is None:
                        return None
                    t = v.single()
                if t is not None and t.op == "deco":
                    t = t.args[1]
                return t
        return None

    def run(self, qual, args, kwargs=None, st=None):
        """analyse a function of the program from the outside"""
        t = qual if isinstance(qual, Term) else self.find_func(qual)
        if t is None:
            raise AnalysisBroken("no such function: %s" % qual)
        st = st or State(T, {})
        self.ev = []
        mod = self.func_of(t).module if t.op == "fn" else None
        fr = Frame(("root",), None, mod or next(iter(self.P.modules.values())), set())
        self.frames.append(fr)
        try:
            if t.op == "cls":
                v = self.instantiate(st, t, args, kwargs or {}, None)
            else:
                v = self.inline(st, t, args, kwargs or {}, None)
        finally:
            self.frames.pop()
        return Result(self, self.ev, st, v)


class Result:
    def __init__(self, interp, events, state, value):
        self.I, self.events, self.state, self.value = interp, events, state, value

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


class _ModDict(dict):
    """module variables are visible to other functions while the module loads"""

    def __init__(self, base):
        super().__init__()
        self.base = base

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        self.base[k] = v


QUIET = {"log", "textop", "inop", "sub", "symget", "lib", "enter_fn", "leave_fn", "keyerror"}


def steps(x, v):
    """v += 1"""
    if isinstance(x, ast.AugAssign):
        return isinstance(x.target, ast.Name) and x.target.id == v and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1
    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == v:
        b = x.value
        return isinstance(b, ast.BinOp) and isinstance(b.op, ast.Add) and any(isinstance(y, ast.Constant) and y.value == 1 for y in (b.left, b.right))
    return False


LISTY = {"children", "patterns", "re_list", "symbols"}
COMMON_METHODS = {
    "get", "items", "keys", "values", "update", "append", "extend", "close", "parse", "validate", "report",
    "path", "name", "read", "write", "open", "copy", "pop", "add", "remove", "clear", "setup", "cleanup",
    "parse_args", "error", "split", "join", "find", "index", "count", "sort", "insert", "format",
}


def _tn(t):
    s = set()
    target_names(t, s)
    return s


def stdlib_has(module, name):
    """does this module of the standard library have that attribute? (True when unknown)"""
    import importlib
    import sys

    if module.partition(".")[0] not in sys.stdlib_module_names:
        return True
    try:
        m = importlib.import_module(module)
    except Exception:
        return True
    if hasattr(m, name):
        return True
    try:
        importlib.import_module(module + "." + name)
        return True
    except Exception:
        return False


def LIBCANON(t):
    if t.op == "lib":
        return lib(t.args[0])
    return t


def simplify_care(care, pc):
    return simplify(care, pc) if pc != F else care


_cons = {}


def consistent_cached(f):
    r = _cons.get(f)
    if r is None:
        r = f if len(support(f)) > 60 else consistent(f, 60)
        _cons[f] = r
    return r
