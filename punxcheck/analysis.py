"""The analysed program: the package in /repo and the reference behaviour, and
what is common to all rules."""
import os

from .core import *  # noqa: F401,F403
from .interp import Interp, Result, lib  # noqa: F401
from .preds import *  # noqa: F401,F403
from .preds import is_str_term, p_in  # noqa: F401
from .program import AnalysisBroken, Program

HERE = os.path.dirname(os.path.abspath(__file__))

TYPES = {
    ("Data_File_Validator", "addresses"): ("dict", ("obj", "ValidationItem")),
    ("Data_File_Validator", "classpaths"): ("dict", ("list", ("obj", "ValidationItem"))),
    ("Data_File_Validator", "manager"): ("obj", "NXDL_Manager"),
    ("Data_File_Validator", "validations"): ("list", ("obj", "Finding")),
    ("Finding", "status"): ("obj", "ValidationResultStatus"),
    ("ValidationItem", "classpath"): ("str",),
    ("ValidationItem", "parent"): ("obj", "ValidationItem"),
    ("Base_Cache", "qsettings"): ("lib", "PyQt5.QtCore.QSettings"),
    ("NXDL_Manager", "nxdl_file_set"): ("obj", "NXDL_File_Set"),
    ("NXDL_Manager", "classes"): ("dict", ("obj", "NXDL__definition")),
    ("NXDL_File_Set", "schema_manager"): ("obj", "SchemaManager"),
    ("SchemaManager", "nxdl"): ("obj", "Schema_Root"),
}

DECODE = "punx.utils.decode_byte_string"


def is_text(t):
    """text whatever the file contains: names and addresses given by h5py"""
    if is_str_term(t):
        return True
    if t.op == "a" and t.args[1] in ("name", "h5_address"):
        return True
    if t.op == "elem" and t.args[0].op == "a" and t.args[0].args[1] in ("attrs", "h5_object", "h5"):
        return True
    return False


def decode_leaf(t):
    if t.op == "c" or is_text(t):
        return t
    if t.op == "f" and t.args[0] == "decode":
        return t
    return mk("f", "decode", t)


def decode_prim(I, st, args, kwargs, node):
    v = args[0] if args else next(iter(kwargs.values()))
    return g_map(decode_leaf, v)


class Analysis:
    def __init__(self, specs=(), types=True):
        self.P = Program()
        for s in specs:
            self.P.add_file(s, os.path.join(HERE, "spec", s + ".py"))
        self.I = Interp(self.P, dict(TYPES) if types else {})
        self.I.load_all()
        for s in specs:
            self.I.import_module(s)
        self.I.prims[DECODE] = decode_prim
        if self.I.find_func(DECODE) is None:
            raise AnalysisBroken("anchor vanished: " + DECODE)
        self.used = []

    def obj(self, name, cls=None):
        t = mk("p", name)
        if cls is not None:
            self.I.ptypes[t] = ("obj", cls)
        return t

    def run(self, qual, args, kwargs=None, st=None):
        if self.I.find_func(qual) is None:
            raise AnalysisBroken("anchor vanished: " + qual)
        r = self.I.run(qual, [a if isinstance(a, GVal) else V(a) for a in args], kwargs, st)
        self.used.append((qual, len(r.events)))
        return r

    def run_memo(self, qual, args, pre=None):
        """as run(), reading through dictionaries that are only caches of computed values"""
        self.I.memo = None
        if pre:
            pre()
        r = self.run(qual, args)
        memo, bad = find_memo(r.events)
        if memo:
            self.I.memo = memo
            if pre:
                pre()
            r = self.run(qual, args)
            self.I.memo = None
        r.memo, r.memo_bad = memo, bad
        return r


def find_memo(events):
    """attributes holding dictionaries whose entries are stored only when absent, and whose
    values are determined by their keys"""
    stores = {}
    for e in events:
        if e.kind != "setitem":
            continue
        b = e.args.get("base")
        if b is None or b.op != "a":
            continue
        k, v = e.args["key"].single(), e.args["value"].single()
        ok = k is not None and v is not None and e.args.get("absent")
        stores.setdefault(b.args[1], []).append((k, e.args["value"], ok, e))
    memo, bad = {}, []
    for name, l in stores.items():
        if not all(ok for k, v, ok, e in l):
            continue
        tab = {}
        for k, v, ok, e in l:
            if k in tab and repr(tab[k]) != repr(v):
                bad.append((e, k, tab[k], v))
            tab[k] = v
        ks = list(tab)
        for i, k in enumerate(ks):
            own = [x for x in syms(k) if x.op in ("elem", "idx")]
            for x in syms(tab[k].single()):
                if x.op == "elem" and x not in own and not any(y.op == "idx" and y.args[0] is x for y in own):
                    bad.append((l[0][3], k, tab[k], None))
            for k2 in ks[:i]:
                if may_equal(k, k2) and tab[k].single() is not tab[k2].single():
                    bad.append((l[0][3], k, tab[k], tab[k2]))
        memo[name] = tab
    return memo, bad


def may_equal(a, b):
    """may two key templates denote the same text?"""
    def ends(t):
        if t.op == "c":
            s = str(cval(t))
            return s, s, True
        if t.op == "cat":
            p = str(cval(t.args[0])) if t.args[0].op == "c" else ""
            s = str(cval(t.args[-1])) if t.args[-1].op == "c" else ""
            return p, s, False
        return "", "", False

    pa, sa, ca = ends(a)
    pb, sb, cb = ends(b)
    if ca and cb:
        return pa == pb
    n = min(len(pa), len(pb))
    if pa[:n] != pb[:n]:
        return False
    n = min(len(sa), len(sb))
    if n and sa[-n:] != sb[-n:]:
        return False
    return True
