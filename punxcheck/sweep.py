"""Every function of the program on its own, for any arguments."""
import ast

from .analysis import *  # noqa: F401,F403
from .analysis import Analysis

BAD = {
    "unbound": "uses the local variable '%(name)s' where it may not be assigned",
    "undefined": "uses the name '%(name)s' which is not defined",
    "noattr": "uses the attribute '%(attr)s' which %(obj)s does not have",
    "arity": "calls %(func)s: %(why)s",
    "badimport": "imports '%(name)s' which %(module)s does not define",
    "badcall": "calls %(callee)s which cannot be called",
    "nometh": "calls the method '%(name)s' which %(obj)s does not have",
}

# parameters with the same meaning wherever they appear (used only to know more types)
PARAMS = {"v_item": "ValidationItem", "validator": "Data_File_Validator", "base_class": "NXDL__definition", "nxdl_file_set": "NXDL_File_Set"}


def functions(A):
    """the functions and methods at the top level of a module or class"""
    for f in A.P.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        t = A.I.find_func(f.module.name + "." + f.qual)
        if t is not None and t.op == "fn":
            yield f, t


def run_one(A, f, t):
    args = []
    for i, p in enumerate(f.params()):
        if i == 0 and f.cls is not None and not any("staticmethod" in d for d in f.decorators()):
            x = A.obj(f.cls.name + "!self", f.cls.name)
        elif PARAMS.get(p) and A.I.find_class(PARAMS[p]) is not None:
            x = A.obj(p, PARAMS[p])
        else:
            x = mk("p", p)
        args.append(V(x))
    return A.I.run(t, args)


def sweep():
    A = Analysis([])
    A.I.prims.clear()
    A.I.shallow = True
    out = []
    for f, t in functions(A):
        out.append((f, run_one(A, f, t)))
    return A, out


def describe(e):
    d = {k: (show(v) if isinstance(v, (Term, GVal)) else v) for k, v in e.args.items()}
    return BAD[e.kind] % d
