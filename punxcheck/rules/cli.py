"""The command line (C31, C35, C36, C42)."""
import ast

from ..analysis import Analysis
from ..core import *  # noqa: F401,F403
from ..equiv import *  # noqa: F401,F403
from ..interp import State, lib
from ..lib import is_parser
from ..preds import consistent, strip_seq
from ..equiv import class_term, failing
from .nxdl import eff_opaque

EQ = "reference-function"
EQ_TEXT = "the function computed from the source has, for every input, the results, exceptions and effects of the reference function in punxcheck/spec/spec_cli.py"
M = "punx.main."
V_ = "punx.validate."
FAIL = {
    V_ + "validate_xml": ("punx.FileNotFound", "punx.InvalidNxdlFile"),
    V_ + "Data_File_Validator.validate": ("punx.FileNotFound", "punx.HDF5_Open_Error", "punx.SchemaNotFound"),
    "punx.nxdltree.NxdlTreeView.__init__": ("punx.FileNotFound", "builtins.ValueError", "builtins.AttributeError"),
    "punx.h5tree.Hdf5TreeView.__init__": ("punx.FileNotFound", "punx.HDF5_Open_Error"),
    "punx.h5tree.Hdf5TreeView.report": ("punx.HDF5_Open_Error",),
}


def eff_exit(I, r, name):
    """the program ends, with or without an error"""
    out = []
    for e in r.events:
        if e.kind == "exitcall":
            for t, g in as_gv(e.args["code"]).items:
                ok = t in (NONE, C(0), C(False))
                out.append((Pseudo(b_and(e.guard, g), name), "exits without an error" if ok else "exits with an error"))
    return out


def eff_error(I, r, name):
    return [x for x in eff_raise(I, r, name) if x[2] is not lib("builtins.SystemExit")]


def eff_calls(*names, last=None):
    """calls of these functions, with the first arguments only"""

    def eff(I, r, name):
        return [x[: last + 2] if last is not None else x for x in eff_opaque(I, r, name) if x[0].args["func"] in names]

    return eff


def eff_statuses(I, r, name):
    """which statuses are reported"""
    out = []
    for e in r.events:
        if e.kind == "call" and e.args["func"] == V_ + "Data_File_Validator.print_report":
            v = e.args["args"]["statuses"]
            for k in STATUSES:
                g = g_test(lambda t: T if t is NONE else I.contains(r.state, C(k), t), v)
                out.append((Pseudo(b_and(e.guard, g), name), "reports the findings of status " + k))
    return out


STATUSES = ("OK", "NOTE", "WARN", "ERROR", "TODO", "UNUSED", "COMMENT", "OPTIONAL")
PRINT = V_ + "Data_File_Validator.print_report"
VALIDATING = ("punx.cache_manager.CacheManager", "punx.cache_manager.CacheManager.all_file_sets", V_ + "Data_File_Validator", V_ + "validate_xml",
              V_ + "Data_File_Validator.validate", PRINT)


def analysis(*opaque, fail=FAIL):
    A = Analysis(["spec_cli"])
    for q in opaque:
        A.I.opaque[q] = failing(q, fail[q]) if q in fail else None
    return A


def validating(rep, effects):
    A = analysis(*VALIDATING)
    rc, rs = equivalent(A, rep, EQ, M + "func_validate", "spec_cli.run_validate", [A.obj("args")], effects)
    return A, rc


def C31(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    validating(rep, (eff_exit, eff_statuses, eff_calls(V_ + "Data_File_Validator.validate"), eff_calls(PRINT, last=1)))
    shown_findings(rep)


FIELDS = ("h5_address", "status", "test_name", "comment")


def eff_shown(I, r, name):
    """findings which are printed, with all their parts"""
    out = []
    prints = list(messages(r))
    for e in r.events:
        if e.kind == "enter_fn" and e.args["func"].qual == "row" and e.args["func"].module.name == "spec_cli":
            ts, shown = [t for v in e.args["args"].values() for t in as_gv(v).leaves()], T
        elif e.kind == "libm" and e.args["args"] and e.args["name"] in ("addRow", "append", "write", "extend", "insert"):
            ts = [t for v in e.args["args"] for t in as_gv(v).leaves()]
            box = [x for t in as_gv(e.args["recv"]).leaves() for x in syms(t)]
            shown = b_or(*[outside(m) for m, mt in prints if m.seq > e.seq and any(x in box and x.op == "o" for t in mt for x in syms(t))])
        elif any(e is m for m, mt in prints):
            ts, shown = [t for m, mt in prints if m is e for t in mt], T
        else:
            continue
        ts = [spread(I.reify(r.state, t)) for t in ts]
        found = {x for t in ts for y in as_gv(t).leaves() for x in syms(y) if x.op == "a" and x.args[1] in FIELDS}
        for o in {x.args[0] for x in found}:
            if all(mk("a", o, a) in found for a in FIELDS) and (not e.loops or any(l.e is o for l in e.loops)):
                out.append((Shown(b_and(e.guard, shown), e), "shows", o))
    return out


class Shown:
    kind = "shows"

    def __init__(self, guard, e):
        self.guard, self.e, self.loops, self.stack, self.args = guard, e, e.loops, e.stack, {}

    def where(self):
        return self.e.where()


def shown_findings(rep):
    A = Analysis(["spec_cli"])
    for f in ("finding_summary", "finding_score"):
        A.I.opaque[V_ + "Data_File_Validator." + f] = None
    rc, rs = equivalent(A, rep, EQ, PRINT, "spec_cli.print_report", [A.obj("validator", "Data_File_Validator"), A.obj("statuses")], (eff_shown, eff_raise))
    rep.floor("findings shown", len(eff_shown(A.I, rc, "print_report")), 1)


SAID = "message-before-exit"
SAID_TEXT = "each exit with an error comes after a message that is shown (logged at a level that is shown, printed, or given to sys.exit)"
ONE = "one-class"
ONE_TEXT = "no statement imports a class from a package's __init__ as a module of its own: the exception classes which are raised are those which the command line catches"
TREE = "punx.h5tree.Hdf5TreeView."
NTREE = "punx.nxdltree.NxdlTreeView."


def said(A, rep, r, name):
    n = 0
    for e in r.events:
        if e.kind != "exitcall":
            continue
        g = consistent(is_error(e))
        if g == F:
            continue
        n += 1
        seen = b_or(*[outside(m) for m, ts in messages(r) if m.seq <= e.seq])
        miss = consistent(b_and(g, b_not(seen)))
        rep.ob(SAID, "%s: exit of %s" % (e.where(), name), miss == F, e.where(), "no message when " + example(miss) if miss != F else None)
    return n


def C35(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    rep.rule(SAID, SAID_TEXT)
    rep.rule(ONE, ONE_TEXT)
    n = 0
    A, rc = validating(rep, (eff_error, eff_exit))
    n += said(A, rep, rc, "func_validate")
    A, rc = showing(rep, (eff_error, eff_exit))
    n += said(A, rep, rc, "func_tree")
    rep.floor("exits with an error", n, 8)
    # what these raise
    A = analysis("punx.utils.isNeXusFile", fail={"punx.utils.isNeXusFile": ("builtins.OSError",)})
    equivalent(A, rep, EQ, TREE + "__init__", "spec_cli.tree_init", [A.obj("view", "Hdf5TreeView"), A.obj("name")], (eff_raise,))
    A = analysis(NTREE + "_determine_category_")
    equivalent(A, rep, EQ, NTREE + "__init__", "spec_cli.nxdl_tree_init", [A.obj("view", "NxdlTreeView"), A.obj("name")], (eff_raise,))
    classes = {x.name for x in A.P.modules["punx"].tree.body if isinstance(x, ast.ClassDef)}
    for m in A.P.modules.values():
        if m.name.startswith("spec"):
            continue
        bad = [x for x in ast.walk(m.tree) if own_init(x, classes)]
        rep.ob(ONE, m.name, not bad, "%s:%s" % (m.name, bad[0].lineno) if bad else None, "imports a package's __init__ as another module")


def own_init(x, classes):
    if isinstance(x, ast.ImportFrom):
        if (x.module or "").split(".")[-1] == "__init__":
            return any(a.name in classes or a.name == "*" for a in x.names)
        return any(a.name == "__init__" for a in x.names)
    if isinstance(x, ast.Import):
        return any(a.name.split(".")[-1] == "__init__" for a in x.names)
    return False


SHOWING = (TREE + "__init__", TREE + "report", NTREE + "__init__", NTREE + "report")


def showing(rep, effects):
    A = analysis(*SHOWING)
    rc, rs = equivalent(A, rep, EQ, M + "func_tree", "spec_cli.run_tree", [A.obj("args")], effects)
    return A, rc


# ------------------------------------------------------------------ messages

VISIBLE = ("info", "warning", "warn", "error", "critical", "exception")


def messages(r):
    """what the user gets to see: (event, terms)"""
    for e in r.events:
        if e.kind == "log" and e.args["level"] in VISIBLE or e.kind == "print":
            yield e, [t for a in e.args["args"] for t in as_gv(a).leaves()]
        elif e.kind == "libm" and e.args["name"] in ("write", "error", "exit") and e.args["args"]:
            yield e, [t for a in e.args["args"] for t in as_gv(a).leaves()]
        elif e.kind == "exitcall":
            ts = [t for t in as_gv(e.args["code"]).leaves() if t.op != "c" or isinstance(cval(t), str)]
            if ts:
                yield e, ts


def outside(e):
    """the condition of an event without that of the loops it is in"""
    g = e.guard
    inner = {l.e for l in e.loops} | {l.t for l in e.loops}
    for v in sorted(support(g)):
        if any(x in inner for x in syms(ATOMS[v])):
            g = b_or(cofactor(g, v, True), cofactor(g, v, False))
    return g


def is_error(e):
    return b_or(*[b_and(e.guard, g) for t, g in as_gv(e.args["code"]).items if t not in (NONE, C(0), C(False))])


def unknown_file_set(rep, rule):
    A = analysis(*VALIDATING)
    rc, rs = equivalent(A, rep, EQ, M + "func_validate", "spec_cli.run_validate", [A.obj("args")],
                        (eff_exit, eff_calls(V_ + "Data_File_Validator"), eff_calls(V_ + "validate_xml")))
    known = set()
    for e in rs.events:
        if e.kind == "call" and e.args["func"].endswith(".all_file_sets"):
            known |= set(reified(A.I, rs, e.args["result"]).leaves()) if "result" in e.args else set()
    n = 0
    for e in rc.events:
        if e.kind != "exitcall":
            continue
        g = is_error(e)
        first = unknown(rs)
        g = consistent(b_and(g, first))
        if g == F:
            continue
        n += 1
        seen = b_or(*[outside(m) for m, ts in messages(rc) if m.seq <= e.seq and any(names_of(t, rc) for t in ts)])
        miss = consistent(b_and(g, b_not(seen)))
        rep.ob(rule, "%s: message before the exit" % e.where(), miss == F, e.where(), "not when " + example(miss) if miss != F else None)
    rep.floor("exits for an unknown file set", n, 1)


def unknown(rs):
    """the first condition of an exit of the reference: the name is not known"""
    for e in rs.events:
        if e.kind == "exitcall":
            return e.guard
    return F


KNOWN = "call:punx.cache_manager.CacheManager.all_file_sets"


def names_of(t, r):
    """the text is made of the keys of the known file sets"""
    def found(x):
        return x.op == "f" and x.args[0] == KNOWN or x.op == "a" and x.args[1] in ("all_file_sets", "NXDL_file_sets")

    def walk(x, indexed=False):
        if not isinstance(x, Term):
            return any(walk(y) for y in x) if isinstance(x, tuple) else False
        if found(x):
            return not indexed
        return any(walk(y, x.op == "i" and k == 0) for k, y in enumerate(x.args))

    return walk(t)


# ------------------------------------------------------------------ options

PARSER = "command-line-parser"
PARSER_TEXT = "the command line is read by a parser of the class which completes abbreviations, from the arguments of the process"
OPTION = "option-table"
OPTION_TEXT = "each subcommand has its function, and each option its flags, destination, action, type, number of values and default: those of OPTIONS in punxcheck/rules/cli.py"
HELP = "announced-default"
HELP_TEXT = "a help text that announces a default announces the default of that option"
WIRED = "option-used"
PARSE = M + "MyArgumentParser.parse_args"


def eff_parsed(I, r, name):
    """what is given to the parser of the library"""
    out = []
    for e in r.events:
        if e.kind == "setitem" and e.args["obj"] is mk("lib", "sys.argv"):
            out.append((e, "replaces", reified(I, r, e.args["key"]), reified(I, r, e.args["value"])))
    return out


def C36(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    rep.rule(SAID, SAID_TEXT)
    rep.rule(PARSER, PARSER_TEXT)
    A = analysis()
    given = [A.obj("parser", "MyArgumentParser"), A.obj("args"), A.obj("namespace")]
    rc, rs = equivalent(A, rep, EQ, PARSE, "spec_cli.parse_args", given, (eff_return, eff_error, eff_exit, eff_parsed))
    n = said(A, rep, rc, "parse_args")
    rep.floor("refusals", n, 1)
    parser(rep)


def parsing():
    A = analysis("punx.cache_manager.CacheManager", PARSE)
    return A, A.run(M + "parse_command_line_arguments", [])


def parser(rep):
    A, r = parsing()
    rep.analysed(r)
    n = 0
    for e in r.events:
        if e.kind == "libm" and e.args["name"] == "add_subparsers":
            n += 1
            c = [A.I.class_of(t) for t in as_gv(e.args["recv"]).leaves()]
            ok = all(k is not None and A.I.find_in_class(k, "parse_args")[1] is not None for k in c)
            rep.ob(PARSER, "%s: the parser of subcommands" % e.where(), ok and e.guard == T, e.where(), "is not of the class with its own parse_args")
    rep.floor("parsers with subcommands", n, 1)
    ok = r.state.pc != F
    for t, g in r.value.items:
        ok = ok and t.op == "f" and t.args[0] == "call:" + PARSE and all(x is NONE for x in t.args[2:])
    rep.ob(PARSER, "parse_command_line_arguments: its result", ok, "main.py", "is not what the parser makes of the arguments of the process")


# subcommand: (function, {destination: (flags, action, type, number of values, default)})
STORE = "store"
ALL = "all statuses"
OPTIONS = {
    "configuration": (M + "func_configuration", {}),
    "demonstrate": (M + "func_demo", {}),
    "install": (
        M + "func_install",
        {
            "file_set_name": ((), STORE, None, "*", "the main branch"),
            "update": (("--update", "-u"), "store_true", None, None, False),
        },
    ),
    "tree": (
        M + "func_tree",
        {
            "infile": ((), STORE, None, None, None),
            "show_attributes": (("-a",), "store_false", None, None, True),
            "max_array_items": (("--max_array_items", "-m"), STORE, "builtins.int", None, 5),
        },
    ),
    "validate": (
        M + "func_validate",
        {
            "infile": ((), STORE, None, None, None),
            "file_set_name": (("--file_set_name", "-f"), STORE, None, None, "the newest file set"),
            "report": (("--report",), STORE, None, None, ALL),
        },
    ),
}


def text(v):
    t = as_gv(v).single() if v is not None else None
    return cval(t) if t is not None and t.op == "c" else None


def subcommand_of(I, v):
    """the name of the subcommand whose parser (or group of it) this is; '' for the main parser"""
    t = as_gv(v).single()
    while t is not None and t.op == "f":
        if t.args[0] == "add_parser":
            name = t.args[2] if len(t.args) > 2 else None
            return cval(name) if name is not None and name.op == "c" else None
        if t.args[0] not in ("add_argument_group", "add_mutually_exclusive_group"):
            return None
        t = t.args[1]
    return "" if t is not None and is_parser(I, t) else None


def declared(I, r):
    """(subcommand, name) of option -> what is declared; problems"""
    opts, funcs, bad, defaults = {}, {}, [], []
    for e in r.events:
        if e.kind != "libm" or e.args["name"] not in ("add_argument", "set_defaults", "add_parser", "parse_args"):
            continue
        name, args, kw = e.args["name"], e.args["args"], e.args["kwargs"]
        if name == "add_parser":
            funcs.setdefault(text(args[0]) if args else None, None)
            if e.guard != T or text(args[0]) is None:
                bad.append((e, "a subcommand which is not always there, or has no constant name"))
            continue
        sub = subcommand_of(I, e.args["recv"])
        if sub is None or e.guard != T:
            bad.append((e, "declared for a parser that is not known, or not always"))
            continue
        if name == "set_defaults":
            for k, v in kw.items():
                if k == "func":
                    funcs[sub] = v
                else:
                    defaults.append((e, sub, k, v))
            continue
        flags = [text(a) for a in args]
        if not flags or None in flags:
            bad.append((e, "an option whose flags are not constant"))
            continue
        long = [f for f in flags if f.startswith("--")]
        dest = text(kw.get("dest")) or (long or flags)[0].lstrip("-").replace("-", "_")
        opts.setdefault((sub, dest), []).append((e, flags if flags[0].startswith("-") else [], kw))
    for e, sub, k, v in defaults:
        for d in opts.get((sub, k), []):
            d[2]["default"] = v
    return opts, funcs, bad


def default_of(kw, action):
    v = kw.get("default")
    if v is None:
        return V(C(action == "store_false")) if action in ("store_true", "store_false") else V(NONE)
    return v


def is_default(I, r, v, want):
    """the default is what it has to be"""
    if want == "the main branch":
        return all(elements(I, r, t) == ["main"] for t in as_gv(v).leaves())
    t = reified(I, r, v)
    if want == "the newest file set":
        return all(x.op == "a" and x.args[1] == "ref" and x.args[0].op == "a" and x.args[0].args[1] == "default_file_set" for x in as_gv(t).leaves())
    if want == ALL:
        return all(all_statuses(I, r, x) for x in as_gv(t).leaves())
    return as_gv(v).single() is C(want)


def elements(I, r, t):
    t = spread(I.reify(r.state, t))
    if isinstance(t, Term) and t.op == "list" and all(s.op == "seg" and not s.args[0] for s in t.args[0]):
        return [text(s.args[2]) if isinstance(s.args[2], (Term, GVal)) else None for s in t.args[0]]
    return [t]


def all_statuses(I, r, t):
    if t.op == "c":
        return isinstance(cval(t), str) and sorted(cval(t).split(",")) == sorted(STATUSES)
    if t.op == "f" and t.args[0] == "join" and t.args[1] is C(","):
        names = strip_seq(t.args[2])
        return all(I.contains(r.state, C(k), names) == T for k in STATUSES)
    return False


def announced(I, r, kw, v):
    """None, or what the help says instead of the default"""
    ts = as_gv(reified(I, r, kw["help"])).leaves() if "help" in kw else ()
    for t in ts:
        parts = list(t.args) if t.op == "cat" else [t]
        for k, p in enumerate(parts):
            if p.op != "c" or not isinstance(cval(p), str) or "default=" not in cval(p):
                continue
            said = cval(p).split("default=")[1]
            d = as_gv(reified(I, r, v)).leaves()
            for x in d:
                x = elements(I, r, x)[0]
                x = C(x) if not isinstance(x, Term) else x
                if said:
                    ok = x.op == "c" and said.startswith(str(cval(x)))
                else:
                    ok = k + 1 < len(parts) and parts[k + 1] is x
                if not ok:
                    return said or (parts[k + 1] if k + 1 < len(parts) else "nothing")
    return None


def C42(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    rep.rule(OPTION, OPTION_TEXT)
    rep.rule(HELP, HELP_TEXT)
    A, r = parsing()
    rep.analysed(r)
    I = A.I
    opts, funcs, bad = declared(I, r)
    for e, why in bad:
        rep.ob(OPTION, "%s: declaration" % e.where(), False, e.where(), why)
    for sub, (func, want) in OPTIONS.items():
        f = funcs.get(sub)
        ok = f is not None and as_gv(f).single() is class_term(I, func)
        rep.ob(OPTION, "%s: its function is %s" % (sub, func), ok, "main.py", "is %s" % (f,))
        for dest, (flags, action, typ, nargs, default) in want.items():
            ds = opts.get((sub, dest), [])
            name = "%s: option %s" % (sub, dest)
            rep.ob(OPTION, name + " is declared once", len(ds) == 1, "main.py", "declared %d times" % len(ds))
            if len(ds) != 1:
                continue
            e, have, kw = ds[0]
            act = text(kw["action"]) if "action" in kw else STORE
            rep.ob(OPTION, name + ": flags", set(flags) <= set(have) and bool(flags) == bool(have), e.where(), "are %s" % have)
            rep.ob(OPTION, name + ": action", act == action, e.where(), "is %s" % act)
            t = as_gv(kw["type"]).single() if "type" in kw else None
            ok = (t is None or t is NONE or t is lib("builtins.str")) if typ is None else t is lib(typ)
            rep.ob(OPTION, name + ": type", ok, e.where(), "is %s" % t)
            n = text(kw["nargs"]) if "nargs" in kw else None
            rep.ob(OPTION, name + ": number of values", n == nargs, e.where(), "is %s" % n)
            v = default_of(kw, act)
            rep.ob(OPTION, name + ": default", is_default(I, r, v, default), e.where(), "is %s, not %s" % (str(v)[:200], default))
            wrong = announced(I, r, kw, v)
            rep.ob(HELP, name, wrong is None, e.where(), "the help says %s" % wrong)
            for k in kw:
                if k not in ("action", "type", "nargs", "default", "help", "dest", "metavar"):
                    rep.ob(OPTION, name + ": no other restriction", False, e.where(), "has %s" % k)
    rep.floor("options", len(opts), 8)
    rep.floor("subcommands", len(funcs), 5)
    # what the functions do with them
    A = analysis(*VALIDATING)
    equivalent(A, rep, EQ, M + "func_validate", "spec_cli.run_validate", [A.obj("args")],
               (eff_calls(V_ + "Data_File_Validator", V_ + "validate_xml", V_ + "Data_File_Validator.validate"), eff_calls(PRINT, last=1), eff_statuses))
    A = analysis(*SHOWING)
    equivalent(A, rep, EQ, M + "func_tree", "spec_cli.run_tree", [A.obj("args")], (eff_calls(*SHOWING), eff_shown_items))
    A = analysis("punx.cache_manager.CacheManager", "punx.cache_manager.CacheManager.table_of_caches", DOWNLOAD, "punx.cache_manager.CacheManager.select_NXDL_file_set")
    equivalent(A, rep, EQ, M + "func_install", "spec_cli.run_install", [A.obj("args")], (eff_calls(DOWNLOAD),))
    A = analysis("punx.cache_manager.CacheManager", M + "func_validate", *SHOWING)
    equivalent(A, rep, EQ, M + "func_demo", "spec_cli.run_demo", [A.obj("args")], (eff_calls(M + "func_validate", *SHOWING), eff_options, eff_shown_items))
    A = analysis(M + "parse_command_line_arguments")
    equivalent(A, rep, EQ, M + "main", "spec_cli.run", [], (eff_called, eff_exit))


DOWNLOAD = "punx.cache_manager.download_file_set"


def eff_shown_items(I, r, name):
    """the number of array items of the tree which is reported, at the time of the report"""
    out = []
    for e in r.events:
        if e.kind == "setattr" and e.args["attr"] == "array_items_shown":
            later = [x for x in r.events if x.kind == "call" and x.args["func"] == TREE + "report" and x.seq > e.seq]
            if later:
                out.append((e, "shows at most", reified(I, r, e.args["value"])))
    return out


def eff_options(I, r, name):
    """the options in effect when validating"""
    out = []
    for e in r.events:
        if e.kind == "setattr" and e.args["attr"] in ("infile", "report", "file_set_name"):
            v = reified(I, r, e.args["value"])
            if e.args["attr"] == "report":
                v = V(C(ALL)) if all(all_statuses(I, r, x) for x in as_gv(e.args["value"]).leaves()) else v
            out.append((e, "chooses", C(e.args["attr"]), v))
    return out


def eff_called(I, r, name):
    return [(e, "calls", e.args["recv"], e.args["name"], *[reified(I, r, a) for a in e.args["args"]]) for e in r.events if e.kind == "libm" and e.args["name"] == "func"]


# ------------------------------------------------------------------ trees


def eff_fails(I, r, name):
    """that there is an error, of whatever class"""
    return [(e, "is an error") for e in r.events if e.kind == "escape" and e.args["cls"] is not lib("builtins.SystemExit")]


def eff_transformed(I, r, name):
    """which document is transformed with which stylesheet, and shown"""
    out = []
    for t, g in as_gv(reified(I, r, r.value)).items:
        for x in set(syms(t)):
            if x.op == "f" and x.args[0] == "call" and x.args[1].op == "f" and x.args[1].args[0] == "lxml.etree.XSLT":
                out.append((Pseudo(b_and(r.state.pc, g), name), "shows", *x.args[1:]))
    return out


def unparsed(r, qual):
    """conditions of failures to read XML"""
    vs = set()
    for e in r.events:
        vs |= support(e.guard)
    return [v for v in vs if ATOMS[v].op == "raises" and ATOMS[v].args[0].op == "f" and ATOMS[v].args[0].args[0] == qual]


def C40(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    rep.rule(SAID, SAID_TEXT)
    A = analysis("punx.cache_manager.CacheManager")
    view = [A.obj("view", "NxdlTreeView"), A.obj("show_attributes")]
    r = A.run(NTREE + "report", view)
    readable = b_and(*[b_not(atom(ATOMS[v])) for v in unparsed(r, "lxml.etree.parse")])
    rc, rs = equivalent(A, rep, EQ, NTREE + "report", "spec_cli.nxdl_report", view, (eff_transformed,), care=readable)
    rep.floor("transformed", len(eff_transformed(A.I, rc, "report")), 1)
    equivalent(A, rep, EQ, NTREE + "_determine_category_", "spec_cli.nxdl_category", view[:1], (eff_return, eff_fails))
    A = analysis(NTREE + "_determine_category_")
    equivalent(A, rep, EQ, NTREE + "__init__", "spec_cli.nxdl_tree_init", [A.obj("view", "NxdlTreeView"), A.obj("name")], (eff_fails, eff_file))
    A, rc = showing(rep, (eff_error, eff_exit, eff_calls(NTREE + "__init__", NTREE + "report")))
    said(A, rep, rc, "func_tree")


def eff_file(I, r, name):
    out = []
    for e in r.events:
        if e.kind == "setattr" and e.args["attr"] == "nxdl_category":
            out.append((e, "chooses", C("nxdl_category"), reified(I, r, e.args["value"])))
    for k, v in r.state.m.items():
        if k[0] == "h" and k[2] == "nxdl_file":
            out += [(Pseudo(b_and(r.state.pc, g), name), "shows", t) for t, g in v.items]
    return out
