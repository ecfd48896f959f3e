"""NXDL definitions (C08 - C16)."""
from ..analysis import Analysis
from ..core import *  # noqa: F401,F403
from ..equiv import *  # noqa: F401,F403
from ..interp import lib
from ..preds import consistent, p_eq
from .cache import eff_calls

EQ = "reference-function"
EQ_TEXT = "the function computed from the source has, for every input, the results, exceptions and effects of the reference function in punxcheck/spec/spec_nxdl.py"
N = "punx.nxdl_manager."
CM = "punx.cache_manager."
PARSERS = ("parse_symbols", "parse_attributes", "parse_groups", "parse_fields", "parse_links")


def analysis(*opaque):
    A = Analysis(["spec_nxdl"])
    for q in opaque:
        A.I.opaque[q] = None
    return A


def loading(A=None):
    A = analysis(CM + "CacheManager.all_file_sets", N + "get_NXDL_file_list", N + "NXDL__definition.__init__", N + "NXDL__definition.parse_nxdl_xml",
                 N + "NXDL_Manager.get_nxdl_defaults", "punx.schema_manager.SchemaManager.__init__")
    return A


CONTENT = {
    "NXDL__group": "group_content", "NXDL__attribute": "attribute_content", "NXDL__field": "field_content", "NXDL__dimensions": "dimensions_content",
    "NXDL__dim": "dim_content", "NXDL__link": "link_content", "NXDL__symbols": "symbols_content",
}


def C15(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    cls = "NXDL__definition"
    effects = (eff_raise, eff_state, eff_coll, eff_opaque)
    for m in PARSERS:
        A = analysis(*[N + c for c in KINDS], N + "NXDL__base.ensure_unique_name")
        for c in KINDS:
            A.I.opaque[N + c + ".parse_nxdl_xml"] = parsed
        equivalent(A, rep, EQ, N + "NXDL__base." + m, "spec_nxdl." + m, [A.obj("item", cls), A.obj("node")], effects)
    for c, spec in CONTENT.items():
        A = analysis(*[N + k for k in KINDS], N + "NXDL__base.ensure_unique_name", *[N + "NXDL__base." + p for p in PARSERS])
        for k in KINDS:
            if k != c:
                A.I.opaque[N + k + ".parse_nxdl_xml"] = parsed
        equivalent(A, rep, EQ, N + c + ".parse_nxdl_xml", "spec_nxdl." + spec, [A.obj("item", c), A.obj("node")], effects)
    A = analysis(N + "validate_xml_tree", *[N + "NXDL__base." + p for p in PARSERS])
    equivalent(A, rep, EQ, N + cls + ".parse_nxdl_xml", "spec_nxdl.parse_definition", [A.obj("item", cls)], effects)
    A = analysis()
    equivalent(A, rep, EQ, N + "NXDL__base.ensure_unique_name", "spec_nxdl.unique_name", [A.obj("item", cls), A.obj("obj", "NXDL__base")], effects)


def parsed(I, st, vals, node):
    """the content of the node is now in the object"""
    me, xml = list(vals.values())[:2]
    for o in me.leaves():
        c = I.class_of(o)
        for a in ("name", "symbols"):
            if a != "symbols" or (c is not None and c.name == "NXDL__symbols"):
                st.m[("h", o, a)] = V(mk("f", "parsed " + a, I.reify(st, xml)))
    return V(C(None))


KINDS = ("NXDL__attribute", "NXDL__field", "NXDL__group", "NXDL__link", "NXDL__symbols", "NXDL__dimensions", "NXDL__dim")


def eff_opaque(I, r, name):
    """calls of the functions which are looked at on their own"""
    out = []
    for e in r.events:
        if e.kind == "call" and e.args["func"] in I.opaque:
            a = e.args["args"]
            out.append((e, "calls %s" % e.args["func"], *[reified(I, r, v) for v in a.values()]))
    return out


def C13(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    A = loading()
    equivalent(A, rep, EQ, N + "NXDL_Manager.__init__", "spec_nxdl.manager_init", [A.obj("manager", "NXDL_Manager"), A.obj("file_set")],
               (eff_raise, eff_state, eff_coll, eff_opaque))
    A = analysis()
    equivalent(A, rep, EQ, N + "get_NXDL_file_list", "spec_nxdl.definition_files", [A.obj("directory")], (eff_return, eff_raise))
    equivalent(A, rep, EQ, N + "NXDL__definition.set_file", "spec_nxdl.set_file", [A.obj("definition", "NXDL__definition"), A.obj("name")], (eff_raise, eff_state, eff_coll))


INVALID = ("punx.InvalidNxdlFile",)
VT = N + "validate_xml_tree"
SPLIT = ("lxml.etree.parse", "assertValid")


def invalid_raises(A, *quals):
    for q in quals:
        A.I.opaque[q] = failing(q, INVALID)
    A.I.splitting |= set(SPLIT)
    return A


def C14(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    A = analysis("punx.schema_manager.SchemaManager.__init__", "punx.schema_manager.get_default_schema_manager")
    equivalent(A, rep, EQ, VT, "spec_nxdl.validate_tree", [A.obj("tree"), A.obj("file_set")], (eff_raise, eff_opaque, eff_method("assertValid")))
    A = invalid_raises(analysis(), VT)
    equivalent(A, rep, EQ, "punx.validate.validate_xml", "spec_nxdl.validate_file", [A.obj("name"), A.obj("file_set")], (eff_raise, eff_opaque))
    A = invalid_raises(analysis(*[N + "NXDL__base." + p for p in PARSERS]), VT)
    equivalent(A, rep, EQ, N + "NXDL__definition.parse_nxdl_xml", "spec_nxdl.parse_definition", [A.obj("item", "NXDL__definition")], (eff_raise, eff_state, eff_coll, eff_opaque))
    A = invalid_raises(loading(), N + "NXDL__definition.parse_nxdl_xml")
    equivalent(A, rep, EQ, N + "NXDL_Manager.__init__", "spec_nxdl.manager_init", [A.obj("manager", "NXDL_Manager"), A.obj("file_set")], (eff_raise, eff_opaque))
    A = invalid_raises(analysis(), N + "NXDL_Manager.__init__")
    equivalent(A, rep, EQ, "punx.validate.Data_File_Validator.__init__", "spec_nxdl.validator_init", [A.obj("validator", "Data_File_Validator"), A.obj("ref")], (eff_raise, eff_opaque))
    from . import cli

    cli.validating(rep, (cli.eff_exit, cli.eff_error, cli.eff_calls(cli.V_ + "validate_xml")))


# ------------------------------------------------------------------ C08


def only(eff, *attrs):
    """of an effect on attributes, only these attributes"""

    def f(I, r, name):
        return [x for x in eff(I, r, name) if any(isinstance(a, Term) and a.op == "c" and cval(a) in attrs for a in x[2:])]

    return f


VI = "punx.validate.Data_File_Validator.__init__"


def uses_manager(rep, effects=(eff_raise, eff_opaque)):
    A = analysis(N + "NXDL_Manager.__init__")
    equivalent(A, rep, EQ, VI, "spec_nxdl.validator_init", [A.obj("validator", "Data_File_Validator"), A.obj("ref")], effects)


def manager_file_set(rep, *raises):
    A = loading()
    equivalent(A, rep, EQ, N + "NXDL_Manager.__init__", "spec_nxdl.manager_init", [A.obj("manager", "NXDL_Manager"), A.obj("file_set")],
               (only(eff_state, "nxdl_file_set"), *raises))


def C08(ctx, rep):
    from . import cache

    cache.C08(ctx, rep)
    manager_file_set(rep)
    A = loading()
    equivalent(A, rep, EQ, N + "NXDL_Manager.__init__", "spec_nxdl.manager_init", [A.obj("manager", "NXDL_Manager")], (only(eff_state, "nxdl_file_set"), eff_raise))
    A = analysis(N + "NXDL_Manager.__init__")
    equivalent(A, rep, EQ, VI, "spec_nxdl.validator_init", [A.obj("validator", "Data_File_Validator")], (eff_raise, eff_opaque))
    A = analysis("punx.schema_manager.SchemaManager.__init__")
    equivalent(A, rep, EQ, VT, "spec_nxdl.validate_tree", [A.obj("tree")], (eff_raise, eff_method("assertValid")))
    A = analysis("punx.schema_manager.Schema_Root.__init__")
    equivalent(A, rep, EQ, "punx.schema_manager.SchemaManager.__init__", "spec_nxdl.schema_init", [A.obj("schemas", "SchemaManager")], (only(eff_state, "schema_file", "lxml_schema"),))


# ------------------------------------------------------------------ C09

NAMES = "message-names-file-sets"
NAMES_TEXT = "whenever the command line ends because the file set is not known, a message was shown before which is made of the names of all the known file sets"


def eff_keyerror(I, r, name):
    return [x for x in eff_raise(I, r, name) if x[2] is lib("builtins.KeyError")]


def C09(ctx, rep):
    from . import cli

    rep.rule(EQ, EQ_TEXT)
    rep.rule(NAMES, NAMES_TEXT)
    manager_file_set(rep, eff_keyerror)
    uses_manager(rep)
    cli.unknown_file_set(rep, NAMES)


# ------------------------------------------------------------------ C10

OWN = "own-file-set"
OWN_TEXT = (
    "no function reached from Data_File_Validator.validate or print_report constructs or asks a cache manager, asks for the default schema, or makes another manager of definitions"
)


def C10(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    rep.rule(OWN, OWN_TEXT)
    manager_file_set(rep)
    uses_manager(rep)
    A = analysis("punx.nxdl_schema.NXDL_Summary.__init__")
    equivalent(A, rep, EQ, N + "NXDL_Manager.get_nxdl_defaults", "spec_nxdl.defaults", [A.obj("manager", "NXDL_Manager")], (eff_return, eff_raise))
    A = analysis("punx.schema_manager.SchemaManager.__init__", "punx.schema_manager.get_default_schema_manager")
    equivalent(A, rep, EQ, VT, "spec_nxdl.validate_tree", [A.obj("tree"), A.obj("file_set")], (eff_method("assertValid"),))
    A = analysis(VT, *[N + "NXDL__base." + p for p in PARSERS])
    equivalent(A, rep, EQ, N + "NXDL__definition.parse_nxdl_xml", "spec_nxdl.parse_definition", [A.obj("item", "NXDL__definition")], (calls_of(VT),))
    A = loading()
    equivalent(A, rep, EQ, N + "NXDL_Manager.__init__", "spec_nxdl.manager_init", [A.obj("manager", "NXDL_Manager"), A.obj("file_set")],
               (only(eff_state, "nxdl_defaults", "classes"), calls_of(N + "get_NXDL_file_list", N + "NXDL__definition.__init__", N + "NXDL_Manager.get_nxdl_defaults")))
    A = analysis("punx.schema_manager.SchemaManager.__init__")
    equivalent(A, rep, EQ, CM + "NXDL_File_Set.__getattribute__", "spec_nxdl.file_set_attribute", [A.obj("file_set", "NXDL_File_Set"), C("schema_manager")], (eff_state, eff_raise, eff_opaque))
    A = analysis("punx.schema_manager.Schema_Root.__init__")
    equivalent(A, rep, EQ, "punx.schema_manager.SchemaManager.__init__", "spec_nxdl.schema_init", [A.obj("schemas", "SchemaManager"), A.obj("path")],
               (only(eff_state, "schema_file", "lxml_schema"), eff_opaque))
    own_file_set(ctx, rep)


def calls_of(*quals):
    return lambda I, r, name: [x for x in eff_opaque(I, r, name) if x[0].args["func"] in quals]


# ------------------------------------------------------------------ C12


def C12(ctx, rep):
    """the part of the reading of NXDL files that is about what is required"""
    rep.rule(EQ, EQ_TEXT)
    attrs = ("minOccurs", "default_value")
    eff = (only(eff_state, *attrs), only(eff_set, *attrs), eff_opaque)
    for m in ("parse_attributes", "parse_groups", "parse_fields"):
        A = analysis(*[N + c for c in KINDS], N + "NXDL__base.ensure_unique_name")
        for c in KINDS:
            A.I.opaque[N + c + ".parse_nxdl_xml"] = parsed
        equivalent(A, rep, EQ, N + "NXDL__base." + m, "spec_nxdl." + m, [A.obj("item", "NXDL__definition"), A.obj("node")], eff)
    for c in ("NXDL__group", "NXDL__field", "NXDL__attribute"):
        A = analysis(*[N + k for k in KINDS], N + "NXDL__base.ensure_unique_name", *[N + "NXDL__base." + p for p in PARSERS])
        for k in KINDS:
            if k != c:
                A.I.opaque[N + k + ".parse_nxdl_xml"] = parsed
        equivalent(A, rep, EQ, N + c + ".parse_nxdl_xml", "spec_nxdl." + CONTENT[c], [A.obj("item", c), A.obj("node")], eff)
    A = analysis()
    equivalent(A, rep, EQ, N + "NXDL__definition.set_file", "spec_nxdl.set_file", [A.obj("definition", "NXDL__definition"), A.obj("name")], (only(eff_state, "category"),))


REPORTS = "header"
REPORTS_TEXT = "print_report shows, in every report, the name, date and commit of the file set of the validator's own definitions"
PRINT = "punx.validate.Data_File_Validator.print_report"


def elsewhere(f):
    """functions which choose a file set"""
    return f.module.name == "punx.cache_manager" and f.qual.split(".")[0] in ("CacheManager", "SourceCache", "UserCache") or \
        f.module.name + "." + f.qual in ("punx.schema_manager.get_default_schema_manager", N + "NXDL_Manager.__init__")


def own_file_set(ctx, rep):
    from .cli import messages, outside

    rep.rule(REPORTS, REPORTS_TEXT)
    W = ctx.validation()
    A = Analysis(["spec_util"])
    v = A.obj("validator", "Data_File_Validator")
    A.I.opaque["punx.validate.Data_File_Validator.finding_summary"] = None
    A.I.opaque["punx.validate.Data_File_Validator.finding_score"] = None
    r = A.run(PRINT, [v, A.obj("statuses")])
    for res in (W.r, r):
        rep.analysed(res)
        seen = {}
        for e in res.events:
            if e.kind == "enter_fn" and e.args["func"].where() not in seen:
                f = e.args["func"]
                seen[f.where()] = e
                rep.ob(OWN, f.where(), not elsewhere(f), e.where(), "reached from the validation" if elsewhere(f) else None)
        for e in res.events:
            if e.kind == "new" or e.kind == "call" and e.args["func"].startswith(CM + "CacheManager"):
                c = e.args.get("cls")
                if c is not None and "CacheManager" in show(c) or e.kind == "call":
                    rep.ob(OWN, "cache manager made", False, e.where(), show(c) if c is not None else e.args["func"])
    fs = mk("a", mk("a", v, "manager"), "nxdl_file_set")
    for a in ("ref", "last_modified", "sha"):
        want = mk("a", fs, a)
        g = b_or(*[outside(e) for e, ts in messages(r) if any(want in set(syms(t)) for t in ts)])
        miss = consistent(b_and(r.state.pc, b_not(g)))
        rep.ob(REPORTS, "print_report shows validator.manager.nxdl_file_set." + a, miss == F, "punx/validate.py:print_report", "not when " + example(miss) if miss != F else None)


# ------------------------------------------------------------------ C16

WHOLE = "whole-name"
WHOLE_TEXT = "each match with a name pattern, anywhere in a validation, is a match of the whole text, of text only, with nothing but the strict pattern or a pattern of the validator's file set"
MEMO = "remembered-patterns"
MEMO_TEXT = "what is remembered under a key is always the pattern of which the key is made"
SAME = "same-matches"
SAME_TEXT = "the table of findings depends on the same matches as the reference table, finding by finding"
STRICT = "[a-z_][a-z0-9_]*"
REGEX = ("match", "fullmatch", "search", "findall", "finditer", "sub", "split_re")


def regexes(g):
    return {x for v in support(g) for x in syms(ATOMS[v]) if x.op == "f" and x.args[0] in ("match", "fullmatch", "search", "findall", "finditer")}


def C16(ctx, rep):
    from ..analysis import is_text

    rep.rule(EQ, EQ_TEXT)
    rep.rule(WHOLE, WHOLE_TEXT)
    rep.rule(MEMO, MEMO_TEXT)
    rep.rule(SAME, SAME_TEXT)
    W = ctx.validation()
    rep.analysed(W.r)
    schema = mk("a", mk("a", mk("a", mk("a", W.v, "manager"), "nxdl_file_set"), "schema_manager"), "nxdl")
    pats = mk("a", schema, "patterns")

    def known(p):
        if p is C(STRICT):
            return True
        while p.op in ("elem", "i"):
            if p.op == "i" and p.args[0].op == "a" and p.args[0].args[1] == "re_list" or p.op == "elem" and p.args[0].op == "a" and p.args[0].args[1] == "re_list":
                q = p.args[0].args[0]
                return q.op == "i" and q.args[0] is pats and q.args[1].op == "c"
            p = p.args[0]
        return False

    n = 0
    for e in W.r.events:
        if e.kind == "libm" and e.args["name"] in REGEX and any(t.op == "f" and t.args[0] == "re" for t in as_gv(e.args["recv"]).leaves()):
            recv, subj = as_gv(e.args["recv"]), e.args["args"][0] if e.args["args"] else V(NONE)
        elif e.kind == "lib" and e.args["name"].startswith("re.") and e.args["name"][3:] in REGEX:
            recv, subj = g_map(lambda t: mk("f", "re", t), e.args["args"][0]), e.args["args"][1]
        else:
            continue
        for t, g in recv.items:
            if t.op != "f" or t.args[0] != "re":
                continue
            n += 1
            ok = len(t.args) == 2 and known(t.args[1])
            rep.ob(WHOLE, "pattern " + show(t)[:200], ok, e.where(), None if ok else "is not the strict pattern, nor one of the validator's file set")
            for s, h in subj.items:
                gg = consistent(b_and(e.guard, g, h, b_not(T if is_text(s) else atom(mk("isinst", s, lib("builtins.str"))))))
                rep.ob(WHOLE, "text " + show(s)[:200], gg == F, e.where(), "may not be text: " + example(gg) if gg != F else None)
    rep.floor("matches", n, 2)
    seen = set()
    for r in W.code:
        for x in regexes(r.guard):
            if (x, r.key()) not in seen:
                seen.add((x, r.key()))
                rep.ob(WHOLE, "%s decides %s" % (show(x)[:200], r.text()[:120]), x.args[0] == "fullmatch", r.events[0].where(), "does not match the whole text")
    for e, k, a, b in W.r.memo_bad:
        rep.ob(MEMO, show(k)[:200], False, e.where(), "%s, or %s" % (a, b))
    rep.ob(MEMO, "dictionaries: " + ", ".join(sorted(W.r.memo)), True)
    code, spec = {}, {}
    for d, rs in ((code, W.code), (spec, W.spec)):
        for r in rs:
            d.setdefault(r.key(), []).append(r)
    bad = {d.key: d for d in W.diffs}
    for k, rs in spec.items():
        want = set().union(*[regexes(r.guard) for r in rs])
        if not want:
            continue
        d = bad.get(k)
        have = set().union(*[regexes(r.guard) for r in code.get(k, [])]) if k in code else set()
        ok = d is None or have == want
        rep.ob(SAME, rs[0].text()[:200], ok, d.where() if d is not None else None, d.text() if not ok else None)
    A = analysis()
    equivalent(A, rep, EQ, "punx.schema_manager.SchemaManager.parse_nxdl_patterns", "spec_nxdl.patterns", [A.obj("schemas", "SchemaManager")], (eff_return, eff_raise, eff_set, eff_coll))
    A = analysis(N + "NXDL_Manager.__init__")
    equivalent(A, rep, EQ, VI, "spec_nxdl.validator_init", [A.obj("validator", "Data_File_Validator"), A.obj("ref")], (only(eff_state, "regexp_cache"),))
    schema_patterns(rep)


def schema_patterns(rep):
    """the patterns of a schema are those parsed from its own file"""
    S = "punx.schema_manager."
    A = analysis(S + "SchemaManager.parse_nxdl_patterns", S + "SchemaManager.parse_nxdlTypes", S + "_Mixin.__init__", S + "_Mixin.get_named_node", S + "Schema_Attribute.__init__", S + "Schema_Root.parse_attributeGroup",
                 S + "Schema_Root.parse_sequence", S + "Schema_Root.parse_attribute", S + "Schema_Element.__init__", S + "Schema_Type.__init__")
    root, m = A.obj("root", "Schema_Root"), A.obj("schemas", "SchemaManager")
    q = S + "Schema_Root.__init__"
    r = A.run(q, [root, A.obj("element_node")], {"schema_manager": V(m)})
    rep.analysed(r)
    want = F
    v = r.state.m.get(("h", root, "patterns"))
    for t, g in v.items if v is not None else ():
        if t.op == "f" and t.args[0] == "call:" + S + "SchemaManager.parse_nxdl_patterns" and t.args[1] is m:
            want = b_or(want, g)
    miss = consistent(b_and(r.state.pc, b_not(want), b_not(p_eq(m, NONE))))
    rep.ob(WHOLE, "Schema_Root.patterns are those of its schema manager", miss == F, "punx/schema_manager.py:Schema_Root.__init__", "not when " + example(miss) if miss != F else None)
