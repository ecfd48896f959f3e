"""What is read from the XML schema (C44, C45)."""
import ast

from ..analysis import Analysis
from ..core import *  # noqa: F401,F403
from ..equiv import *  # noqa: F401,F403
from .nxdl import eff_opaque, only

EQ = "reference-function"
EQ_TEXT = "the function computed from the source has, for every schema, the results, exceptions and effects of the reference function in punxcheck/spec/spec_schema.py"
S = "punx.nxdl_schema."
N = "punx.nxdl_manager."
EFFECTS = (eff_raise, eff_state, eff_coll, eff_opaque)
ONE = {
    "NXDL_schema__attribute": "attribute", "NXDL_schema__attributeGroup": "attribute_group", "NXDL_schema__element": "element",
    "NXDL_schema__group": "group", "NXDL_schema_named_simpleType": "simple_type",
}
PARTS = {
    "_parse_attribute": "type_attribute", "_parse_attributeGroup": "type_attribute_group", "_parse_complexContent": "type_content",
    "_parse_element": "type_element", "_parse_extension": "type_extension", "_parse_group": "type_group", "_parse_sequence": "type_sequence",
}


def analysis(*opaque):
    A = Analysis(["spec_schema"])
    for q in opaque:
        A.I.opaque[q] = None
    return A


def eff_made(I, r, name):
    """attributes of the objects that are made or found"""
    return [(*x[:3], C(x[3]), x[4]) for x in eff_set(I, r, name) if x[2].op != "p" and x[3] != "*"]


def eff_named(I, r, name):
    """attributes with names that are computed"""
    return [(e, "sets", e.args["obj"], reified(I, r, e.args["name"]), reified(I, r, e.args["value"])) for e in r.events if e.kind == "setattr" and e.args["attr"] == "*"]


def eff_again(I, r, name):
    """what a function is called again with"""
    return [(e, "goes on with", *[reified(I, r, a) for a in e.args["args"].values()]) for e in r.events if e.kind == "reccall"]


def C44(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    made = [S + c for c in ("NXDL_schema__attribute", "NXDL_schema__element")]
    for c, spec in ONE.items():
        A = analysis(*made, *[m + ".parse" for m in made])
        equivalent(A, rep, EQ, S + c + ".parse", "spec_schema." + spec, [A.obj("item", c), A.obj("node")], EFFECTS)
    T = "NXDL_schema__complexType"
    for m, spec in PARTS.items():
        A = analysis(*[S + T + "." + x for x in PARTS if x != m])
        equivalent(A, rep, EQ, S + T + "." + m, "spec_schema." + spec, [A.obj("item", T), A.obj("node"), A.obj("catalog")], EFFECTS)
    A = analysis(*[S + T + "." + x for x in PARTS])
    equivalent(A, rep, EQ, S + T + ".parse", "spec_schema.complex_type", [A.obj("item", T), A.obj("node"), A.obj("catalog")], EFFECTS)
    for c, spec in dict(ONE, NXDL_schema__complexType="complex_type").items():
        A = analysis()
        kept = sorted(assigned(A, spec + "_made"))
        equivalent(A, rep, EQ, S + c + ".__init__", "spec_schema.%s_made" % spec, [A.obj("item", c)], (eff_raise, only(eff_state, *kept)))
    catalog(ctx, rep)
    defaults(ctx, rep)


def assigned(A, spec):
    """the attributes that the reference assigns"""
    f = A.I.func_of(A.I.find_func("spec_schema." + spec))
    return {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)}


CATALOG = {
    "_parse_nxdl_simpleType_nodes": "simple_types", "_parse_nxdl_attribute_nodes": "attributes", "_parse_nxdl_attributeGroup_nodes": "attribute_groups",
    "_parse_nxdl_element_nodes": "elements", "_parse_nxdl_group_nodes": "groups", "_parse_nxdl_complexType_nodes": "complex_types",
}
ITEMS = (*ONE, "NXDL_schema__complexType")


def catalog(ctx, rep):
    T = "NXDL_item_catalog"
    for m, spec in CATALOG.items():
        A = analysis(*[S + c for c in ITEMS], *[S + c + ".parse" for c in ITEMS], S + T + ".add_to_catalog")
        equivalent(A, rep, EQ, S + T + "." + m, "spec_schema." + spec, [A.obj("catalog", T), A.obj("root")], (*EFFECTS, eff_made))
    A = analysis()
    equivalent(A, rep, EQ, S + T + ".add_to_catalog", "spec_schema.keep", [A.obj("catalog", T), A.obj("node"), A.obj("obj"), A.obj("key")], EFFECTS)
    A = analysis(*[S + T + "." + m for m in CATALOG], S + T + "._init_definition_element")
    equivalent(A, rep, EQ, S + T + ".__init__", "spec_schema.catalog", [A.obj("catalog", T), A.obj("name")], EFFECTS)
    A = analysis()
    equivalent(A, rep, EQ, S + T + "._init_definition_element", "spec_schema.start", [A.obj("catalog", T), A.obj("root")], (eff_raise, eff_made, only(eff_state, "definition_element"), eff_coll, eff_again))
    T = "NXDL_Summary"
    A = analysis(S + T + ".build_tree")
    equivalent(A, rep, EQ, S + T + ".build_tree", "spec_schema.tree", [A.obj("summary", T), A.obj("obj")],
               (eff_raise, only(eff_state, "attributes", "components", "groups"), eff_coll, eff_opaque))
    A = analysis(S + T + ".build_tree", S + "NXDL_item_catalog")
    equivalent(A, rep, EQ, S + T + ".setup", "spec_schema.summary", [A.obj("summary", T), A.obj("name")], EFFECTS)


def defaults(ctx, rep):
    B = N + "NXDL__base."
    for c in ("definition", "attribute", "field", "group", "dimensions", "dim"):
        A = analysis(B + "parse_xml_attributes", B + "assign_defaults")
        equivalent(A, rep, EQ, N + "NXDL__%s._init_defaults_from_schema" % c, "spec_schema.of_" + c, [A.obj("item", "NXDL__" + c), A.obj("defaults")], EFFECTS)
    for m, spec in (("parse_xml_attributes", "declared"), ("assign_defaults", "required_now")):
        A = analysis()
        args = [A.obj("item", "NXDL__base")] + ([A.obj("defaults")] if m != "assign_defaults" else [])
        equivalent(A, rep, EQ, B + m, "spec_schema." + spec, args, (*EFFECTS, eff_named))


SM = "punx.schema_manager."
MADE = ("Schema_Root", "Schema_Attribute", "Schema_Element", "Schema_Type", "Schema_nxdlType", "Schema_pattern", "_Recursion")
METHODS = {
    "SchemaManager": {"parse_nxdl_patterns": "patterns", "parse_nxdlTypes": "types", "__init__": "manager"},
    "Schema_pattern": {"__init__": "pattern_made"},
    "Schema_nxdlType": {"__init__": "nxdl_type"},
    "Schema_Attribute": {"__init__": "the_attribute"},
    "Schema_Element": {"__init__": "one_element"},
    "Schema_Root": {"__init__": "root_type", "parse_sequence": "root_members"},
    "Schema_Type": {"__init__": "named_type", "parse_sequence": "type_members"},
    "_Mixin": {"get_named_node": "named", "copy_to": "copied", "parse_attribute": "one_attribute", "parse_attributeGroup": "one_reference",
               "parse_complexContent": "content", "parse_group": "one_reference"},
}


def C45(ctx, rep):
    rep.rule(EQ, EQ_TEXT)
    for c, ms in METHODS.items():
        for m, spec in ms.items():
            others = [SM + k + "." + x for k, xs in METHODS.items() for x in xs if x != "__init__" and (k, x) != (c, m)]
            A = analysis(*others, *[SM + k for k in MADE])
            f = A.I.func_of(A.I.find_func(SM + c + "." + m))
            args = [A.obj(p, c) if i == 0 else A.obj(p) for i, p in enumerate(f.params())]
            kept = sorted(assigned(A, spec))
            effects = (eff_return, eff_raise, only(eff_state, *kept), eff_coll, only(eff_made, *kept), eff_opaque)
            equivalent(A, rep, EQ, SM + c + "." + m, "spec_schema." + spec, args, effects)
    A = analysis()
    equivalent(A, rep, EQ, SM + "raise_error", "spec_schema.refused", [A.obj("node"), A.obj("text"), A.obj("obj")], (eff_raise,))
