"""The catalog of a data file (C17)."""
from ..analysis import Analysis
from ..core import *  # noqa: F401,F403
from ..equiv import *  # noqa: F401,F403
from ..equiv import as_gv
from ..preds import p_eq, p_truthy
from ..validation import recursive_functions
from .trees import PREDS, known
from .util import predicates

EQ = "reference-function"
EQ_TEXT = "the catalogued objects, their parts and the findings computed from the source are, for every group, those of the reference function in punxcheck/spec/spec_catalog.py"
V_ = "punx.validate.Data_File_Validator."
ITEM = "punx.validate.ValidationItem"
PARTS = ("parent", "h5_object", "name", "h5_address", "classpath", "nx_class")


def eff_catalogued(I, r, name):
    """under which addresses and class paths objects are filed"""
    out = []
    for e in r.events:
        if e.kind == "setitem":
            for c in as_gv(e.args["obj"]).leaves():
                if c.op == "a" and c.args[1] in ("addresses", "classpaths"):
                    out.append((e, "files in " + c.args[1], reified(I, r, e.args["key"]), reified(I, r, e.args["value"])))
        elif e.kind == "append":
            for c in as_gv(e.args["coll"]).leaves():
                if c.op == "i" and c.args[0].op == "a" and c.args[0].args[1] in ("addresses", "classpaths"):
                    out.append((e, "adds to " + c.args[0].args[1], c.args[1], reified(I, r, e.args["value"])))
        elif e.kind in ("delitem", "clear"):
            for c in as_gv(e.args["obj"]).leaves():
                if any(x.op == "a" and x.args[1] in ("addresses", "classpaths") for x in syms(c)):
                    out.append((e, "removes from", c))
    return out


def eff_warned(I, r, name):
    out = []
    for e in r.events:
        if e.kind == "call" and e.args["func"] == V_ + "record_finding":
            a = e.args["args"]
            out.append((e, "finding", reified(I, r, a["v_item"]), reified(I, r, a["status"])))
    return out


def eff_inside(I, r, name):
    return [(e, "catalogues the members", *[reified(I, r, v) for k, v in list(e.args["args"].items())[1:]]) for e in r.events if e.kind == "reccall"]


def eff_parts(I, r, name):
    return [x for x in eff_state(I, r, name) if x[2] is mk("p", "self") and cval(x[3]) in PARTS]


def made(I, st, vals, node):
    """what an item keeps of what it is made of (decided below)"""
    o = vals["self"].single()
    st.m[("h", o, "h5_object")] = vals["obj"]
    st.m[("h", o, "parent")] = vals["parent"]


def above(I, st, vals, node):
    """whether a group is one of those which contain an item"""
    group, coll = [I.reify(st, v) for v in vals.values()]
    return V(mk("f", "call:punx.utils.isHdf5Ancestor", group, *([coll] if walk(coll) is None else [mk("f", "objects above", walk(coll))])))


def walk(t):
    """the item from which a walk up through the parents, which collects their objects, starts"""
    if t.op in ("list", "tuple", "set") and len(t.args[0]) == 1 and t.args[0][0].op == "seg":
        loops, _, v = t.args[0][0].args[:3]
        if len(loops) == 1 and v.op == "a" and v.args[1] == "h5_object" and v.args[0].op == "carry":
            start, nxt = v.args[0].args[2].args
            if nxt.op == "a" and nxt.args[1] == "parent" and nxt.args[0].op == "hole":
                return start
    if t.op == "list" and len(t.args[0]) == 2 and all(s.op == "seg" for s in t.args[0]):
        # the item itself first, then its parents until there is none
        own, up = t.args[0]
        v = up.args[2]
        if not own.args[0] and own.args[3].args[0] == T and len(up.args[0]) == 1 and v.op == "a" and v.args[1] == "h5_object":
            p = v.args[0]
            if p.op == "a" and p.args[1] == "parent" and p.args[0].op == "carry" and up.args[3].args[0] == b_not(p_eq(p, NONE)):
                start, nxt = p.args[0].args[2].args
                same = own.args[2] is mk("a", start, "h5_object") or start.op == "f" and start.args[0] == "made" and len(start.args) > 3 and own.args[2] is start.args[3]
                if nxt.op == "a" and nxt.args[1] == "parent" and nxt.args[0].op == "hole" and same:
                    return start
    return None


def walked(x):
    """where a loop without an iterable ends, or the parent of that"""
    x = x.args[0] if x.op == "a" and x.args[1] == "parent" else x
    return x.op == "fold" and x.args[0].op == "f" and x.args[0].args[0] == "while"


def ends():
    """a walk up through the parents ends at the item which has none"""
    care = T
    for a in list(ATOMS):
        if a.op == "eq" and NONE in a.args and any(walked(x) for x in a.args):
            care = b_and(care, atom(a))
    return care


def eff_recursion(I, r, name):
    return [(e, "catalogues", *[reified(I, r, v) for v in e.args["args"].values()]) for e in r.events if e.kind == "call" and e.args["func"].startswith(V_)]


def asked(A):
    """how items are made: of the file, of a member of a group or of an attribute (decided above)"""
    parent, obj, attribute, link = [mk("p", x) for x in ("parent", "obj", "attribute_name", "link_name")]
    none = [p_eq(x, NONE) for x in (parent, attribute, link)]
    start = b_and(none[0], none[1], none[2], p_eq(mk("a", obj, "name"), C("/")))
    member = b_and(b_not(none[0]), none[1], b_not(none[2]), b_not(p_eq(link, C("/"))))
    attr = b_and(b_not(none[0]), b_not(none[1]), none[2])
    named = atom(mk("hasattr", obj, C("name")))
    path = p_truthy(mk("f", "endswith", mk("a", parent, "classpath"), C("/")))  # no name and no NeXus class ends so
    return b_and(b_not(path), b_or(b_and(b_or(start, member), named), b_and(attr, b_not(named))))


def C17(ctx, rep):
    predicates(rep, PREDS)
    rep.rule(EQ, EQ_TEXT)
    A = Analysis(["spec_catalog"])
    rec = [f for f in recursive_functions(A, "punx.validate")]
    if len(rec) != 1:
        raise AnalysisBroken("not one recursive catalog function in punx.validate: " + ", ".join(f.qual for f in rec))
    q = rec[0].module.name + "." + rec[0].qual
    known(A)
    A.I.opaque["punx.utils.getHdf5Member"] = A.I.opaque[V_ + "record_finding"] = None
    A.I.opaque[ITEM] = made
    A.I.opaque["punx.utils.isHdf5Ancestor"] = above
    args = [A.obj("validator", "Data_File_Validator"), A.obj("parent"), A.obj("group"), A.obj("name")]
    A.run(q, args)
    A.run("spec_catalog.group", args)
    rc, rs = equivalent(A, rep, EQ, q, "spec_catalog.group", args, (eff_raise, eff_catalogued, eff_warned, eff_inside), care=ends())
    rep.floor("catalogued", len(eff_catalogued(A.I, rc, q)), 4)
    A = Analysis(["spec_catalog"])
    equivalent(A, rep, EQ, V_ + "build_address_catalog", "spec_catalog.start", [A.obj("validator", "Data_File_Validator")], (eff_raise, eff_recursion))
    A = Analysis(["spec_catalog"])
    equivalent(A, rep, EQ, "punx.utils.getHdf5Member", "spec_catalog.member", [A.obj("group"), A.obj("name")])
    A = Analysis(["spec_catalog"])
    known(A)
    A.I.opaque["punx.utils.decode_byte_string"] = None
    args = [A.obj("self", "ValidationItem"), A.obj("parent", "ValidationItem"), A.obj("obj"), A.obj("attribute_name"), A.obj("link_name")]
    rc, rs = equivalent(A, rep, EQ, ITEM + ".__init__", "spec_catalog.item", args, (eff_parts, eff_raise), care=asked(A))
