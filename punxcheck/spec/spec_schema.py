"""Reference behaviour: what is read from the XML schema.  Analysed, never executed."""
import copy
import os

import lxml.etree

import punx
from punx import FileNotFound, InvalidNxdlFile
from punx import cache_manager, nxdl_schema, schema_manager

NS = {"nx": "http://definition.nexusformat.org/nxdl/3.1", "xs": "http://www.w3.org/2001/XMLSchema"}


def local(tag):
    return tag.split(":")[-1]


def is_a(node, name):
    assert node.tag.endswith("}" + name)


# nxdl_schema: one declaration

def attribute_made(me):
    me.name = None
    me.type = "str"
    me.required = False
    me.default_value = None
    me.enum = []
    me.patterns = []
    me.maxLength = None


def attribute_group_made(me):
    me.name = None
    me.children = []


def element_made(me):
    me.children = []
    me.name = None
    me.type = "str"
    me.minOccurs = None
    me.maxOccurs = None


def group_made(me):
    me.children = []
    me.name = None
    me.ref = None
    me.minOccurs = None
    me.maxOccurs = None


def simple_type_made(me):
    me.name = None
    me.base = None
    me.patterns = []
    me.maxLength = None


def complex_type_made(me):
    me.children = []
    me.name = None


def attribute(me, node):
    is_a(node, "attribute")
    me.name = node.attrib.get("name", me.name)
    me.type = local(node.attrib.get("type", "nx:NX_CHAR"))
    use = node.attrib.get("use", me.required)
    me.required = use in ("required", True)
    me.default_value = node.attrib.get("default", me.default_value)
    found = node.xpath("xs:simpleType/xs:restriction/xs:pattern", namespaces=NS)
    if len(found) == 1:
        me.patterns.append(found[0].attrib["value"])


def attribute_group(me, node):
    is_a(node, "attributeGroup")
    me.name = node.attrib.get("name", me.name)
    for x in node.xpath("xs:attribute", namespaces=NS):
        a = nxdl_schema.NXDL_schema__attribute()
        a.parse(x)
        me.children.append(a)


def occurs(me, node):
    me.minOccurs = node.attrib.get("minOccurs", me.minOccurs)
    me.maxOccurs = node.attrib.get("maxOccurs", me.maxOccurs)


def element(me, node):
    is_a(node, "element")
    me.name = node.attrib.get("name", me.name)
    kind = node.attrib.get("type", me.type)
    me.type = kind if kind is None else local(kind)
    occurs(me, node)
    types = node.xpath("xs:complexType", namespaces=NS)
    if len(types) == 1:
        for x in types[0].xpath("xs:sequence/xs:element", namespaces=NS):
            e = nxdl_schema.NXDL_schema__element()
            e.parse(x)
            me.children.append(e)
        for x in types[0].xpath("xs:attribute", namespaces=NS):
            a = nxdl_schema.NXDL_schema__attribute()
            a.parse(x)
            me.children.append(a)


def group(me, node):
    is_a(node, "group")
    me.name = node.attrib.get("name", me.name)
    ref = node.attrib.get("ref", me.ref)
    me.ref = ref if ref is None else local(ref)
    occurs(me, node)
    for x in node.xpath("xs:sequence/xs:element", namespaces=NS):
        e = nxdl_schema.NXDL_schema__element()
        e.parse(x)
        me.children.append(e)


def simple_type(me, node):
    is_a(node, "simpleType")
    me.name = node.attrib.get("name", me.name)
    for r in node.xpath("xs:restriction", namespaces=NS):
        base = r.attrib.get("base", me.base)
        me.base = base if base is None else local(base)
        for p in r.xpath("xs:pattern", namespaces=NS):
            me.patterns.append(p.attrib["value"])
        for p in r.xpath("xs:maxLength", namespaces=NS):
            me.maxLength = int(p.attrib["value"])


# complex types

def known(node, catalog):
    """what was read from this declaration before"""
    return catalog[node.tag.split("}")[-1]]["Line %d" % node.sourceline]


def type_attribute(me, node, catalog):
    is_a(node, "attribute")
    me.children.append(known(node, catalog))


def type_element(me, node, catalog):
    is_a(node, "element")
    me.children.append(known(node, catalog))


def type_group(me, node, catalog):
    is_a(node, "group")
    me.children.append(known(node, catalog))


def type_attribute_group(me, node, catalog):
    is_a(node, "attributeGroup")
    me.children += catalog["schema"][local(node.attrib["ref"])].children


def type_content(me, node, catalog):
    is_a(node, "complexContent")
    me._parse_extension(node[0], catalog)


def type_extension(me, node, catalog):
    is_a(node, "extension")
    base = node.attrib.get("base")
    if base is not None:
        me.children += catalog["schema"][local(base)].children
    for x in node.xpath("xs:sequence", namespaces=NS):
        me._parse_sequence(x, catalog)
    for x in node.xpath("xs:attribute", namespaces=NS):
        me._parse_attribute(x, catalog)


def type_sequence(me, node, catalog):
    is_a(node, "sequence")
    for x in node.xpath("xs:element", namespaces=NS):
        me._parse_element(x, catalog)
    for x in node.xpath("xs:group", namespaces=NS):
        me._parse_group(x, catalog)


def complex_type(me, node, catalog):
    is_a(node, "complexType")
    me.name = node.attrib.get("name", me.name)
    for x in node.xpath("xs:sequence", namespaces=NS):
        me._parse_sequence(x, catalog)
    for x in node.xpath("xs:complexContent", namespaces=NS):
        me._parse_complexContent(x, catalog)
    for x in node.xpath("xs:group", namespaces=NS):
        me._parse_group(x, catalog)
    for x in node.xpath("xs:attribute", namespaces=NS):
        me._parse_attribute(x, catalog)
    for x in node.xpath("xs:attributeGroup", namespaces=NS):
        me._parse_attributeGroup(x, catalog)


# nxdl_schema: the catalog

def keep(me, node, obj, key=None):
    section = key or node.tag.split("}")[-1]
    me.db.setdefault(section, {})
    me.db[section]["Line %d" % node.sourceline] = obj


def attributes(me, root):
    for x in root.xpath("//xs:attribute", namespaces=me.ns):
        a = nxdl_schema.NXDL_schema__attribute()
        a.parse(x)
        me.add_to_catalog(x, a)


def elements(me, root):
    for x in root.xpath("//xs:element", namespaces=me.ns):
        e = nxdl_schema.NXDL_schema__element()
        e.parse(x)
        me.add_to_catalog(x, e)


def attribute_groups(me, root):
    for x in root.xpath("xs:attributeGroup", namespaces=me.ns):
        g = nxdl_schema.NXDL_schema__attributeGroup()
        g.parse(x)
        me.add_to_catalog(x, g, key="schema")
        me.db["schema"][g.name] = g


def complex_types(me, root):
    for x in root.xpath("xs:complexType", namespaces=me.ns):
        if "name" in x.attrib:
            t = nxdl_schema.NXDL_schema__complexType()
            t.parse(x, me.db)
            me.add_to_catalog(x, t, key="schema")
            me.db["schema"][t.name] = t


def groups(me, root):
    for x in root.xpath("//xs:group", namespaces=me.ns):
        g = nxdl_schema.NXDL_schema__group()
        g.parse(x)
        me.add_to_catalog(x, g)
        if g.name is not None:
            me.db["schema"][g.name] = g


def simple_types(me, root):
    xref = {}
    for x in root.xpath("/xs:schema/xs:simpleType", namespaces=me.ns):
        t = nxdl_schema.NXDL_schema_named_simpleType()
        t.parse(x)
        me.add_to_catalog(x, t, key="simpleType")
        if "schema" not in me.db:
            me.db["schema"] = {}
        me.db["schema"][t.name] = t
        me.db["simpleType"][t.name] = t
        xref[t.name] = t
    # a type based on another one also has its limits
    for t in xref.values():
        if t.base in xref:
            base = xref[t.base]
            t.maxLength = base.maxLength
            t.patterns += base.patterns
            t.base = base.base


def catalog(me, name):
    me.db = {}
    me.ns = {"nx": NS["nx"], "xs": NS["xs"]}
    root = lxml.etree.parse(name).getroot()
    me._parse_nxdl_simpleType_nodes(root)
    me._parse_nxdl_attribute_nodes(root)
    me._parse_nxdl_attributeGroup_nodes(root)
    me._parse_nxdl_element_nodes(root)
    me._parse_nxdl_group_nodes(root)
    me._parse_nxdl_complexType_nodes(root)
    me._init_definition_element(root)


# nxdl_schema: the summary

def tree(me, obj):
    attributes, elements, groups = {}, {}, {}
    obj.attributes = attributes
    obj.components = elements
    obj.groups = groups
    if hasattr(obj, "children"):
        for child in obj.children:
            if isinstance(child, nxdl_schema.NXDL_schema__attribute):
                attributes[child.name or "(attribute)"] = child
                me.build_tree(child)
            elif isinstance(child, nxdl_schema.NXDL_schema__element):
                elements[child.name or "(element)"] = child
                me.build_tree(child)
            elif isinstance(child, nxdl_schema.NXDL_schema__group):
                groups[child.name or "(group)"] = child
                me.build_tree(child)


def summary(me, name):
    catalog = nxdl_schema.NXDL_item_catalog(name)
    me.build_tree(catalog.definition_element)
    me.definition = catalog.definition_element
    me.group = list(me.definition.groups.values())[0]
    me.group.attributes = me.group.components["group"].attributes
    me.attribute = me.group.components["attribute"]
    me.doc = me.group.components["doc"]
    me.field = me.group.components["field"]
    me.group.components["group"] = "recursion"
    me.link = me.group.components["link"]
    me.symbols = list(me.definition.components.values())[0]
    me.simpleType = catalog.db["simpleType"]


# nxdl_manager: what each item starts from

def declared(me, defaults):
    for name, value in defaults.attributes.items():
        me.xml_attributes[name] = copy.deepcopy(value)


def required_now(me):
    for name, value in sorted(me.xml_attributes.items()):
        if value.required and not hasattr(me, name):
            setattr(me, name, value.default_value)


def of_definition(me, defaults):
    me.minOccurs = 0
    me.maxOccurs = 1
    me.parse_xml_attributes(defaults.definition)
    me.groups.pop("(group)", None)


def of_attribute(me, defaults):
    me.parse_xml_attributes(defaults.attribute)
    me.assign_defaults()


def of_field(me, defaults):
    me.parse_xml_attributes(defaults.field)
    me.assign_defaults()


def of_group(me, defaults):
    me.parse_xml_attributes(defaults.group)
    me.assign_defaults()


def of_dimensions(me, defaults):
    me.parse_xml_attributes(defaults.field.components["dimensions"])


def of_dim(me, defaults):
    me.parse_xml_attributes(defaults.field.components["dimensions"].components["dim"])


def start(me, root):
    """the definition element, with the content of each type, base and group that is referred to in place of the reference"""
    found = root.xpath("xs:element", namespaces=me.ns)
    assert len(found) == 1
    me.definition_element = me.db["element"]["Line %d" % found[0].sourceline]
    me.definition_element.children += me.db["schema"][local(found[0].attrib["type"])].children

    def put(item, known):
        for child in item.children:
            for nm in ("type", "base", "ref"):
                if hasattr(child, nm):
                    key = getattr(child, nm)
                    if key in known["schema"]:
                        reference = known["schema"][key]
                        # only once
                        setattr(child, nm, "__" + key)
                        if hasattr(child, "children") and hasattr(reference, "children"):
                            for x in reference.children:
                                # a group can hold groups
                                if type(x).__name__.split("_")[-1] != "group" or not hasattr(x, "ref") or x.ref != "groupGroup":
                                    child.children.append(copy.deepcopy(x))
                            put(child, known)
                        if hasattr(reference, "patterns"):
                            child.patterns = reference.patterns
                        if hasattr(reference, "maxLength"):
                            child.maxLength = reference.maxLength

    put(me.definition_element, me.db)


# schema_manager: patterns and types

def patterns(me):
    found = {}
    for node in me.lxml_root.xpath("xs:simpleType", namespaces=me.ns):
        key = node.attrib["name"]
        if key.startswith("valid"):
            p = schema_manager.Schema_pattern()
            p.pattern_name = key
            found[key] = p
            limits = node.xpath("xs:restriction", namespaces=me.ns)
            assert len(limits) == 1
            p.base = local(limits[0].attrib["base"])
            for x in limits[0]:
                if not isinstance(x, lxml.etree._Comment):
                    if x.tag.endswith("}pattern"):
                        p.re_list.append(x.attrib["value"])
                    elif x.tag.endswith("}maxLength"):
                        p.maxLength = int(x.attrib["value"])
    # a pattern based on another one: what this one allows
    for p in found.values():
        if p.base != "token" and p.base in found:
            base = found[p.base]
            p.base = base.base
            p.maxLength = base.maxLength
            p.re_list += base.re_list
    return found


def pattern_made(me):
    me.base = "token"
    me.pattern_name = None
    me.re_list = []
    me.maxLength = -1


def types(me):
    if os.path.exists(me.schema_file):
        where = os.path.dirname(me.schema_file)
    else:
        caches = cache_manager.CacheManager()
        if caches is None or caches.default_file_set is None:
            raise ValueError("no file set")
        where = caches.default_file_set.path
    me.types_file = os.path.join(where, "nxdlTypes.xsd")
    if not os.path.exists(me.types_file):
        raise FileNotFound(me.types_file)
    root = lxml.etree.parse(me.types_file).getroot()
    found = {}
    for node in root:
        if not isinstance(node, lxml.etree._Comment):
            if not node.tag.endswith("}annotation"):
                t = schema_manager.Schema_nxdlType(node, ns_dict=me.ns, schema_root=root)
                if t.name is not None:
                    found[t.name] = t
    units = list(found["anyUnitsAttr"].union or [])
    del found["anyUnitsAttr"]
    del found["primitiveType"]
    return found, units


def nxdl_type(me, obj, ns, root):
    me.name = obj.attrib.get("name")
    me.restriction = None
    me.union = None
    me.values = None
    for node in obj:
        if isinstance(node, lxml.etree._Comment):
            pass
        elif node.tag.endswith("}annotation"):
            pass
        elif node.tag.endswith("}list"):
            me.values = [local(node.attrib["itemType"])]
        elif node.tag.endswith("}restriction"):
            me.restriction = local(node.attrib["base"])
            me.values = []
            for x in node:
                if not isinstance(x, lxml.etree._Comment):
                    if x.tag.endswith("}enumeration"):
                        me.values.append(x.attrib["value"])
        elif node.tag.endswith("}union"):
            me.union = [local(x) for x in node.attrib["memberTypes"].split()]
        else:
            schema_manager.raise_error(node, "unhandled tag=", node.tag)


# schema_manager: elements and their attributes

def manager(me, path):
    if path is None:
        caches = cache_manager.CacheManager()
        if caches is None or caches.default_file_set is None:
            raise ValueError("no file set")
        path = caches.default_file_set.path
    name = os.path.join(path, "nxdl.xsd")
    if not os.path.exists(name):
        raise FileNotFound(name)
    me.schema_file = name
    me.name = os.path.basename(path)
    tree = lxml.etree.parse(name)
    me.lxml_schema = lxml.etree.XMLSchema(tree)
    # (for the parsing, and not kept)
    me.lxml_tree = tree
    me.lxml_root = tree.getroot()
    found = me.lxml_root.xpath("xs:element", namespaces=me.ns)
    if len(found) != 1:
        raise InvalidNxdlFile(name)
    me.nxdl = schema_manager.Schema_Root(found[0], ns_dict=me.ns, schema_root=me.lxml_root, schema_manager=me)
    del me.lxml_root
    del me.lxml_tree


def named(me, tag, attribute, value):
    if me.lxml_root is None:
        raise ValueError
    found = me.lxml_root.xpath("xs:" + tag + "[@" + attribute + '="' + value + '"]', namespaces=me.ns)
    if len(found) != 1:
        raise ValueError("wrong number")
    return found[0]


def copied(me, target):
    for k, v in me.attrs.items():
        target.attrs[k] = v
    for k, v in me.children.items():
        target.children[k] = v


def one_attribute(me, node):
    a = schema_manager.Schema_Attribute(node, schema_root=me.lxml_root)
    me.attrs[a.name] = a


def one_reference(me, node):
    schema_manager.Schema_Type(node.attrib.get("ref"), schema_root=me.lxml_root).copy_to(me)


def content(me, node):
    for x in node:
        if x.tag.endswith("}extension"):
            ref = x.attrib.get("base")
            if ref not in ("nx:basicComponent"):
                schema_manager.raise_error(x, "unexpected base=", ref)
            schema_manager.Schema_Type(ref, schema_root=me.lxml_root).copy_to(me)
            for y in x:
                if y.tag.endswith("}annotation"):
                    pass
                elif y.tag.endswith("}attribute"):
                    me.parse_attribute(y)
                elif y.tag.endswith("}sequence"):
                    me.parse_sequence(y)
                else:
                    schema_manager.raise_error(y, "unexpected base=", y.tag)
        else:
            schema_manager.raise_error(x, "unexpected tag=", x.tag)


def type_members(me, node):
    for x in node:
        if x.tag.endswith("}element"):
            e = schema_manager.Schema_Element(x, schema_root=me.lxml_root)
            me.children[e.name] = e
        elif x.tag.endswith("}group"):
            e = schema_manager.Schema_Element(x, schema_root=me.lxml_root)
            me.children[e.name] = e
        elif x.tag.endswith("}any"):
            pass
        else:
            schema_manager.raise_error(x, "unexpected tag=", x.tag)


def root_members(me, node):
    for x in node:
        if x.tag.endswith("}element"):
            e = schema_manager.Schema_Element(x, schema_root=me.lxml_root)
            me.children[e.name] = e
        elif x.tag.endswith("}group"):
            schema_manager.Schema_Type(x.attrib.get("ref"), schema_root=me.lxml_root).copy_to(me)
        else:
            schema_manager.raise_error(x, "unhandled tag", x.tag)


def named_type(me, ref, tag, root):
    me.ns = punx.NAMESPACE_DICT
    me.lxml_root = root
    obj = me.get_named_node(tag, "name", local(ref))
    me.name = obj.attrib.get("name")
    me.attrs = {}
    me.children = {}
    for node in obj:
        if isinstance(node, lxml.etree._Comment):
            pass
        elif node.tag.endswith("}annotation"):
            pass
        elif node.tag.endswith("}attribute"):
            me.parse_attribute(node)
        elif node.tag.endswith("}attributeGroup"):
            me.parse_attributeGroup(node)
        elif node.tag.endswith("}complexContent"):
            me.parse_complexContent(node)
        elif node.tag.endswith("}group"):
            me.parse_group(node)
        elif node.tag.endswith("}sequence"):
            me.parse_sequence(node)
        else:
            schema_manager.raise_error(node, "unexpected tag=", node.tag)


def root_type(me, node, name, ns, root, manager):
    me.name = name or node.attrib.get("name")
    me.ns = ns or punx.NAMESPACE_DICT
    me.lxml_root = root
    me.attrs = {}
    me.children = {}
    schema_manager._GroupParsing().started = False
    me.schema_manager = manager
    kind = node.attrib.get("type")
    if kind is None:
        schema_manager.raise_error(node, "no @type for element node: ", node.attrib.get("name"))
    for x in me.get_named_node("complexType", "name", local(kind)):
        if x.tag.endswith("}attribute"):
            a = schema_manager.Schema_Attribute(x, schema_root=root)
            me.attrs[a.name] = a
        elif x.tag.endswith("}attributeGroup"):
            me.parse_attributeGroup(x)
        elif x.tag.endswith("}sequence"):
            me.parse_sequence(x)
        elif x.tag.endswith("}annotation"):
            pass
        else:
            schema_manager.raise_error(x, "unhandled tag=", x.tag)
    if manager is not None:
        me.types, me.units = manager.parse_nxdlTypes()
        me.patterns = manager.parse_nxdl_patterns()


def one_element(me, obj, name, ns, root):
    me.name = name or obj.attrib.get("name")
    me.ns = ns or punx.NAMESPACE_DICT
    me.lxml_root = root
    me.children = {}
    me.attrs = {}
    me.type = obj.attrib.get("type")
    if me.type is None:
        for node in obj:
            if node.tag.endswith("}complexType"):
                a = schema_manager.Schema_Attribute(node.find("xs:attribute", me.ns), schema_root=root)
                me.attrs[a.name] = a
            elif node.tag.endswith("}annotation"):
                pass
            else:
                schema_manager.raise_error(node, "unhandled tag=", node.tag)
    else:
        again = False
        if obj.attrib["name"] == "group" and obj.attrib["type"] == "nx:groupType":
            if schema_manager._GroupParsing().started:
                again = True
                me.children["group"] = schema_manager._Recursion("group")
            schema_manager._GroupParsing().started = True
        if not again:
            schema_manager.Schema_Type(me.type, schema_root=root).copy_to(me)


def the_attribute(me, obj, name, ns, root):
    assert obj is not None
    assert obj.tag == "{" + obj.nsmap["xs"] + "}attribute"
    me.name = name or obj.attrib.get("name")
    me.ns = ns or punx.NAMESPACE_DICT
    me.lxml_root = root
    me.required = obj.attrib.get("use", "optional") == "required"
    me.type = obj.attrib.get("type", "str")
    if me.type == "nx:NX_BOOLEAN":
        me.default_value = (obj.attrib.get("default") or "").lower() in ("true", "y", "1")
    else:
        me.default_value = obj.attrib.get("default")
    me.enum = []
    for node in obj.xpath("xs:simpleType/xs:restriction/xs:enumeration", namespaces=me.ns):
        v = node.attrib.get("value")
        if v is not None:
            me.enum.append(v)
    me.patterns = []
    for node in obj.xpath("xs:simpleType/xs:restriction/xs:pattern", namespaces=me.ns):
        v = node.attrib.get("value")
        if v is not None:
            me.patterns.append(v)


def refused(node, text, obj):
    raise ValueError("unexpected")
