"""Reference behaviour: NXDL definitions.  Analysed, never executed."""
import copy
import os

import lxml.etree

from punx import FileNotFound, InvalidNxdlFile
from punx import cache_manager, nxdl_manager, nxdl_schema, schema_manager

NS = {"nx": "http://definition.nexusformat.org/nxdl/3.1", "xs": "http://www.w3.org/2001/XMLSchema"}


# C08, C09, C10, C13

def manager_init(manager, file_set=None):
    if file_set is None:
        file_set = cache_manager.CacheManager().default_file_set
    elif isinstance(file_set, str):
        known = cache_manager.CacheManager().all_file_sets
        if file_set not in known:
            raise KeyError(file_set)
        file_set = known[file_set]
    if file_set.path is None or not os.path.exists(file_set.path):
        raise FileNotFound(file_set.path)
    manager.nxdl_file_set = file_set
    manager.nxdl_defaults = manager.get_nxdl_defaults()
    manager.classes = {}
    for name in nxdl_manager.get_NXDL_file_list(file_set.path):
        definition = nxdl_manager.NXDL__definition(nxdl_manager=manager)
        definition.set_file(name)
        manager.classes[definition.title] = definition
        definition.parse_nxdl_xml()


def validator_init(validator, ref=None):
    validator.h5 = None
    validator.validations = []
    validator.addresses = {}
    validator.classpaths = {}
    validator.regexp_cache = {}
    validator.manager = nxdl_manager.NXDL_Manager(ref)


def defaults(manager):
    name = os.path.join(manager.nxdl_file_set.path, "nxdl.xsd")
    if os.path.exists(name):
        return nxdl_schema.NXDL_Summary(name)


def schema_init(schemas, path=None):
    if path is None:
        if cache_manager.CacheManager().default_file_set is None:
            raise ValueError("no file set")
        path = cache_manager.CacheManager().default_file_set.path
    name = os.path.join(path, "nxdl.xsd")
    if not os.path.exists(name):
        raise FileNotFound(name)
    schemas.schema_file = name
    schemas.name = os.path.basename(path)
    tree = lxml.etree.parse(name)
    schemas.lxml_schema = lxml.etree.XMLSchema(tree)
    root = tree.getroot()
    nodes = root.xpath("xs:element", namespaces=NS)
    if len(nodes) != 1:
        raise InvalidNxdlFile(name)
    schemas.nxdl = schema_manager.Schema_Root(nodes[0], ns_dict=NS, schema_root=root, schema_manager=schemas)


def definition_files(directory):
    if not os.path.exists(directory):
        raise FileNotFound(directory)
    names = []
    for category in ("base_classes", "applications", "contributed_definitions"):
        path = os.path.join(directory, category)
        if not os.path.exists(path):
            raise IOError(path)
        for name in sorted(os.listdir(path)):
            if name.endswith(".nxdl.xml"):
                names.append(os.path.join(path, name))
    return names


def set_file(definition, name):
    definition.file_name = name
    definition.title = os.path.basename(name).split(".")[0]
    definition.category = os.path.basename(os.path.dirname(name))


# C14

def validate_tree(tree, file_set=None):
    if file_set is None:
        schema = schema_manager.get_default_schema_manager().lxml_schema
    else:
        schema = file_set.schema_manager.lxml_schema
    try:
        return schema.assertValid(tree)
    except lxml.etree.DocumentInvalid as exc:
        raise InvalidNxdlFile(exc)


def validate_file(name, file_set=None):
    if not os.path.exists(name):
        raise FileNotFound(name)
    try:
        tree = lxml.etree.parse(name)
    except lxml.etree.XMLSyntaxError as exc:
        raise InvalidNxdlFile(exc)
    nxdl_manager.validate_xml_tree(tree, file_set)


# C15

def parse_definition(definition):
    if definition.file_name is None or not os.path.exists(definition.file_name):
        raise FileNotFound(definition.file_name)
    tree = lxml.etree.parse(definition.file_name)
    try:
        nxdl_manager.validate_xml_tree(tree, definition.nxdl_manager.nxdl_file_set)
    except InvalidNxdlFile as exc:
        raise InvalidNxdlFile(exc)
    root = tree.getroot()
    definition.parse_symbols(root)
    definition.parse_attributes(root)
    definition.parse_groups(root)
    definition.parse_fields(root)
    definition.parse_links(root)


def parse_attributes(item, node):
    definition = item.nxdl_definition
    for sub in node.xpath("nx:attribute", namespaces=NS):
        attribute = nxdl_manager.NXDL__attribute(definition, nxdl_defaults=definition.nxdl_manager.nxdl_defaults)
        attribute.parse_nxdl_xml(sub)
        if definition.category == "applications":
            attribute.xml_attributes["optional"].default_value = False
        if attribute.name in item.attributes:
            raise KeyError(attribute.name)
        item.attributes[attribute.name] = attribute


def parse_fields(item, node):
    definition = item.nxdl_definition
    for sub in node.xpath("nx:field", namespaces=NS):
        field = nxdl_manager.NXDL__field(definition, nxdl_defaults=definition.nxdl_manager.nxdl_defaults)
        field.parse_nxdl_xml(sub)
        if definition.category == "applications":
            field.xml_attributes["minOccurs"].default_value = 1
        item.ensure_unique_name(field)
        item.fields[field.name] = field


def parse_groups(item, node):
    definition = item.nxdl_definition
    for sub in node.xpath("nx:group", namespaces=NS):
        group = nxdl_manager.NXDL__group(definition, nxdl_defaults=definition.nxdl_manager.nxdl_defaults)
        group.parse_nxdl_xml(sub)
        if definition.category == "applications":
            group.xml_attributes["minOccurs"].default_value = 1
        item.ensure_unique_name(group)
        item.groups[group.name] = group


def parse_links(item, node):
    definition = item.nxdl_definition
    for sub in node.xpath("nx:link", namespaces=NS):
        link = nxdl_manager.NXDL__link(definition, nxdl_defaults=definition.nxdl_manager.nxdl_defaults)
        link.parse_nxdl_xml(sub)
        item.ensure_unique_name(link)
        item.links[link.name] = link


def parse_symbols(item, node):
    definition = item.nxdl_definition
    for sub in node.xpath("nx:symbols", namespaces=NS):
        symbols = nxdl_manager.NXDL__symbols(definition, nxdl_defaults=definition.nxdl_manager.nxdl_defaults)
        symbols.parse_nxdl_xml(sub)
        item.symbols += symbols.symbols


def group_content(group, node):
    group.name = node.attrib.get("name", node.attrib["type"][2:])
    group.parse_attributes(node)
    for key, value in node.attrib.items():
        if key not in ("name", "type"):
            group.attributes[key] = value
    least = 1 if group.nxdl_definition.category == "applications" else 0
    group.minOccurs = int(group.attributes.get("minOccurs", least))
    group.parse_groups(node)
    group.parse_fields(node)
    group.parse_links(node)


def attribute_content(attribute, node):
    attribute.name = node.attrib["name"]
    for part in node.xpath("nx:enumeration", namespaces=NS):
        for item in part.xpath("nx:item", namespaces=NS):
            value = item.attrib.get("value")
            if value is not None:
                attribute.enumerations.append(value)


def field_content(field, node):
    field.name = node.attrib["name"]
    field.parse_attributes(node)
    sizes = node.xpath("nx:dimensions", namespaces=NS)
    if len(sizes) == 1:
        field.dimensions = nxdl_manager.NXDL__dimensions(
            field.nxdl_definition, nxdl_defaults=field.nxdl_definition.nxdl_manager.nxdl_defaults)
        field.dimensions.parse_nxdl_xml(sizes[0])
    for item in node.xpath("nx:enumeration/nx:item", namespaces=NS):
        field.enumerations.append(item.attrib.get("value"))


def dimensions_content(dimensions, node):
    dimensions.rank = node.attrib.get("rank")
    for sub in node.xpath("nx:dim", namespaces=NS):
        dim = nxdl_manager.NXDL__dim(
            dimensions.nxdl_definition, nxdl_defaults=dimensions.nxdl_definition.nxdl_manager.nxdl_defaults)
        dim.parse_nxdl_xml(sub)
        dimensions.dims[dim.name] = dim


def dim_content(dim, node):
    dim.index = node.attrib.get("index")
    dim.value = node.attrib.get("value")
    dim.ref = node.attrib.get("ref")
    dim.refindex = node.attrib.get("refindex")
    dim.incr = node.attrib.get("incr")
    dim.name = node.attrib.get("index")


def link_content(link, node):
    link.name = node.attrib["name"]
    link.target = node.attrib.get("target")


def symbols_content(symbols, node):
    for sub in node:
        if isinstance(sub, lxml.etree._Comment):
            continue
        if sub.tag.split("}")[-1] == "symbol" and sub.attrib.get("name") is not None:
            symbols.symbols.append(sub.attrib.get("name"))


def unique_name(item, obj):
    taken = list(item.groups) + list(item.fields) + list(item.links)
    if obj.name in taken:
        number = 1
        while obj.name + str(number) in taken:
            number += 1
        obj.name = obj.name + str(number)


# C11

def xml_attributes(item, defaults):
    for name in defaults.attributes:
        item.xml_attributes[name] = copy.copy(defaults.attributes[name])


def file_set_attribute(file_set, name):
    if file_set.path is not None and os.path.exists(file_set.path) and not file_set.__schema_manager_loaded__:
        file_set.schema_manager = schema_manager.SchemaManager(file_set.path)
        file_set.__schema_manager_loaded__ = True


# C16

def patterns(schemas):
    found = {}
    for node in schemas.lxml_root.xpath("xs:simpleType", namespaces=schemas.ns):
        name = node.attrib["name"]
        if name.startswith("valid"):
            pattern = schema_manager.Schema_pattern()
            pattern.pattern_name = name
            found[name] = pattern
            rule = node.xpath("xs:restriction", namespaces=schemas.ns)[0]
            pattern.base = rule.attrib["base"].split(":")[-1]
            for item in rule:
                if isinstance(item, lxml.etree._Comment):
                    continue
                if item.tag.endswith("}pattern"):
                    pattern.re_list.append(item.attrib["value"])
                elif item.tag.endswith("}maxLength"):
                    pattern.maxLength = int(item.attrib["value"])
    for pattern in found.values():
        if pattern.base != "token" and pattern.base in found:
            base = found[pattern.base]
            pattern.base = base.base
            pattern.maxLength = base.maxLength
            pattern.re_list += base.re_list
    return found
