"""Reference behaviour of the validation of a data file.

Never executed: it is evaluated by the same analysis as /repo/punx, and the two
tables of guarded findings are compared.  Functions named Cnn_* delimit what
property Cnn is about.
"""
import re

import h5py
import numpy

from punx import finding
from punx import utils

STRICT = r"[a-z_][a-z0-9_]*"
NON_NEXUS = "non-NeXus content"


def record(address, test, status):
    """the analysis reads the arguments"""


def decode(value):
    return utils.decode_byte_string(value)


def verdict(test):
    return finding.OK if test else finding.ERROR


def is_file(obj):
    return isinstance(obj, h5py.File)


def is_group(obj):
    return isinstance(obj, h5py.Group) and not isinstance(obj, h5py.File)


def is_dataset(obj):
    return isinstance(obj, h5py.Dataset)


def validate(v):
    for items in v.classpaths.values():
        for item in items:
            C19_name(v, item)
            attribute(v, item)
    for item in v.addresses.values():
        if isinstance(item.h5_object, h5py.Group):
            C24_group(v, item)
    for path in ("/NXentry/definition", "/NXentry/NXsubentry/definition"):
        if path in v.classpaths:
            for item in v.classpaths[path]:
                C26_application(v, item.parent)
    C27_default_plot(v)


# ---------------------------------------------------------------- names


def matches(pattern, text):
    return isinstance(text, str) and re.fullmatch(pattern, text) is not None


def schema(v):
    return v.manager.nxdl_file_set.schema_manager.nxdl


def kind_of_name(v, name):
    text = decode(name)
    if matches(STRICT, text):
        return "strict"
    if "validItemName" in schema(v).patterns:
        for pattern in schema(v).patterns["validItemName"].re_list:
            if matches(pattern, text):
                return "relaxed"
    return None


def grade(kind):
    if kind is None:
        return finding.ERROR
    if kind == "strict":
        return finding.OK
    return finding.NOTE


def is_link_source(item):
    """attributes of a linked item are validated with the original item"""
    attrs = item.h5_object.attrs
    return "target" in attrs and isinstance(decode(attrs["target"]), str) and decode(attrs["target"]) != decode(item.h5_address)


def is_link(obj):
    if not hasattr(obj, "parent"):
        return False
    kind = obj.parent.get(obj.name, getlink=True)
    return isinstance(kind, (h5py.HardLink, h5py.SoftLink))


def C19_name(v, item):
    if item.parent is None:
        return
    test = "validItemName"
    if item.h5_address is not None and item.h5_address.endswith("@NX_class"):
        value = decode(item.h5_object)
        known = any(matches(p, value) for p in schema(v).patterns["validNXClassName"].re_list)
        record(item.h5_address, test, verdict(known))
    elif "@" in item.classpath:
        if not is_link_source(item.parent):
            record(item.h5_address, test, verdict(kind_of_name(v, item.name) is not None))
    elif is_dataset(item.h5_object) or is_group(item.h5_object) or is_link(item.h5_object):
        if "NXcollection" in item.classpath:
            record(item.h5_address, test, finding.WARN)
        else:
            record(item.h5_address, test, grade(kind_of_name(v, item.name)))
    elif item.classpath != NON_NEXUS:
        record(item.h5_address, test, finding.TODO)


# ---------------------------------------------------------------- attributes


def attribute(v, item):
    if item.h5_address is None or "@" not in item.h5_address:
        return
    if item.name == "NX_class":
        C20_nx_class(v, item)
    elif item.name == "signal":
        C21_signal(v, item)
    elif item.name == "axes":
        C22_axes(v, item)
    elif item.name == "target":
        C23_target(v, item)
    else:
        C23_other(v, item)


def C20_nx_class(v, item):
    value = decode(item.h5_object)
    definition = None
    if isinstance(value, str):
        definition = v.manager.classes.get(value)
    if definition is None:
        ok = False
    elif definition.category == "base_classes":
        ok = True
    elif definition.category == "contributed_definitions":
        entry = definition.groups.get("entry")
        ok = entry is None or entry.fields.get("definition") is None
    else:
        ok = False
    record(item.h5_address, "attribute value", verdict(ok))


def C21_signal(v, item):
    value = decode(item.h5_object)
    owner = item.parent.h5_object
    if is_dataset(owner):
        try:
            one = str(value).isdigit() and int(value) == 1
        except ValueError:
            one = False
        if one:
            record(item.h5_address, "attribute value", finding.OK)
        else:
            record(item.h5_address, "attribute value", finding.NOTE)
    elif is_group(owner):
        record(item.h5_address, "valid name @signal=" + str(value), grade(kind_of_name(v, value)))
        record(item.h5_address, "attribute value", verdict(isinstance(value, str) and value in owner))
    else:
        record(item.h5_address, "attribute value", finding.TODO)


def C22_axes(v, item):
    axes = decode(item.h5_object)
    if not isinstance(axes, (list, numpy.ndarray)):
        axes = [axes]
    group = item.parent.h5_object
    if is_dataset(group):
        group = group.parent
    for axis in axes:
        record(item.h5_address, f"valid name @axes['{axis}']", grade(kind_of_name(v, axis)))
        there = isinstance(axis, str) and utils.getHdf5Member(group, axis) is not None
        record(item.h5_address, f"axes['{axis}'] exists", verdict(there))
    record(item.h5_address, "attribute value", finding.TODO)


def C23_target(v, item):
    target = decode(item.h5_object)
    test = "attribute value"
    if not isinstance(target, str) or not target.startswith("/"):
        record(item.h5_address, test, finding.ERROR)
        return
    address = ""
    for part in target[1:].split("/"):
        if kind_of_name(v, part) is None:
            record(item.h5_address, test, finding.ERROR)
            return
        address += "/" + part
        if address not in v.h5:
            record(item.h5_address, test, finding.ERROR)
            return
    record(item.h5_address, test, verdict(target in v.h5))


def C23_other(v, item):
    record(item.h5_address, "attribute value", finding.TODO)


# ---------------------------------------------------------------- groups


def C24_group(v, item):
    if item.classpath == NON_NEXUS:
        record(item.h5_address, "NeXus_group", finding.OK)
        return
    nx_class = "NXroot" if item.classpath == "" else item.nx_class
    known = nx_class in v.manager.classes
    record(item.h5_address, "known NXDL", verdict(known))
    if known:
        record(item.h5_address, "NeXus base class", verdict(is_base_class(v.manager.classes[nx_class])))
    definition = v.manager.classes.get(nx_class)
    if definition is None:
        record(item.h5_address, "NeXus base class", finding.ERROR)
        return
    C25_contents(v, item, definition)
    record(item.h5_address, "NeXus base class", finding.TODO)


def is_base_class(definition):
    if definition.category == "applications":
        return False
    if definition.category == "base_classes":
        return True
    if len(definition.fields) == 0 and len(definition.links) == 0 and len(definition.groups) == 1:
        entry = list(definition.groups.values())[0]
        return "definition" not in entry.fields
    return True


def C25_contents(v, item, definition):
    for name, value in item.h5_object.attrs.items():
        group_attribute(v, item, definition, decode(name), decode(value))
    for name in item.h5_object:
        member(v, item, definition, name)
    for name in definition.fields:
        status = finding.OK if name in item.h5_object else finding.OPTIONAL
        record(item.h5_address, "NXDL field in data file", status)
    for name in definition.groups:
        status = finding.OK if name in item.h5_object else finding.OPTIONAL
        record(item.h5_address, "NXDL group in data file", status)


def group_attribute(v, item, definition, name, value):
    address = v.addresses[item.h5_address + "@" + name].h5_address
    record(address, "known attribute", finding.OK)
    if name not in definition.attributes:
        return
    allowed = definition.attributes[name].enumerations
    if len(allowed) > 0:
        record(address, "attribute value enumeration", verdict(isinstance(value, str) and value in allowed))
    if name == "default" and item.classpath in ("", "/NXentry", "/NXentry/NXsubentry"):
        record(address, "value of @default", verdict(isinstance(value, str) and value in item.h5_object))
    elif name == "signal":
        record(address, "value of @signal", verdict(isinstance(value, str) and value in item.h5_object))
    elif name == "target":
        record(address, "value of @target", verdict(isinstance(value, str) and value in v.addresses))
    elif name != "axes":
        record(address, "value of @" + name, finding.TODO)


def member(v, item, definition, name):
    try:
        obj = item.h5_object[name]
    except (KeyError, OSError):
        obj = None
    if obj is None:
        return
    sub = v.addresses.get(member_address(item, name))
    if sub is None:
        return
    if is_dataset(obj):
        record(sub.h5_address, "field in base class", finding.OK)
    elif is_group(obj):
        record(sub.h5_address, "group in base class", finding.OK)
    else:
        record(sub.h5_address, "unhandled: group_items_in_base_class", finding.TODO)


# ---------------------------------------------------------------- application definitions


def member_address(item, name):
    return item.h5_address.rstrip("/") + "/" + name


def first_value(obj):
    if not isinstance(obj, h5py.Dataset):
        return None
    value = obj[()]
    if isinstance(value, numpy.ndarray):
        value = value.flat[0] if value.size > 0 else None
    return value


def C26_application(v, group):
    name = str(decode(first_value(group.h5_object["definition"])))
    definition = v.manager.classes.get(name)
    record(group.h5_address, "known NXDL", verdict(definition is not None))
    if definition is None:
        return
    test = "NeXus application definition"
    record(group.h5_address, test, verdict(definition.category in ("applications", "contributed_definitions")))
    record(group.h5_address, test, finding.TODO)
    if len(definition.groups) == 0:
        return
    entry = list(definition.groups.values())[0]
    for name, field in entry.fields.items():
        obj = utils.getHdf5Member(group.h5_object, name)
        address = group.h5_address if obj is None else member_address(group, name)
        record(address, "NXDL field", verdict(obj is not None))
        if len(field.enumerations) > 0:
            value = decode(first_value(obj))
            ok = any(allowed == value for allowed in field.enumerations)
            record(address, "NXDL field enumerations", verdict(ok))


# ---------------------------------------------------------------- default plot


def C27_default_plot(v):
    found = C28_v3(v)
    if found is None:
        found = C28_v2(v)
    root = v.addresses["/"]
    if found is not None:
        status = finding.OK
    else:
        required = 1
        for item in v.addresses.values():
            if getattr(item, "nx_class", None) == "NXentry":
                required = v.manager.classes["NXentry"].groups["data"].minOccurs
                break
        status = finding.ERROR if required > 0 else finding.NOTE
    record(root.h5_address, "NeXus default plot", status)


def child_address(item, pointer):
    if isinstance(item.h5_object, str):
        address = (item.parent or item).h5_address
    else:
        address = item.h5_address
    if not address.endswith("/"):
        address += "/"
    return address + str(decode(pointer))


def points_at(v, item, name, address):
    pointer = item.h5_object.attrs.get(name)
    if pointer is None:
        return False
    named = child_address(item, pointer)
    return named in v.h5 and address == named


def C28_v3(v):
    test = "NeXus default plot v3"
    found = None
    chain = []
    for item in v.classpaths.get("/NXentry/NXdata@signal", []):
        data = item.parent
        entry = data.parent
        root = v.addresses["/"]
        plot = child_address(data, data.h5_object.attrs["signal"])
        if not points_at(v, data, "signal", plot):
            record(item.h5_address, test + ", NXdata@signal", finding.ERROR)
            return None
        if is_dataset(utils.getHdf5Member(v.h5, plot)):
            record(item.h5_address, test + ", NXdata@signal", finding.OK)
            found = plot
            if points_at(v, root, "default", entry.h5_address) and points_at(v, entry, "default", data.h5_address):
                chain.append(item)
    if len(chain) == 1:
        record(chain[0].h5_address, test + " NIAC2014", finding.OK)
        return chain[0].h5_address
    return found


def C28_v2(v):
    test = "NeXus default plot v2"
    groups = {}
    for path, items in v.classpaths.items():
        if path.endswith("@signal"):
            for item in items:
                if is_dataset(item.parent.h5_object):
                    if str(decode(item.h5_object)) == "1":
                        record(item.h5_address, test + ", @signal=1", finding.OK)
                        address = item.parent.parent.h5_address
                        if address not in groups:
                            groups[address] = []
                        groups[address].append(item)
                    else:
                        record(item.h5_address, test + ", @signal!=1", finding.WARN)
    found = None
    for items in groups.values():
        if len(items) == 1:
            record(items[0].h5_address, test, finding.OK)
            found = items[0].parent.h5_address
        elif len(items) > 1:
            record(items[0].parent.parent.h5_address, test + ", multiple @signal=1", finding.ERROR)
    return found
