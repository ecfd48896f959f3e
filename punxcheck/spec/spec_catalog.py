"""Reference behaviour: the catalog of a data file.  Analysed, never executed."""
from punx import finding, utils
from punx.validate import ValidationItem

NON_NEXUS = "non-NeXus content"


# C17

def start(validator):
    validator._group_address_catalog_(None, validator.h5)


def group(validator, parent, here, name=None):
    item = file(validator, ValidationItem(parent, here, link_name=name))
    for member in here:
        child = utils.getHdf5Member(here, member)
        if child is None:
            validator.record_finding(item, "leads nowhere: " + member, finding.WARN, member)
        elif not utils.isHdf5Group(child):
            file(validator, ValidationItem(item, child, link_name=member))
        elif utils.isHdf5Ancestor(child, above(item)):
            validator.record_finding(item, "leads to a group it is in: " + member, finding.WARN, member)
        else:
            group(validator, item, child, member)


def above(item):
    """the group and all those which contain it"""
    found = []
    while item is not None:
        found.append(item.h5_object)
        item = item.parent
    return found


def file(validator, item):
    """the object and its attributes"""
    known(validator, item)
    for name, value in item.h5_object.attrs.items():
        known(validator, ValidationItem(item, value, attribute_name=name))
    return item


def known(validator, item):
    validator.addresses[item.h5_address] = item
    validator.classpaths.setdefault(item.classpath, []).append(item)


def member(group, name):
    try:
        return group[name]
    except (KeyError, OSError, RuntimeError):
        return None


def item(self, parent, obj, attribute_name=None, link_name=None):
    self.parent = parent
    self.h5_object = obj
    if attribute_name is not None:
        self.name = attribute_name
        if parent.classpath == NON_NEXUS:
            self.h5_address = None
            self.classpath = NON_NEXUS
        else:
            self.h5_address = f"{parent.h5_address}@{attribute_name}"
            self.classpath = f"{parent.classpath}@{attribute_name}"
    elif parent is None:
        self.name = "/"
        self.h5_address = obj.name
        self.classpath = ""
    else:
        self.name = link_name
        self.h5_address = parent.h5_address.rstrip("/") + "/" + link_name
        if parent.classpath == NON_NEXUS:
            self.classpath = NON_NEXUS
        elif not utils.isHdf5Group(obj):
            self.classpath = f"{parent.classpath}/{link_name}"
        else:
            nx_class = utils.decode_byte_string(obj.attrs.get("NX_class"))
            if isinstance(nx_class, str) and nx_class.startswith("NX") and "/" not in nx_class and "@" not in nx_class:
                self.nx_class = nx_class
                self.classpath = f"{parent.classpath}/{nx_class}"
            else:
                self.classpath = NON_NEXUS
