"""Reference behaviour: predicates, scores, records.  Analysed, never executed."""
import collections
import h5py
import numpy
import os

from punx import finding
from punx import utils


# C43

def is_file(obj):
    return isinstance(obj, h5py.File)


def is_group(obj):
    return isinstance(obj, h5py.Group) and not isinstance(obj, h5py.File)


def is_dataset(obj):
    return isinstance(obj, h5py.Dataset)


def is_link(obj):
    if not hasattr(obj, "parent"):
        return False
    kind = obj.parent.get(obj.name, getlink=True)
    return isinstance(kind, (h5py.HardLink, h5py.SoftLink))


def is_external_link(parent, obj):
    return isinstance(parent, h5py.Group) and hasattr(obj, "filename") and hasattr(obj, "path")


def is_nexus_group(obj, NXtype):
    nx_class = None
    if is_group(obj):
        nx_class = obj.attrs.get("NX_class")
        if isinstance(nx_class, numpy.ndarray):
            nx_class = nx_class.flat[0] if nx_class.size > 0 else None
        nx_class = utils.decode_byte_string(nx_class)
    return nx_class == str(NXtype)


def is_nexus_link(obj):
    target = utils.decode_byte_string(obj.attrs.get("target", ""))
    return isinstance(target, str) and target != "" and target != obj.name


def is_ancestor(group, ancestors):
    return any(
        h5py.h5o.get_info(group.id).fileno == h5py.h5o.get_info(other.id).fileno
        and h5py.h5o.get_info(group.id).addr == h5py.h5o.get_info(other.id).addr
        for other in ancestors
    )


def is_nexus_file(filename):
    if not os.path.exists(filename):
        return None
    with h5py.File(filename, "r") as root:
        return any(is_nexus_group(utils.getHdf5Member(root, name), "NXentry") for name in root)



# C33

def decode(value):
    if isinstance(value, numpy.ndarray) and (value.dtype.kind == "O" or value.dtype.kind == "S"):
        if value.size == 0:
            return None
        return numpy.array([str(utils.decode_byte_string(v)) for v in value.flat]).reshape(value.shape).tolist()
    if isinstance(value, (bytes, numpy.bytes_)):
        return value.decode("utf8", "replace")
    if isinstance(value, str):
        return value.encode("utf8", "surrogateescape").decode("utf8", "replace")
    return value


# C30

def score(v):
    total = sum(f.status.value for f in v.validations if f.status.value != 0)
    count = sum(1 for f in v.validations if f.status.value != 0)
    return total, count, (float(total) / count if count != 0 else 0)


def summary(v, report_statuses=None):
    chosen = report_statuses or finding.VALID_STATUS_LIST
    counts = {}
    for status in chosen:
        counts[status] = 0
    for f in v.validations:
        if f.status in counts:
            counts[f.status] += 1
    return counts


def summary_counted(v, report_statuses=None):
    chosen = report_statuses or finding.VALID_STATUS_LIST
    return {status: sum(1 for f in v.validations if f.status == status) for status in chosen}


def summary_counter(v, report_statuses=None):
    chosen = report_statuses or finding.VALID_STATUS_LIST
    counts = collections.Counter(f.status for f in v.validations)
    return {status: counts[status] for status in chosen}


# C29

def record_finding(v, item, key, status, comment):
    f = finding.Finding(item.h5_address, key, status, comment)
    v.validations.append(f)
    item.validations[key] = f
    return f


def make_finding(f, h5_address, test_name, status, comment):
    if status not in (finding.OK, finding.NOTE, finding.WARN, finding.ERROR, finding.TODO, finding.UNUSED, finding.COMMENT, finding.OPTIONAL):
        raise ValueError("unknown status value: " + str(status))
    f.h5_address = h5_address
    f.test_name = str(test_name)
    f.status = status
    f.comment = comment


# C32

def close(v):
    if isinstance(v.h5, h5py.File):
        v.h5.close()
        v.h5 = None
