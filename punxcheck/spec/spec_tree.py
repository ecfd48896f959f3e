"""Reference behaviour: the tree of an HDF5 file.  Analysed, never executed."""
import os

import h5py

from punx import FileNotFound, HDF5_Open_Error, h5tree, utils


# C38

def init(view, filename):
    view.requested_filename = filename
    view.filename = None
    view.show_attributes = True
    if not os.path.exists(filename):
        raise FileNotFound(filename)
    view.filename = filename
    try:
        view.isNeXus = utils.isNeXusFile(filename)
    except OSError:
        raise HDF5_Open_Error(filename)


def report(view, show_attributes=True):
    if view.filename is None:
        return None
    view.show_attributes = show_attributes
    with h5py.File(view.filename, "r") as root:
        return h5tree.Hdf5TreeView._renderGroup(view, root, view.filename, indentation="")


def group(view, obj, name, indentation="  ", md=None, ancestors=()):
    lines = [name]
    lines += attributes(view, obj)
    lines += target(view, md)
    for member in sorted(obj):
        link = obj.get(member, getlink=True)
        if isinstance(link, h5py.SoftLink):
            lines.append(f"{member} {link.path}")
            continue
        try:
            found = obj.get(member, getclass=True)
        except (KeyError, OSError, RuntimeError):
            found = None
        if found is None:
            lines.append(member)
            lines += target(view, link)
            continue
        value = obj[member]
        if utils.isNeXusLink(value):
            lines.append(f"{member} {goal(value)}")
        elif utils.isHdf5Group(value) or utils.isHdf5FileObject(value):
            if utils.isHdf5Ancestor(value, (*ancestors, obj)):
                lines.append(f"{member} {value.name}")
            else:
                lines += group(view, value, member, indentation, link, (*ancestors, obj))
        elif utils.isHdf5Dataset(value):
            if view.isNeXus and "target" in value.attrs and goal(value) != value.name:
                lines.append(f"{member} {goal(value)}")
            else:
                lines.append(member)
                lines += attributes(view, value)
            lines += target(view, link)
        else:
            lines.append(member)
            lines += attributes(view, value)
    return lines


def goal(obj):
    return utils.decode_byte_string(obj.attrs["target"])


def attributes(view, obj):
    return [f"{key} {value}" for key, value in obj.attrs.items()] if view.show_attributes else []


def target(view, link):
    return [link.filename, link.path] if view.show_attributes and isinstance(link, h5py.ExternalLink) else []


# C39

def array(view, obj, indentation="  "):
    if len(obj.shape) == 0:
        return None
    size = obj.shape[0]
    most = view.array_items_shown
    if most is None or size <= most:
        return str([part(view, obj, i) for i in range(size)])
    shown = [part(view, obj, i) for i in range(most - 2)]
    shown.append("...")
    shown.append(part(view, obj, -1))
    return str(shown)


def part(view, obj, i):
    """a number, or an array of lower rank"""
    if len(obj.shape) == 1:
        return obj[i]
    return view._renderNdArray(obj[i])


def dataset(view, dset, name, indentation="  "):
    if view.isNeXus and "target" in dset.attrs and goal(dset) != dset.name:
        return [goal(dset)]
    if dset.shape is None:
        return []
    if dset.dtype.kind in ("S", "O") or not dset.shape:
        return [str(dset[()])]
    if dset.shape == (1,):
        return [str(dset[0])]
    return [view._renderNdArray(dset)]
