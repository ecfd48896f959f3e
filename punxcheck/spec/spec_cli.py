"""Reference behaviour: the command line.  Analysed, never executed."""
import argparse
import os
import pathlib
import sys

import lxml.etree

from punx import FileNotFound, HDF5_Open_Error, InvalidNxdlFile, SchemaNotFound
from punx import cache_manager, finding, h5tree, main, nxdltree, utils, validate

STATUSES = finding.VALID_STATUS_DICT


def failed(message):
    sys.exit(1)


# C09, C14, C31, C35, C42

def run_validate(args):
    known = cache_manager.CacheManager().all_file_sets
    if args.file_set_name not in known:
        failed("unknown")
    if args.infile.endswith(".nxdl.xml"):
        try:
            validate.validate_xml(args.infile, known[args.file_set_name])
        except (FileNotFound, InvalidNxdlFile):
            failed("no such file, or not valid")
        return
    validator = validate.Data_File_Validator(args.file_set_name)
    names = args.report.upper().split(",")
    if any(name not in STATUSES for name in names):
        failed("unknown status")
    try:
        validator.validate(args.infile)
    except (FileNotFound, HDF5_Open_Error, SchemaNotFound):
        failed("no such file, not HDF5, or no schema")
    validator.print_report(statuses=names)


def run_tree(args):
    name = os.path.abspath(args.infile)
    if args.infile.endswith(".nxdl.xml"):
        try:
            view = nxdltree.NxdlTreeView(name)
        except Exception:
            failed("no such file, or not valid")
        view.report(args.show_attributes)
    else:
        try:
            view = h5tree.Hdf5TreeView(name)
        except (FileNotFound, HDF5_Open_Error):
            failed("no such file, or not HDF5")
        view.array_items_shown = args.max_array_items
        try:
            view.report(args.show_attributes)
        except HDF5_Open_Error:
            failed("not HDF5")


def run_demo(args):
    args.infile = os.path.join(os.path.dirname(main.__file__), "data", "writer_1_3.hdf5")
    args.report = ",".join(sorted(STATUSES))
    args.file_set_name = cache_manager.CacheManager().default_file_set.ref
    main.func_validate(args)
    view = h5tree.Hdf5TreeView(args.infile)
    view.array_items_shown = 5
    view.report(True)


# C31

def print_report(validator, statuses=None):
    chosen = statuses or list(STATUSES)
    for f in validator.validations:
        if str(f.status) in chosen:
            row(f.h5_address, f.status, f.test_name, f.comment)


def row(address, status, test, comment):
    """a row of the table"""


# C35

def tree_init(view, name):
    if not os.path.exists(name):
        raise FileNotFound(name)
    try:
        utils.isNeXusFile(name)
    except OSError:
        raise HDF5_Open_Error(name)


def nxdl_tree_init(view, name):
    if not os.path.exists(name):
        raise FileNotFound(name)
    view.nxdl_file = name
    view.nxdl_category = view._determine_category_()


# C36

def parse_args(parser, args=None, namespace=None):
    if args is None and len(sys.argv) > 1 and not sys.argv[1].startswith("-"):
        word = sys.argv[1]
        names = []
        for action in parser._subparsers._group_actions:
            if isinstance(action, argparse._SubParsersAction):
                names = action.choices.keys()
                break
        if len(names) > 0 and word not in names:
            meant = [name for name in names if name.startswith(word)]
            if len(word) < 2 or len(meant) != 1:
                failed("not a subcommand")
            sys.argv[1] = meant[0]
    return argparse.ArgumentParser.parse_args(parser, args, namespace)


# C42

def run_install(args):
    manager = cache_manager.CacheManager()
    for name in args.file_set_name:
        cache_manager.download_file_set(name, pathlib.Path(manager.user.path), replace=args.update)


def run():
    args = main.parse_command_line_arguments()
    if not hasattr(args, "func"):
        failed("no subcommand")
    args.func(args)


# C40

FOLDERS = dict(application="applications", base="base_classes", contributed="contributed_definitions")


def nxdl_category(view):
    try:
        tree = lxml.etree.parse(view.nxdl_file)
    except (OSError, lxml.etree.XMLSyntaxError):
        raise ValueError("not XML")
    category = tree.getroot().get("category")
    if category is None or category not in FOLDERS:
        raise ValueError("no known category")
    return FOLDERS[category]


def nxdl_report(view, show_attributes=True):
    folder = os.path.join(cache_manager.CacheManager().default_file_set.path, view.nxdl_category)
    style = os.path.join(folder, "nxdlformat.xsl")
    if not os.path.exists(style):
        raise ValueError("no stylesheet")
    source = lxml.etree.parse(view.nxdl_file)
    return str(lxml.etree.XSLT(lxml.etree.parse(style))(source)).splitlines()
