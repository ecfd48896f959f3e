"""The properties: one entry each."""

VF = "gated value-flow analysis of the source; table of guarded findings compared with a reference table"
VFE = "gated value-flow analysis of the source; table of guarded effects compared with a reference table"
VQ = "gated value-flow analysis of the source; query over guarded effects (ordering, who-may-call)"
NOTE = (
    "Decided on the source for every input: the analysis follows every branch, call and loop of the code symbolically (joins at merges, loops in "
    "closed form) and compares exact conditions. Trusts the library models in punxcheck/lib.py and the reading of the property written down in DESIGN.md."
)

PROPS = []
NA = {}


def prop(id, title, statement, over, for_, tests, files, mech, technique=VF, note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, tests=" ".join(tests.split()), files=["punx/" + f for f in files],
                      mech=mech, technique=technique, note=note, **{"for": for_}))


# ------------------------------------------------------------------ files and caches

prop("C01", "Inspecting files changes nothing",
     """Validating a data or NXDL file, displaying its tree, listing the file sets and running the demo never create, change or delete a file: HDF5 files are
     opened read-only, and no file set is added, updated or removed. Only installing changes a file set; apart from that, at most punx's own settings and cache
     directories are created.""",
     ["inputs", "histories"], "any file, any command and option, any state of the caches",
     "tests run commands on sample files and never look for writes elsewhere; a write on a rare branch shows on no sampled input",
     ["main.py", "validate.py", "h5tree.py", "nxdltree.py", "cache_manager.py"],
     [("h5py.File(..., 'r')", "validate.py, h5tree.py, utils.py"), ("user/source caches", "cache_manager.py")], VQ)

prop("C02", "Install without --update leaves an installed file set alone",
     """Installing a file set whose name is already installed, without asking for an update, downloads nothing and leaves that file set as it is; with the update
     option it is replaced. The option is off unless given, and applies to every file set named on the command line.""",
     ["inputs", "histories"], "any list of names, any state of the caches",
     "needs a network; the tests that reach it fail offline, and they sample one name",
     ["cache_manager.py", "main.py"], [("install_NXDL_file_set(force)", "cache_manager.py"), ("--update", "main.py")], VQ)

prop("C03", "A failed install leaves the old file set in place",
     """An installed file set is removed only after its replacement has been downloaded and unpacked, holds NeXus definitions, and has its information record. The
     replacement then takes the name of the file set, so that whatever fails before (download, archive, empty archive, date) leaves the old file set as it was.""",
     ["fault_sequences", "crash_points"], "any failure of the network, of the archive or of reading it, before the old file set is removed",
     "failures between two steps of an update are not simulated by any test",
     ["cache_manager.py"], [("install into a scratch directory, then rename", "cache_manager.py:install_NXDL_file_set")], VQ)

prop("C04", "Install extracts exactly the definition files",
     """From the downloaded archive, installing extracts the .xsd, .xml and .xsl members whose own directory is the archive's root directory or a directory named for
     one of the three NXDL categories (base_classes, applications, contributed_definitions), and no other member; each keeps its place below the file set
     directory.""",
     ["inputs"], "any archive",
     "tests cannot download an archive here, and one archive exercises few member names",
     ["cache_manager.py"], [("should_extract", "cache_manager.py"), ("extract", "cache_manager.py")], VFE)

prop("C05", "Install stays inside the cache directory",
     """Whatever name is given for a file set, and whatever the archive contains, installing writes, renames and removes only inside the cache directory. A name
     which is not a plain directory name is refused before anything is changed.""",
     ["inputs"], "any file set name, any archive",
     "no test uses a hostile name or archive",
     ["cache_manager.py"], [("name check before path is built", "cache_manager.py:install_NXDL_file_set")], VQ)

prop("C06", "The information record of an installed file set is complete",
     """An installed file set has an information record holding its name (ref), commit (sha), source (url) and the date of its newest definition file
     (last_modified), in the place and under the keys from which these are read back later.""",
     ["inputs", "histories"], "any file set, any archive",
     "the record is written by install, which needs a network, and read elsewhere; no test runs the round trip",
     ["cache_manager.py", "github_handler.py"], [("write json file", "cache_manager.py"), ("read_info_file", "cache_manager.py")], VFE)

prop("C07", "File sets are discovered in both caches, the user's first",
     """The known file sets are exactly the subdirectories with an information record of the cache distributed with the package and of the user's cache. When both
     hold a file set of the same name, the user's is used.""",
     ["configurations"], "any content of the two caches",
     "tests run with the caches of this machine",
     ["cache_manager.py"], [("find_all_file_sets", "cache_manager.py")], VFE)

prop("C08", "The default file set is the newest one",
     """When no file set is requested, the one used is, among all the known file sets, the one with the latest last_modified date, unless another was selected
     with select_NXDL_file_set.""",
     ["configurations"], "any set of installed file sets",
     "tests run with the caches of this machine",
     ["cache_manager.py"], [("select_NXDL_file_set, _get_default", "cache_manager.py")], VFE)

prop("C09", "An unknown file set is refused",
     """Asking for a file set that is not known is refused: building a definitions manager or a validator with its name (NXDL_Manager, Data_File_Validator) raises
     KeyError, and "punx validate" prints a message that names the available file sets and exits with a nonzero status. Neither falls back on another file set.""",
     ["inputs", "configurations"], "any name that is not a known file set",
     "one or two unknown names are sampled, and not through every entry point",
     ["cache_manager.py", "nxdl_manager.py", "main.py"], [("select_NXDL_file_set", "cache_manager.py"), ("NXDL_Manager", "nxdl_manager.py")], VFE)

prop("C10", "The requested definitions are used throughout",
     """A validation uses one file set, the requested one (or the default one), for everything: base classes, application definitions, name patterns, the schema
     against which the NXDL files are checked, and the header of the report.""",
     ["configurations", "histories"], "any pair of file sets, any order of validations in one process",
     "tests seldom use two file sets in one process and compare what was used",
     ["nxdl_manager.py", "schema_manager.py", "validate.py", "validations/item_name.py"],
     [("nxdl_file_set passed along", "nxdl_manager.py"), ("schema_manager of the file set", "schema_manager.py")], VFE)

prop("C11", "Loading definitions does not depend on what was loaded before",
     """What is parsed from a schema or from an NXDL file depends only on that file and on its schema: not on the files parsed before it in the same process or in
     the same file set, nor on how many times they were parsed.""",
     ["histories"], "any sequence of loads",
     "tests load definitions in one order, mostly once",
     ["nxdl_manager.py", "nxdl_schema.py", "schema_manager.py"], [("attributes per instance", "nxdl_schema.py"), ("singletons", "singletons.py")], VQ)

prop("C12", "Required and optional items by the definition's own category",
     """A group without an explicit minOccurs is required (1) when its own definition is an application definition and optional (0) otherwise; the explicit
     value is used when there is one. The default minOccurs of a group or field (1), and the default "optional" of an attribute (False), are set by definitions in applications only, each for itself.""",
     ["inputs", "histories"], "any NXDL definition of each category",
     "tests look at a few definitions of one file set",
     ["nxdl_manager.py"], [("minOccurs", "nxdl_manager.py"), ("NXDL__definition.category", "nxdl_manager.py")], VFE)

prop("C13", "All definitions of a file set are loaded",
     """Loading a file set loads every NXDL file (*.nxdl.xml) of its three category directories, each under its own class name, and no other file; a missing
     category directory is an error.""",
     ["configurations"], "any file set directory",
     "tests load the file sets distributed with the package only",
     ["nxdl_manager.py"], [("get_NXDL_file_list", "nxdl_manager.py")], VFE)

prop("C14", "An invalid NXDL file is never used",
     """Every NXDL file is validated against its file set's schema before anything is read from it, and an NXDL file that cannot be parsed or that is not valid
     raises an error that reaches the caller. Validating an NXDL file with the API or on the command line reports the same error.""",
     ["inputs"], "any NXDL file that is malformed or violates the schema",
     "one broken file is sampled",
     ["nxdl_manager.py", "validate.py", "main.py"], [("validate_xml_tree", "nxdl_manager.py"), ("validate_xml", "validate.py")], VQ)

prop("C15", "Nothing in an NXDL file is lost when it is parsed",
     """Every attribute, field, group, link, symbol and enumeration item of a definition, at every depth, is found in the parsed definition, once, under a name of its
     own; two unnamed groups of one type get different names, and an attribute declared twice raises an error.""",
     ["inputs"], "any valid NXDL file",
     "tests count the items of a few definitions",
     ["nxdl_manager.py"], [("parse_nxdl_xml", "nxdl_manager.py"), ("ensure_unique_name", "nxdl_manager.py")], VFE)

# ------------------------------------------------------------------ validation

prop("C16", "A name pattern must match the whole name",
     """A name conforms to a name pattern only if the whole of it, from the first character to the last, matches; a value that is not text never conforms. The
     relaxed name pattern and the NX_class pattern are those of the selected file set, whatever was looked up before.""",
     ["inputs", "histories"], "any name, any order of checks",
     "a handful of names are sampled; trailing characters and stale cached patterns are not",
     ["validations/item_name.py", "validate.py"], [("regexp_cache", "validate.py"), ("match of the whole name", "validations/item_name.py")], VFE)

prop("C17", "Every object of a data file is catalogued",
     """Validation catalogues the root, every group, every dataset and every one of their attributes (names are valid text without "@"), each under its own address and under its NeXus class path, at
     every depth (what is in a group that is not NeXus is catalogued as non-NeXus content, the attributes there without addresses of their own). A link that leads nowhere, or to a group that contains it, gives a WARN finding with the group that holds it and is not followed, and the rest of
     the file is still catalogued.""",
     ["inputs"], "any HDF5 file",
     "tests use sample files without dangling or circular links",
     ["validate.py", "utils.py"], [("_group_address_catalog_", "validate.py"), ("ValidationItem", "validate.py")], VFE)

prop("C18", "Nothing catalogued escapes validation",
     """Each catalogued object except the root has its name checked and each catalogued attribute its value, each group and the root is checked against its NeXus
     class, each NXentry and each NXsubentry with a definition field is checked against the application definition it names, and the default plot is checked once.""",
     ["inputs"], "any HDF5 file",
     "tests compare counts of findings for a few sample files",
     ["validate.py"], [("validate", "validate.py:Data_File_Validator")])

prop("C19", "Item names are graded by the NeXus naming rules",
     """The name of a group, dataset or link gets OK when it conforms to the strict rule ([a-z_][a-z0-9_]*), NOTE when only to the relaxed pattern of the file set, ERROR otherwise,
     and WARN in place of these within an NXcollection; an attribute name gets OK when it conforms to either and ERROR otherwise. The name finding of an @NX_class attribute is OK exactly when its
     value conforms to the NX_class pattern, and attributes of a link's copy (those whose @target is text naming another address) are not graded again.""",
     ["inputs"], "any name, at any class path",
     "a few names are sampled, and few combinations with NXcollection, links and attributes",
     ["validate.py", "validations/item_name.py"], [("validate_item_name", "validate.py"), ("isStrictItemName", "validations/item_name.py")])

prop("C20", "An @NX_class value must name a known base class",
     """The value of @NX_class is OK when it names a base class of the file set, or a contributed definition which is not an application definition; it is an ERROR
     for an application definition, for any other name and for a value which is not text.""",
     ["inputs"], "any @NX_class value, any file set",
     "a few classes are sampled",
     ["validations/nx_class_attribute.py"], [("NX_class attribute", "validations/nx_class_attribute.py")])

prop("C21", "@signal is judged by what it is attached to",
     """@signal of a group is OK exactly when its value names an object in that group, ERROR otherwise, and that name is also graded by the naming rules. @signal of
     a dataset is OK exactly when its value reads as the number 1, and gets a NOTE otherwise.""",
     ["inputs"], "any @signal value, on any object",
     "a few sample files",
     ["validations/attribute.py"], [("@signal", "validations/attribute.py")])

prop("C22", "Each name listed in @axes must exist",
     """Each entry of @axes gets two findings: its name graded by the naming rules, and OK or ERROR as the group (the containing group, for the @axes of a
     dataset) does or does not hold an object of that name. One entry and a list of entries are treated alike, and an entry that is not text is an ERROR.""",
     ["inputs"], "any @axes value, on any object",
     "a few sample files",
     ["validations/attribute.py"], [("@axes", "validations/attribute.py")])

prop("C23", "@target must be the absolute address of an object in the file",
     """@target is OK exactly when its value is text that starts with "/", each part of the address conforms to the naming rules, and each part leads to an existing object; otherwise
     it is an ERROR. The value of any other attribute is reported as not validated yet (TODO), never as OK or ERROR.""",
     ["inputs"], "any @target value",
     "a few sample files",
     ["validations/attribute.py"], [("@target", "validations/attribute.py")])

prop("C24", "A group must be an instance of a known base class",
     """For a group with an NX_class, and for the root (NXroot), the class is OK as known exactly when the file set defines it, and as a base class when it is in the base classes category, or is a contributed
     definition that is not laid out as an application definition; otherwise each is an ERROR. A group that is not NeXus, or lies below one, gets OK as a plain HDF5 group and is not
     compared with any class.""",
     ["inputs"], "any group, any NX_class value, any file set",
     "a few sample files and classes",
     ["validate.py", "nxdl_manager.py"], [("validate_group", "validate.py"), ("usedAsBaseClass", "validate.py")])

prop("C25", "The contents of a group are compared with its class, both ways",
     """Each attribute, dataset and subgroup of a group of known class is reported as found, and each field and group that the class defines is reported as OK when the group holds an
     object of that name, OPTIONAL otherwise. A group attribute whose values the class enumerates is OK exactly when its value is one of them; @default (of the root, an entry or subentry), @signal and @target
     of a group are OK exactly when they name what exists.""",
     ["inputs"], "any group content, any class",
     "a few sample files and classes",
     ["validations/base_class_items_in_hdf5_group.py", "validations/hdf5_group_items_in_base_class.py"],
     [("items of the class", "validations/base_class_items_in_hdf5_group.py"), ("items of the group", "validations/hdf5_group_items_in_base_class.py")])

prop("C26", "An application definition's fields are required",
     """For each definition field of an NXentry or NXsubentry, the definition it names is an ERROR unless the file set has it, and unless it is an application or contributed definition. Each field
     that its entry defines is OK when the group holds it and ERROR when not, and OK or ERROR as its value is or is not one of the values enumerated for it, if any.""",
     ["inputs"], "any entry, any application definition",
     "a few sample files and definitions",
     ["validations/application_definition.py"], [("verify", "validations/application_definition.py")])

prop("C27", "There is exactly one verdict on the default plot",
     """Each validation gives exactly one finding, at the root, on whether the file has a default plot: OK when one is found by the NIAC2014 (v3) rules or else by the
     v2 rules; otherwise ERROR when the file set's NXentry requires NXdata (or the file has no NXentry), and NOTE when it does not.""",
     ["inputs", "histories"], "any HDF5 file, any file set, any file validated before",
     "a few sample files, in one order",
     ["validations/default_plot.py"], [("verify", "validations/default_plot.py")])

prop("C28", "What counts as a default plot",
     """By the v3 rules a default plot is a dataset which the @signal of an NXdata group in an NXentry names, and the one reached from the root through @default, when there is just one. By the v2
     rules it is a dataset with @signal=1 which is the only one in its group: two in a group are an ERROR, another value of @signal gets a WARN.""",
     ["inputs"], "any HDF5 file",
     "a few sample files",
     ["validations/default_plot.py"], [("default_plot_v3", "validations/default_plot.py"), ("default_plot_v2", "validations/default_plot.py")])

prop("C29", "Findings are recorded faithfully",
     """Every finding that is made is in the list of findings of the validator, with the address, test, status and comment it was made with, and also with its item; its status is one of the
     valid statuses. No finding is later removed or changed, until the next validation starts with an empty list.""",
     ["inputs", "histories"], "any validation",
     "tests count findings on sample files",
     ["validate.py", "finding.py"], [("record_finding", "validate.py"), ("Finding", "finding.py")], VFE)

prop("C30", "Score and summary add up",
     """The summary counts each finding once, under its status, for each of the requested statuses (all of them by default), including those with no finding. The score is the sum of the values of the statuses
     of the findings whose value is not zero, divided by their number, and 0 if there are none; neither depends on the order of the findings.""",
     ["inputs"], "any list of findings, any choice of statuses",
     "one or two sample files",
     ["validate.py", "finding.py"], [("finding_score, finding_summary", "validate.py")], VFE)

prop("C31", "A report shows exactly the chosen findings",
     """A report lists every finding whose status was chosen, and no other; without a choice it lists all. Status names are accepted in any case, separated by commas, and an unknown one is refused with a
     message instead of being ignored.""",
     ["inputs"], "any list of findings, any --report value",
     "one or two values of the option are sampled",
     ["validate.py", "main.py", "finding.py"], [("print_report", "validate.py"), ("parse_command_line_arguments / func_validate", "main.py")], VFE)

prop("C32", "A validator can be reused",
     """Validating a second file with one validator gives the findings, addresses and class paths of that file only, and closes the file opened before. Closing is allowed at any time and more than once; a file that does not exist
     or that is not HDF5 is reported as such (FileNotFound, HDF5_Open_Error).""",
     ["histories", "inputs"], "any sequence of validate and close",
     "tests validate one file with one validator",
     ["validate.py"], [("validate, close, __init_local__", "validate.py")], VFE)

prop("C33", "Text is decoded the same way everywhere",
     """Text stored in a file as bytes (also as a numpy array of one) is decoded as UTF-8 whatever the locale, without ever failing, and any other value is left alone. Values read from a file are decoded before they are compared with names, classes or
     addresses.""",
     ["inputs", "configurations"], "any bytes, any locale",
     "tests run in one locale with ASCII text",
     ["utils.py", "validate.py", "h5tree.py"], [("decode_byte_string", "utils.py")], VFE)

prop("C34", "No attribute or dataset value stops a validation",
     """A validation does not stop with an exception because of what an attribute or a dataset holds: numbers, arrays, empty values or bytes are judged, like text, instead of being used as if they were text.""",
     ["inputs"], "any type and shape of attribute and dataset values",
     "sample files hold the expected types only",
     ["validate.py", "validations/*.py"], [("type tests before text is used", "validations/attribute.py")], VQ)

prop("C35", "Errors on the command line are messages, not tracebacks",
     """When the input file is missing, is not HDF5 or NXDL or is invalid, or when the file set is unknown, the command line prints a message and exits with a nonzero status: none of the exceptions that punx itself raises for these ends in a
     traceback.""",
     ["inputs"], "any such input, any command",
     "a few combinations are sampled",
     ["main.py"], [("func_validate, func_tree", "main.py"), ("exceptions", "__init__.py")], VQ)

prop("C36", "Subcommands can be abbreviated unambiguously",
     """An unambiguous beginning, of two characters or more, of a subcommand selects that subcommand, and the full name always does. A shorter, ambiguous or unknown one is refused with a message and a nonzero exit status, and nothing is done.""",
     ["inputs"], "any first argument",
     "a few abbreviations are sampled",
     ["main.py"], [("parse_command_line_arguments", "main.py"), ("MyArgumentParser", "main.py")], VFE)

prop("C37", "No path reaches an undefined name",
     """No path through the program uses a name that is not defined, a local variable that was not assigned, a module attribute or a method that does not exist, or calls a function of the program with arguments it does not take.""",
     ["inputs", "programs"], "any path through any function",
     "rarely taken branches (error handling, odd files) are run by no test",
     ["*.py"], [("all functions", "punx")], "gated value-flow analysis of the source; definite-assignment, attribute and call-signature resolution on every path")

prop("C38", "The tree shows everything once",
     """The tree of an HDF5 file shows each member of each group once, at every depth. A symbolic link, and a link made with @target, is shown with its target and not
     descended into; a member that cannot be reached (such as an external link whose file is missing or is not HDF5) is shown and not followed; and a group that is
     reached again from inside itself is shown and not descended into, so that the tree ends. All attributes, and the file and path of external links, are shown when
     attributes are asked for, and none otherwise. The file is opened for reading only.""",
     ["inputs"], "any HDF5 file",
     "tests compare the trees of a few sample files",
     ["h5tree.py", "utils.py"], [("report, _renderGroup, _renderDataset, _renderAttributes", "h5tree.py"), ("isHdf5Ancestor, isNeXusLink", "utils.py")], VFE)

prop("C39", "Array previews show the number of values asked for",
     """When three or more array items may be shown, the tree shows, along each dimension of a dataset of numbers of rank one to three, all of its parts if they are no
     more than the number asked for, and otherwise the first of them, a mark that some are left out, and the last: never more than the number asked for, and in
     their order. A dataset with one value is shown with its value whatever the number is.""",
     ["inputs"], "any shape of rank three or less, any requested number",
     "a few shapes are sampled",
     ["h5tree.py"], [("_renderDataset, _renderArray, _renderNdArray, _decideNumShown", "h5tree.py")], VFE)

prop("C40", "An NXDL file's tree uses its own category's stylesheet",
     """The tree of an NXDL file is made with the stylesheet of the category which the file itself states, from that file, and shown; a file that is missing, cannot be
     parsed or states no known category is an error with a message.""",
     ["inputs"], "any NXDL file",
     "one NXDL file is sampled",
     ["nxdltree.py", "main.py"], [("NxdlTreeView.report, _determine_category_", "nxdltree.py"), ("func_tree", "main.py")], VFE)

prop("C41", "A failed download is tried again, a bounded number of times",
     """A download whose connection fails is tried again, up to the number of retries, and then the failure is reported to the caller; one that succeeds is returned at once and not repeated.""",
     ["fault_sequences"], "any sequence of failures of the network",
     "no network in tests, and failures are not simulated",
     ["cache_manager.py"], [("download retry", "cache_manager.py")], VFE)

prop("C42", "Command-line options reach what they control",
     """Each option does what its help says and only that: the file set chosen for validate, the statuses chosen with --report, the choice of attributes and the number of array values for tree, the names and the update choice for install, are those used by the command, and
     the defaults are those the help announces.""",
     ["inputs"], "any combination of options",
     "a few combinations are sampled",
     ["main.py"], [("parse_command_line_arguments", "main.py"), ("func_*", "main.py")], VFE)

prop("C43", "NeXus and link predicates answer exactly",
     """The predicates of the API tell exactly what they say for any object: an HDF5 file, group, dataset or link, a NeXus link (an object whose @target is text naming another address), a NeXus group of a given
     class, a NeXus file or dataset; they return a plain answer, without an exception, for any value or file.""",
     ["inputs"], "any object",
     "one or two objects of each type are sampled",
     ["utils.py"], [("isHdf5*, isNeXus*", "utils.py")], VFE)

prop("C44", "The defaults of NXDL items are those that nxdl.xsd declares",
     """What nxdl.xsd declares of its attributes, elements, groups and types (name, type, use, default value, occurrence, patterns, length and content, with every reference to another
     declaration replaced by what that one declares) is what the summary of the schema tells, and each NXDL definition, group, field, attribute and dimension starts from
     the attributes declared for its kind, with the default values of those that are required.""",
     ["inputs"], "any schema whose declarations of one kind are on different lines",
     "tests look at some numbers and names of one shipped schema; other declarations, orders, references and missing parts show only with other schemas",
     ["nxdl_schema.py", "nxdl_manager.py"], [("NXDL_item_catalog, NXDL_Summary", "nxdl_schema.py"), ("_init_defaults_from_schema", "nxdl_manager.py")], VFE)

prop("C45", "Name patterns and types are those of the file set's schema",
     """The patterns that names are tested with are those declared in nxdl.xsd of the file set (and, when a pattern is based on another one, those of that one), the known data types and
     unit types are those declared in nxdlTypes.xsd next to it, and the structure of NXDL elements is that of the declared types with their attributes, defaults, choices and children. A schema
     with something unknown in it is refused.""",
     ["inputs"], "any schema files",
     "tests look at the shipped schemas only",
     ["schema_manager.py"], [("SchemaManager.parse_nxdl_patterns, parse_nxdlTypes", "schema_manager.py"), ("Schema_*", "schema_manager.py")], VFE)
