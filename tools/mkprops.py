#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the wording)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

VAL = "punx/validate.py"
V = "punx/validations/"

# ---------------------------------------------------------------- validation of data files
prop("V01", "Validation finishes on every readable HDF5 file",
 """For any readable HDF5 file, whatever its groups, datasets, named types, links (broken, looping, cyclic,
 external) and whatever the types, shapes and encodings of its attribute and dataset values, validating it
 finishes without raising an exception. Its report can then be printed and its score and summary computed,
 and every finding carries a known status.""",
 ["inputs"], """every file built from a well-formed NeXus file by replacing up to k attribute values, dataset
 values or child objects by members of a menu of HDF5 value types / object and link kinds (k=2 quick, 3 thorough), each bundled file set""",
 """The tests validate a few dozen well-behaved files; a crash needs a particular value type in a particular
 attribute, or a particular link topology, and the combinations are far more than any list of sample files.""",
 [VAL, V+"attribute.py", V+"item_name.py", V+"default_plot.py", V+"application_definition.py",
  V+"hdf5_group_items_in_base_class.py", "punx/utils.py"],
 [("recursive catalogue of groups and attributes", "validate.Data_File_Validator.build_address_catalog"),
  ("per-attribute handlers", V+"attribute.py"), ("string decoding", "punx/utils.py decode_byte_string")],
 ["Data_File_Validator.validate()", "Data_File_Validator.print_report()", "Data_File_Validator.validations"])

prop("V02", "Every item is catalogued once with its address and class path",
 """After validation the catalogue holds every object that can be reached from the root through resolvable
 links (without re-entering a group that is its own ancestor) and every attribute of such an object that is
 NeXus content, exactly once, keyed by its absolute path in this file and filed under the class path formed
 from the NX_class of the enclosing groups plus the field name and @attribute. A group whose NX_class is not
 a string starting with NX, and everything below it, is filed as non-NeXus content and is reported as not a
 NeXus group instead of being compared with a base class.""",
 ["inputs"], """all tree shapes up to a bounded depth and breadth over a menu of node kinds (NeXus group, plain group,
 dataset, hard/soft/external link to each, dangling link) plus deviation-bounded large shapes""",
 """Tests compare a handful of class paths in fixed files; omission or misfiling depends on the nesting order of NeXus
 and non-NeXus groups and on the link kind, which only enumeration covers.""",
 [VAL], [("address catalogue", "validate.Data_File_Validator._group_address_catalog_"),
         ("class path", "validate.ValidationItem.determine_NeXus_classpath")],
 ["Data_File_Validator.addresses", "Data_File_Validator.classpaths", "Data_File_Validator.validations"],
 [("addresses", "absolute path -> item", "validate.Data_File_Validator"), ("classpaths", "class path -> items", "validate.Data_File_Validator")])

prop("V03", "Findings depend only on the file and the definitions, not on history",
 """The findings reported for a data file under a named definitions set are the same whatever the process did
 before: other files validated with the same or another validator, failed validations, other definitions sets
 loaded, tree views made, reports printed.  Validating a second file leaves nothing of the first in the
 findings, catalogue, score or summary.""",
 ["histories"], """every sequence of operations up to depth 3 (quick) / 4 (thorough) from a menu of creating validators for each definitions set,
 validating each of several files (good, no entry, missing, not HDF5), reporting and closing, followed by one observed validation""",
 """Each test builds a fresh validator in its own order; history dependence only appears for particular sequences of earlier operations.""",
 [VAL, V+"default_plot.py", V+"base_class_items_in_hdf5_group.py", "punx/nxdl_manager.py", "punx/schema_manager.py", "punx/cache_manager.py"],
 [("per-run reset", "validate.Data_File_Validator.__init_local__"), ("shared definition objects", "punx/nxdl_manager.py"),
  ("process-wide cache manager", "punx/cache_manager.py CacheManager")],
 ["Data_File_Validator.validations", "Data_File_Validator.finding_score()", "Data_File_Validator.finding_summary()"])

prop("V04", "Item names are classified by the NeXus naming rule",
 """Each group and field reached (other than the root) gets exactly one name finding: OK if the whole name matches the strict
 lower-case pattern, NOTE if it only matches the relaxed pattern(s) of the schema in use, ERROR otherwise, and WARN
 whatever its name if it is an NXcollection group or NeXus content inside of one.  Each attribute of a NeXus object, other
 than NX_class, gets OK if its whole name matches either pattern and ERROR otherwise, except that attributes of a linked item (one
 whose @target names another address) are not judged again.""",
 ["inputs"], """all names up to length 3 (quick) / 4 (thorough) over an alphabet with one member of each character class
 (lower, upper, digit, underscore, punctuation, blank, newline, non-ASCII letter, @ . -), plus long names, as group, field and attribute, inside and outside NXcollection, with and without @target, each file set""",
 """A handful of names is tested; classification is a statement about all strings and each position in the tree.""",
 [V+"item_name.py", VAL, "punx/schema_manager.py"],
 [("pattern match", V+"item_name.py validItemName_match_key"), ("patterns from nxdl.xsd", "schema_manager.SchemaManager.parse_nxdl_patterns")],
 ["findings with test name validItemName"])

prop("V05", "NX_class of a group is accepted exactly when it names a base class",
 """For every group with an NX_class string starting with NX, the findings say OK if the class is a base class (or a
 contributed definition meant as a base class) of the definitions set in use, ERROR if it is an application
 definition (misused as a group class), and ERROR if the class is unknown to that set.  A contributed definition counts as an application
 definition exactly when its entry group declares a definition field.""",
 ["inputs", "configurations"], """every class of every bundled definitions set, and near-miss names, as NX_class of a group at the root, in NXentry and
 deeper, under every bundled definitions set""",
 """Tests try a few classes with one set; the three-way decision must hold for each of about 150 classes of each set and for unknown names.""",
 [V+"nx_class_attribute.py", V+"attribute.py", VAL],
 [("class lookup", V+"nx_class_attribute.py"), ("base class or application", V+"attribute.py isBaseClassNXDL"), ("usedAsBaseClass", VAL)],
 ["findings 'known NXDL', 'NeXus base class', 'attribute value' of @NX_class"])

prop("V06", "Group content is compared item by item with its base class",
 """For every group with a known class, each field and group that the class declares is reported
 once as found (OK) if a child of that name exists and as not found (OPTIONAL) if not, and each child present is reported once as
 defined or not defined by that class according to its own kind.  Each attribute present is reported
 as known or unknown to the class, and a known attribute with an enumeration is OK exactly if its
 value is one of the listed values.""",
 ["inputs", "configurations"], """every base class of each bundled definitions set: the empty group, each declared item alone, undeclared items,
 items of the wrong kind, every attribute with each enumerated value and wrong values, and bounded combinations""",
 """The tests look at a few classes and count findings; the per-item statement must hold for thousands of declared items and for
 each combination of presence.""",
 [V+"hdf5_group_items_in_base_class.py", V+"base_class_items_in_hdf5_group.py", VAL],
 [("file against class", V+"hdf5_group_items_in_base_class.py"), ("class against file", V+"base_class_items_in_hdf5_group.py")],
 ["findings 'NXDL field in data file', 'NXDL group in data file', 'field in base class', 'group in base class', 'known attribute', 'attribute value enumeration'"])

prop("V07", "The default plot verdict follows the NeXus default-plot rules",
 """Exactly one overall default-plot finding is made per file.  It is OK if some NXdata group directly in an NXentry group
 has @signal naming an existing child field and no such NXdata group has a @signal naming nothing, or, failing that, if a field with @signal=1 is
 the only such field of some group; the unique complete root/@default, entry/@default, data/@signal path is recognised and named when there is one.  Otherwise it is
 ERROR if the file has no NXentry group at all, and else ERROR or NOTE according to whether the definitions require a plot; groups with several @signal=1 fields and misleading @signal values are reported as ERROR.""",
 ["inputs"], """all files with up to 2 entries x 2 NXdata groups x 2 fields with each @default / @signal value from (absent, right, wrong sibling, missing name, empty, number), deviation-bounded""",
 """Tests cover the well-formed cases; the verdict is a function of many independent pointers, and the wrong answer needs a particular combination of present, misleading and missing ones.""",
 [V+"default_plot.py"], [("v3 rule", V+"default_plot.py default_plot_v3"), ("v2 rule", V+"default_plot.py default_plot_v2")],
 ["findings whose test name starts with 'NeXus default plot'"])

prop("V08", "Reference attributes are OK exactly when they name something that exists",
 """A group's @signal and each name in its @axes are reported as OK if they name a child of that group and as ERROR if not, @default of the root, an
 entry or a subentry is OK exactly if it names a child, and @target is OK exactly if it is an absolute
 address of valid names that exists in the file.  The '.' placeholder in @axes is accepted.""",
 ["inputs"], """all values from a menu (each existing child, missing, empty, other case, path, prefix/extension of a real name, absolute address, list forms of 1..3 names) for each
 attribute on each object kind, up to 2 deviations""",
 """Tests use one good and few bad values; each attribute/value/position combination is a separate case.""",
 [V+"attribute.py", V+"hdf5_group_items_in_base_class.py"],
 [("signal_handler, axes_handler, target_handler", V+"attribute.py"), ("child_exists", V+"hdf5_group_items_in_base_class.py")],
 ["findings on @signal, @axes, @default, @target"])

prop("V09", "Application definitions are checked field by field",
 """For every NXentry directly in the root, and NXsubentry in it, with a definition field, the named definition is reported OK if
 it is an application definition or a contributed definition of the set in use, and ERROR if it is a base class or is unknown.  Each field the definition lists
 for the entry is then reported once, OK if the entry has it and ERROR if not, and a listed field with an enumeration is
 reported OK exactly if the first value in the file is one of the listed values.""",
 ["inputs", "configurations"], """every application and contributed definition (and base classes, unknown and empty names) of each bundled set, with every single listed field
 removed, every enumerated value and wrong values, scalar and array forms, in NXentry and NXsubentry, several entries""",
 """Tests use three application definitions; a missed requirement shows only for particular definitions, fields and value forms.""",
 [V+"application_definition.py", VAL], [("field check", V+"application_definition.py verify")],
 ["findings 'known NXDL', 'NeXus application definition', 'NXDL field', 'NXDL field enumerations'"])

prop("V10", "Report, score and summary agree with the findings",
 """The summary counts the findings of each status (only of the requested statuses if some are requested), the total and average of the score are those of the
 findings whose status has a nonzero value, and the printed report lists exactly the findings of the selected statuses, each once, with
 its address, status, test and comment, followed by statistics over all findings. The report names the data file whose findings it lists, also after a later validation was refused.""",
 ["inputs"], """all multisets of up to 4 findings over the 8 statuses and several addresses, and every subset of selected statuses, plus real validations""",
 """Tests compare a few fixed counts; the relation must hold for every mixture of findings and every selection.""",
 [VAL, "punx/finding.py"], [("finding_score, finding_summary, print_report", VAL)],
 ["finding_score()", "finding_summary()", "print_report()"])

prop("V11", "Examined files are never modified and bad input is rejected cleanly",
 """No operation on a data file (validate, report, tree view, command line) opens it for writing or changes its bytes or time stamp.  A missing file and a file that is
 not HDF5 are reported by their own errors, and after such a failure the validator still validates a good file correctly; after close
 the data file is released.""",
 ["histories", "inputs"], """every sequence up to depth 3 (4 thorough) of validate(good / missing / directory / empty / truncated / text / unreadable content), close, report, tree, with the operating-system open calls recorded""",
 """No test looks at how the file is opened or at a validator's state after a failure; it takes sequences of failing and good calls.""",
 [VAL, "punx/h5tree.py", "punx/utils.py", "punx/main.py"],
 [("h5py.File(fname, 'r')", VAL), ("FileNotFound, HDF5_Open_Error", VAL)],
 ["bytes and mtime of the data file", "exceptions of validate()", "open() flags"])

prop("V12", "Equivalent HDF5 encodings of one content get the same findings",
 """Two files with the same groups, fields, links and values that differ only in how HDF5 stores them (fixed or variable-length strings, ASCII or UTF-8 character
 set, creation-order tracking, order of creation, file format version, width and byte order of numbers, chunking, compression) get the same findings.  The encoding of the terminal
 or locale does not change them either.""",
 ["inputs", "configurations"], """all combinations of up to 2 (quick) / 3 (thorough) storage choices over several base files, and a menu of process locales / standard-output encodings""",
 """The tests' files are nearly all written by h5py with one string encoding; other writers' encodings are sampled by a few data files only.""",
 ["punx/utils.py", VAL, V+"default_plot.py", V+"attribute.py"],
 [("decode_byte_string", "punx/utils.py")], ["Data_File_Validator.validations"])

# ---------------------------------------------------------------- trees
prop("T01", "The tree view shows every item of an HDF5 file once, in its place",
 """For any readable HDF5 file the tree view can be made, and it shows each link of each group exactly once, indented below its group and labelled
 with its name and class or storage type, and each attribute of each shown object with its value; with attributes off, exactly the attribute lines
 disappear.  The first line names the file and says NeXus exactly if some root group is an NXentry.""",
 ["inputs"], """all files from a base file with up to 2 (quick) / 3 (thorough) replacements from a menu of object kinds, value types, attribute types and nesting, attributes on and off""",
 """Tests compare the text of some sample files; losing, duplicating or misplacing an item needs particular types or nesting.""",
 ["punx/h5tree.py", "punx/utils.py"], [("recursive rendering", "h5tree.Hdf5TreeView._renderGroup")], ["Hdf5TreeView.report()"])

prop("T02", "Array previews are correct and bounded by the requested number of items",
 """For arrays of numbers of every shape and every item limit n, a preview dimension that fits in n shows all its items and a longer one shows the first n-2, an ellipsis and the last; with n of 2 or
 less only a placeholder is shown.  Every number shown is the one stored at that index, and scalars and arrays of shape (1,) show their value.  (Of arrays of more than three dimensions only the number of rows of the first dimension is promised.)""",
 ["inputs"], """all shapes of rank 0..3 with sides 0..4 (7 for rank 1, 2), limits 0..8, several element types, plus rank 4""",
 """Tests use three or four shapes and one limit; off-by-one errors live at particular size/limit pairs.""",
 ["punx/h5tree.py"], [("_decideNumShown, _renderNdArray", "punx/h5tree.py")], ["Hdf5TreeView.report()", "punx tree -m"])

prop("T03", "Links are shown as links, whether or not their target is available",
 """In the tree view a soft link shows its target path, an external link shows the content if file and path exist and otherwise says the external file is missing, each with file and path, and an item whose
 @target names another address shows that address instead of content.  The result does not depend on the current working directory, and cyclic links do not
 prevent the view.""",
 ["inputs", "configurations"], """every link kind x target state (present, missing path, missing file, directory, non-HDF5, relative, absolute, self, ancestor) x item kind x working directory, up to 2 links per file""",
 """Tests cover three external-link cases from one directory.""",
 ["punx/h5tree.py", "punx/utils.py"], [("link handling", "h5tree.Hdf5TreeView._renderGroup")], ["Hdf5TreeView.report()"])

prop("T04", "The NXDL tree view covers the whole definition",
 """For every NXDL file that parses and declares its category, the tree view is produced with the stylesheet of the default
 definitions set for that category and shows the definition's name and every field, group and attribute it declares (items inside a choice are not promised); files without a known category are refused with a message naming the file.""",
 ["inputs", "configurations"], """every NXDL file of each bundled set plus bounded synthetic NXDL documents (category present/missing/unknown x nested items)""",
 """Tests render one or two NXDL files.""",
 ["punx/nxdltree.py", "punx/main.py"], [("category to stylesheet", "nxdltree.NxdlTreeView._determine_category_")], ["NxdlTreeView.report()", "punx tree x.nxdl.xml"])

# ---------------------------------------------------------------- definitions
prop("N01", "NXDL definitions are read completely and without name clashes",
 """For every NXDL file of a definitions set the loaded class has the file's category and exactly its symbols, attributes, groups, fields and links at each nesting level, with enumerations, dimensions (rank, index, value) and link targets
 as written.  Items of one level that share a name are all kept: of groups, then fields, then links, each in document order, the first keeps the name and later ones get the first free number appended.""",
 ["inputs", "programs"], """every NXDL file of every bundled set, and all synthetic definitions built from a default with up to 2 (quick) / 3 (thorough) changes to names, nesting, enumerations, dimensions, symbols, comments""",
 """Tests check counts for a few classes of two sets; loss of one item in one nesting context is invisible to them.""",
 ["punx/nxdl_manager.py"], [("parse_* methods", "nxdl_manager.NXDL__base"), ("ensure_unique_name", "punx/nxdl_manager.py")],
 ["NXDL_Manager.classes"])

prop("N02", "Base-class content is optional and application content required by default",
 """In every loaded definitions set, fields and groups described by base classes and contributed definitions carry a default minimum occurrence of 0 and those of application
 definitions 1, and attributes are optional by default in the former and not in the latter.  This holds for every item at every nesting level, whatever other classes or sets were loaded before
 or after.""",
 ["configurations", "histories"], """every item of every class of every bundled set, after every load sequence of sets up to length 2 (3), and synthetic sets with every combination of categories present""",
 """The tests have the corresponding assertions commented out; the cross-talk only shows when both categories are loaded.""",
 ["punx/nxdl_manager.py", "punx/nxdl_schema.py"], [("default assignment", "nxdl_manager.NXDL__base.parse_fields/parse_groups/parse_attributes")],
 ["NXDL_Manager.classes[...].fields/groups/attributes xml_attributes"])

prop("N03", "NXDL files are accepted exactly when valid against their own set's schema",
 """An NXDL file is accepted, when its definitions set is loaded and by the validate command, exactly if it is well-formed and valid under the XML Schema of the definitions set in use;
 otherwise it is refused with an error that names the file.  Which other sets are installed, selected or loaded earlier makes no difference.""",
 ["inputs", "configurations", "histories"], """all NXDL documents with up to 2 schema-relevant changes x definitions sets with differing schemas x selection histories up to length 2 x command line and library""",
 """Tests validate good files with the default set only.""",
 ["punx/nxdl_manager.py", "punx/schema_manager.py", "punx/main.py", VAL],
 [("validate_xml_tree", "punx/nxdl_manager.py"), ("lxml_schema", "punx/schema_manager.py")],
 ["NXDL_Manager(set)", "punx validate x.nxdl.xml"])

prop("N04", "The schema description of a set depends only on that set's schema files",
 """The types, units, name patterns, and the elements with their attributes, defaults and nesting that are read from a definitions set's XML Schema equal what its
 schema files say (the nesting of a group in itself and elements of unnamed types aside), and are the same whichever sets were read before in the process and in whichever order.""",
 ["histories", "configurations"], """every order of loading up to 3 definitions sets (bundled and synthetic with changed schema), with repeats, compared with a fresh process and with an independent reading of the files""",
 """Each test looks at one set per process state; leaks between sets need two loads in a particular order.""",
 ["punx/schema_manager.py", "punx/nxdl_schema.py"], [("Schema_Root, _GroupParsing", "punx/schema_manager.py"), ("NXDL_Summary", "punx/nxdl_schema.py")],
 ["SchemaManager(path).nxdl", "NXDL_Summary(file)"])

# ---------------------------------------------------------------- cache of definitions
prop("C01", "Latest installed definitions set is the default; named sets are honoured",
 """For every collection of installed definitions sets, asking for no particular set gives the one with the latest date, asking for an installed set by name gives
 that set, and an unknown name gives the latest one.  Sets in the user cache override bundled sets of the same name, and earlier explicit selections or installations in the same process do not
 change the answer except through what is installed.""",
 ["configurations", "histories"], """all collections of up to 4 user sets over a small menu of names and dates (earlier, equal-to-none, later than bundled), and all operation sequences (select, load, install, replace) up to depth 3""",
 """Tests run against one fixed cache.""",
 ["punx/cache_manager.py", "punx/nxdl_manager.py"], [("select_NXDL_file_set", "punx/cache_manager.py"), ("all_file_sets", "punx/cache_manager.py")],
 ["CacheManager().default_file_set", "Data_File_Validator().manager.nxdl_file_set.ref"])

prop("C02", "Installing a definitions set yields exactly the downloaded definitions",
 """After a successful install, the named set in the user cache holds exactly the schema, style sheet and definition files of the downloaded archive, with identical bytes,
 and a description with its name, source, commit and latest file date, and it is listed and usable.  An existing set is left untouched unless replacement is requested, and then nothing of the old content remains; no
 other set or file is touched.""",
 ["inputs", "histories"], """all archive layouts with up to 2 deviations from a default archive (extra files of other kinds and places, missing parts, odd names, dates, comment) x all operation sequences of install/replace over 2 names and 2 archive versions up to depth 3, from clean and littered caches""",
 """The download tests need the network and do not run here; leftovers need particular histories.""",
 ["punx/cache_manager.py", "punx/main.py"], [("download_file_set", "punx/cache_manager.py"), ("is_extractable", "punx/cache_manager.py")],
 ["contents of the user cache directory", "CacheManager().all_file_sets"])

prop("C03", "A crash during install never leaves a partial set in use",
 """If the process is killed at any point of an install or update, then afterwards every listed definitions set is complete (the named one: all old content, all new content, or not listed), all other sets are
 unchanged and every command still works.  Repeating the install then succeeds and gives the same set as an uninterrupted one.""",
 ["crash_points", "histories"], """a kill before every file-system mutation (and in the middle of every write) of first install, update and repeated install, from clean and littered caches, followed by restart and repetition; double crashes in thorough""",
 """No test interrupts an install; the defect window is a few system calls wide.""",
 ["punx/cache_manager.py"], [("extract, describe, rename into place", "cache_manager.download_file_set")],
 ["user cache directory after the kill", "CacheManager() in a new process", "punx configuration / validate / install"])

prop("C04", "A failed download or I/O error leaves the cache as it was",
 """If the download fails in any way (no connection, error page, truncated or corrupt archive, archive without definitions) or any file operation of the install fails, the install reports an error instead of success, and the cache still lists
 the same sets with the same contents as before, except that an update interrupted after removal of the old set may leave it unlisted.  If only the listing after a finished install fails, the new set may be there.  A later attempt without the fault succeeds.""",
 ["fault_sequences"], """each network answer of a menu, truncation of the archive at every structural boundary, and an I/O error injected at each file operation of install and update, followed by a fault-free retry""",
 """Faults are not exercised by any test.""",
 ["punx/cache_manager.py"], [("download_NeXus_zip_archive", "punx/cache_manager.py"), ("download_file_set", "punx/cache_manager.py")],
 ["exceptions / exit status", "user cache directory"])

prop("C05", "The configuration table lists exactly the installed sets",
 """The configuration command lists every bundled and user-installed definitions set exactly once with its cache, date, short commit and path, ordered by date, and names as default the set that validation without a
 choice would use; directories that are not definitions sets are not listed.""",
 ["configurations"], """all user caches with up to 4 entries from a menu (sets with different dates, commits, names equal to a bundled set, plain directories, files)""",
 """Tests run with an empty or fixed user cache.""",
 ["punx/cache_manager.py", "punx/main.py"], [("table_of_caches", "punx/cache_manager.py")], ["punx configuration"])

prop("C06", "Commands running at the same time do not damage the cache or each other",
 """However the file operations of install, update, configuration, validate and tree commands that run at the same time interleave (also when one of them is killed), at every moment each listed definitions set
 is complete.  Afterwards the set installed is that of one of the successful installs (or the old one if none succeeded), an install without update never replaces an existing set, other
 sets are untouched, and commands that only read and do not use the set being replaced succeed.""",
 ["schedules", "crash_points"], """all schedules of the file-system operations of 2 (3 in thorough) processes over pairs of commands, with up to 1 preemption (2 in thorough), and with a kill of one process at any operation""",
 """No test runs two commands at once; the races are windows of single system calls.""",
 ["punx/cache_manager.py", "punx/main.py"],
 [("work directory, rename into place", "cache_manager.CacheManager.download_file_set / punx/cache_manager.py"), ("listing of sets", "cache_manager.NXDL_File_Set_Manager / all_file_sets")],
 ["user cache directory at every step", "exit status and output of each command"])

# ---------------------------------------------------------------- command line
prop("M01", "Subcommands may be abbreviated exactly to unique prefixes of two or more letters",
 """A subcommand word is accepted exactly if it is a subcommand name or a prefix of two or more letters of exactly one of them, and then means that subcommand with unchanged arguments; anything else exits with an error status without running a subcommand.""",
 ["inputs"], """every word of up to two letters, every prefix and inner part of each name, every prefix with one more or one other character or in other case, each with argument lists that contain file names equal to subcommands and prefixes of them""",
 """Tests try a few abbreviations.""",
 ["punx/main.py"], [("MyArgumentParser.parse_args", "punx/main.py")], ["exit status and the subcommand run"])

prop("M02", "Commands end with a status that tells success from failure",
 """The tree and validate commands exit with status 0 and print their report for every readable file of the supported kinds, and for a missing file, a file of the wrong kind, or an
 unknown definitions set they print a message naming it and exit with a nonzero status, without a traceback.""",
 ["inputs", "configurations"], """subcommand x file kind (HDF5, non-HDF5, empty, truncated, directory, missing, NXDL valid/invalid/ill-formed, by suffix) x definitions set (default, each bundled, unknown) x options""",
 """Tests do not run the commands over failing inputs.""",
 ["punx/main.py", "punx/h5tree.py", "punx/nxdltree.py", VAL], [("exit_message", "punx/main.py"), ("func_tree, func_validate", "punx/main.py")],
 ["exit status, standard output and error"])

prop("M03", "validate --report shows exactly the chosen findings",
 """For every choice of statuses given to validate --report, in any order and letter case, the table printed has exactly the findings with those statuses and the statistics still
 count all findings; a choice with an unknown status is refused with a nonzero exit status and no report.""",
 ["inputs"], """all non-empty subsets of the statuses, in several orders and letter cases, and lists with one unknown, empty or misspelt member at each position, over files that produce all statuses that validation gives""",
 """One or two selections are tested.""",
 ["punx/main.py", VAL], [("report choices", "main.func_validate"), ("print_report", VAL)], ["standard output of punx validate"])

prop("M04", "demonstrate shows the validation and the tree view of the example file",
 """The demonstrate command prints what the validate and tree commands print, without further options, for the example file that comes with the package (data/writer_1_3.hdf5), and ends with status 0: directly
 after installation of the package and whichever definitions sets are installed, from any working directory, after any other commands, and without changing any file.""",
 ["configurations", "histories"], """all user caches with up to 3 sets of a menu (older, newer, of the name of a bundled set) and other content of a menu, abbreviations, working directories (also with files of the same name); all
 histories of 2 (3 in thorough) install, removal and reading commands with a demonstration after each""",
 """No test runs the demonstrate command.""",
 ["punx/main.py"], [("func_demo", "punx/main.py")], ["standard output and exit status of punx demonstrate"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
