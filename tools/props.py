"""The table behind properties.jsonl and MANIFEST.json"""

NOTES = ("Every check is one campaign of seeded simulated runs (check.py). "
         "See DESIGN.md for the simulators, the oracles and what each check "
         "was shown to catch.")

LIB = ("deterministic simulation of the runtime library: seeded operation "
       "histories with injected allocation failures against a reference model")
LIBNOTE = ("Samples histories; a clean batch is evidence, not proof. Trusts "
           "gfortran, the reference model in vsim/libsim.py and the link-time "
           "allocation seam. ")

CAP = ("deterministic simulation of generated caps: random worlds through the "
       "real generator and compiler, then seeded host call histories with "
       "scheme faults and illegal calls against a reference interpreter")
CAPNOTE = ("Samples worlds and histories; a clean batch is evidence, not proof. "
           "Trusts gfortran and the reference interpreter vsim/capref.py. ")

PRE = ("deterministic simulation of ccpp_prebuild's caps: random worlds through "
       "the real script and compiler, then seeded call histories over instances, "
       "chunks and threads with scheme faults and illegal calls against a "
       "reference interpreter")
PRENOTE = ("Samples worlds and histories; a clean batch is evidence, not proof. "
           "Trusts gfortran and the reference interpreter in vsim/preworld.py. ")

PROPS = [
    {"id": "L01",
     "title": "The hash table is a map, through growth, collisions and clearing",
     "statement": "After any history of additions, look-ups, clears and "
        "iterations, the table returns for every key exactly the entry added "
        "for it, reports a duplicate or missing key as an error, and an "
        "iteration visits every entry once. Errors are reported through the "
        "caller's error arguments without corrupting the table or memory, "
        "whatever the length of the key.",
     "over": ["histories", "inputs"],
     "text": "all operation histories over all key sets, table sizes, maximum "
        "collision settings and caller error-argument combinations",
     "why": "The unit test adds one fixed set of about 30 keys to one table "
        "and iterates once; growth, clearing, empty tables, colliding keys "
        "and error paths depend on the history.",
     "files": ["src/ccpp_hash_table.F90", "src/ccpp_hashable.F90"],
     "mech": [("bucket chain insert/lookup", "src/ccpp_hash_table.F90: hash_table_add_hash_key, hash_table_table_value"),
              ("iterator", "src/ccpp_hash_table.F90: hash_iterator_*")],
     "observe": ["type-bound procedures of ccpp_hash_table_t and ccpp_hash_iterator_t"],
     "technique": LIB, "note": LIBNOTE},
    {"id": "L02",
     "title": "A constituent's metadata object keeps what it was given",
     "statement": "After any history of instantiating, modifying, copying, "
        "resetting and locking a constituent object, every query returns "
        "exactly the value last legally set, or the documented default. An "
        "illegal operation (use before instantiation, setting what is already "
        "fixed, a change after locking) reports an error and changes nothing; "
        "a refused second instantiation leaves the object uninstantiated.",
     "over": ["histories", "inputs"],
     "text": "all histories of calls on several objects, with every mix of "
        "attributes, error-argument presence and stale error values",
     "why": "The constituent tests set up one fixed list of constituents "
        "once; the object's state machine depends on call order.",
     "files": ["src/ccpp_constituent_prop_mod.F90"],
     "mech": [("guards on instantiated/locked state", "src/ccpp_constituent_prop_mod.F90: ccp_is_instantiated, ccp_set_*"),
              ("copy semantics", "src/ccpp_constituent_prop_mod.F90: copyConstituent")],
     "observe": ["type-bound procedures of ccpp_constituent_properties_t and ccpp_constituent_prop_ptr_t"],
     "technique": LIB, "note": LIBNOTE},
    {"id": "L03",
     "title": "Constituent registry: one index per constituent, stable once locked",
     "statement": "Over any sequence of initialise, add, lock-table, lock-data, "
        "reset and re-initialise, every registered constituent has exactly one "
        "index in 1..N, advected constituents come first, equal registrations "
        "collapse to one, conflicting ones are rejected, and indices, counts "
        "and metadata never change after locking. Calls in the wrong state "
        "report an error and leave the registry usable.",
     "over": ["histories", "inputs"],
     "text": "all life-cycle histories of one or more registries over all "
        "constituent sets, including repeated locking, matching and reset",
     "why": "The tests run one life cycle on one set of constituents; wrong "
        "orders, second life cycles and duplicate registrations are barely "
        "sampled.",
     "files": ["src/ccpp_constituent_prop_mod.F90"],
     "mech": [("table and data locking", "src/ccpp_constituent_prop_mod.F90: ccp_model_const_table_lock, ccp_model_const_data_lock"),
              ("duplicate check", "src/ccpp_constituent_prop_mod.F90: ccp_model_const_okay_to_add")],
     "observe": ["type-bound procedures of ccpp_model_constituents_t"],
     "technique": LIB, "note": LIBNOTE},
    {"id": "L04",
     "title": "Constituent data: every view addresses the same field",
     "statement": "After any history of copies in and out, pointer reads and "
        "writes and resets, each constituent's field holds exactly the values "
        "last written to it, initial values are the declared defaults, and no "
        "access to one constituent changes another. Copies into arrays of the "
        "wrong shape or in the wrong state report an error.",
     "over": ["histories", "inputs"],
     "text": "all histories of field accesses through every access path, for "
        "all constituent sets and grid sizes",
     "why": "The tests copy in and out once for a fixed set; aliasing between "
        "access paths and state after reset or failure are not sampled.",
     "files": ["src/ccpp_constituent_prop_mod.F90"],
     "mech": [("field copy", "src/ccpp_constituent_prop_mod.F90: ccp_model_const_copy_in_3d, ccp_model_const_copy_out_3d"),
              ("pointers", "src/ccpp_constituent_prop_mod.F90: ccp_field_data_ptr, ccp_advected_data_ptr")],
     "observe": ["type-bound procedures of ccpp_model_constituents_t"],
     "technique": LIB, "note": LIBNOTE},
    {"id": "L05",
     "title": "A failed allocation is reported and recoverable; nothing leaks",
     "statement": "When any allocation made while locking the registry or its "
        "data fails, the call reports an error through its error arguments "
        "without crashing, and repeating the call after memory returns "
        "succeeds with the same result as if nothing had failed. A complete "
        "life cycle returns every byte it allocated.",
     "over": ["fault_sequences", "histories"],
     "text": "every allocation index failing, in every state of every history",
     "why": "No test injects a failing allocation or counts live memory.",
     "files": ["src/ccpp_constituent_prop_mod.F90", "src/ccpp_hash_table.F90"],
     "mech": [("checked allocation", "src/ccpp_constituent_prop_mod.F90: check_allocate_error"),
              ("clearing", "src/ccpp_constituent_prop_mod.F90: ccp_model_const_reset, ccp_deallocate")],
     "observe": ["error code and message of the locking calls", "live heap bytes"],
     "technique": LIB + " (malloc/calloc/realloc failed by a link-time seam)",
     "note": LIBNOTE + "Only explicitly checked allocation statements are "
        "failed."},
]

PROPS += [
    {"id": "C01",
     "title": "Consistent inputs are accepted and the generated caps compile",
     "statement": "For every consistent set of host metadata, scheme metadata "
        "and suite definitions, capgen succeeds and writes a host cap, one cap "
        "per suite and the kinds module, in lines of at most 132 columns, and "
        "these compile with the host and the schemes, whatever local names, orders of schemes, arguments and "
        "files, derived types, numbers of suites, groups and nested subcycles, "
        "units, dimensions and debug option are used.",
     "over": ["inputs", "histories"],
     "text": "all combinations of host, scheme and suite metadata features "
        "listed in DESIGN.md, in all orders of declaration",
     "why": "The tests generate code for a few fixed example suites; clashes "
        "between names, orders and features appear only in combinations.",
     "files": ["scripts/ccpp_capgen.py", "scripts/ccpp_suite.py", "scripts/suite_objects.py", "scripts/host_cap.py", "scripts/metavar.py"],
     "mech": [("argument matching", "scripts/suite_objects.py: Scheme.analyze, SuiteObject.match_variable"),
              ("call lists", "scripts/suite_objects.py: CallList, add_call_list_variable"),
              ("local names", "scripts/metavar.py: VarDictionary.new_internal_variable_name")],
     "observe": ["exit status of ccpp_capgen.py", "compiler on the generated files"],
     "technique": CAP, "note": CAPNOTE},
    {"id": "C02",
     "title": "The caps enforce the order of the physics life cycle",
     "statement": "For every history of calls from the host, a phase entry "
        "point runs a suite's schemes exactly when the suite's state allows "
        "that phase (uninitialized -> initialized -> in time step and back), "
        "separately for every suite. Any other call, and any call naming an "
        "unknown suite or suite part, returns a nonzero error code with a "
        "message, calls no scheme and changes no data or state. Suites can be "
        "finalized and initialized again.",
     "over": ["histories"],
     "text": "all call histories over all phases, suites, parts and invalid "
        "names, including repeated life cycles",
     "why": "The tests call the phases once in the right order, with a couple "
        "of wrong calls; the guarantee is about every sequence.",
     "files": ["scripts/state_machine.py", "scripts/ccpp_state_machine.py", "scripts/suite_objects.py", "scripts/host_cap.py", "scripts/ccpp_suite.py"],
     "mech": [("state check and transition", "scripts/suite_objects.py: Group.write; scripts/ccpp_suite.py: Suite.write"),
              ("phase table", "scripts/ccpp_state_machine.py: CCPP_STATE_MACH"),
              ("suite and part selection", "scripts/host_cap.py: write_host_cap; scripts/ccpp_suite.py: API.write")],
     "state": [("ccpp_suite_state", "module variable of every suite cap holding its life-cycle state", "scripts/ccpp_suite.py: Suite.write")],
     "observe": ["<host>_ccpp_physics_<phase> error arguments", "calls seen by scheme stubs"],
     "technique": CAP, "note": CAPNOTE},
    {"id": "C03",
     "title": "Every phase calls exactly the right schemes in the right order",
     "statement": "The run phase of a suite part calls each scheme of that "
        "group which has a run phase, in the order of the suite definition, "
        "repeated as its (possibly nested) subcycles say, with counts fixed or "
        "read from the host at the call. Every other phase calls that phase of "
        "each scheme of the suite which has it exactly once, always in the "
        "same order. Nothing else is called.",
     "over": ["inputs", "histories"],
     "text": "all suite definitions (groups, repeated schemes, nested fixed "
        "and variable subcycles) and all call histories",
     "why": "The tests' suites have few groups and one or two subcycles with "
        "one count; order and multiplicity must hold for any definition.",
     "files": ["scripts/suite_objects.py", "scripts/ccpp_suite.py"],
     "mech": [("suite expansion", "scripts/ccpp_suite.py: Suite.parse; scripts/suite_objects.py: Group, Subcycle, Scheme.write"),
              ("full phases", "scripts/ccpp_suite.py: Suite.analyze")],
     "observe": ["order of entry into the scheme stubs"],
     "technique": CAP, "note": CAPNOTE},
    {"id": "C04",
     "title": "A scheme's error stops the phase at once and reaches the host",
     "statement": "When any scheme call returns a nonzero error code, no later "
        "scheme of that phase call runs (also inside subcycles), the host gets "
        "exactly that code and message, and data already returned by the "
        "failing and earlier schemes is delivered. A call without error "
        "returns code 0 and an empty message, also after an earlier failure. "
        "Later calls behave as if the failed call had ended normally.",
     "over": ["fault_sequences", "histories"],
     "text": "every scheme, phase, subcycle iteration and call failing, with "
        "any code and message, before or after computing, in any history",
     "why": "No test makes a scheme fail at run time in most positions; the "
        "check after every call must be right for every placement.",
     "files": ["scripts/suite_objects.py", "scripts/ccpp_suite.py", "scripts/host_cap.py"],
     "mech": [("error check around every scheme call", "scripts/suite_objects.py: Scheme.write"),
              ("error initialisation", "scripts/suite_objects.py: Group.write; scripts/host_cap.py")],
     "observe": ["error arguments of the host entry points", "calls seen by scheme stubs", "host data"],
     "technique": CAP, "note": CAPNOTE},
    {"id": "C05",
     "title": "Each scheme argument is the right variable, converted both ways",
     "statement": "In every call, each argument of a scheme is the host or "
        "suite variable with its standard name: the columns being computed, "
        "all levels in the scheme's vertical orientation, in the scheme's "
        "units and kind; and what the scheme writes arrives back in that variable, "
        "converted back, and nowhere else. Local names, derived-type members, "
        "argument order and where dimensions are declared do not matter.",
     "over": ["inputs", "histories", "fault_sequences"],
     "text": "all combinations of names, units, orientations, intents, "
        "shapes, dimensions and call histories",
     "why": "The tests compare a handful of fixed variables; a wrong section, "
        "conversion or mix-up shows only for particular combinations.",
     "files": ["scripts/suite_objects.py", "scripts/metavar.py", "scripts/var_props.py", "scripts/host_model.py", "scripts/conversion_tools/unit_conversion.py", "scripts/ccpp_suite.py"],
     "mech": [("variable transforms", "scripts/suite_objects.py: Scheme.add_var_transform, write_var_transform; scripts/var_props.py: VarCompatObj"),
              ("actual arguments", "scripts/metavar.py: Var.call_string; scripts/host_model.py: HostModel.call_list"),
              ("loop substitution", "scripts/metavar.py: VarLoopSubst, VarDictionary.loop_var_match")],
     "observe": ["argument values and shapes seen by scheme stubs", "host data after every call"],
     "technique": CAP, "note": CAPNOTE},
    {"id": "C06",
     "title": "Parallel chunks compute the sequential result",
     "statement": "When several tasks of a host are inside the caps at once, "
        "each working through its own chunks of columns and calls, every task "
        "sees what it would see alone and leaves the same data, return codes "
        "and messages, wherever they are interrupted and whatever errors "
        "individual tasks meet. A phase other than run which a thread other "
        "than the master calls inside a threaded region is refused with a "
        "nonzero error code and a message and changes nothing.",
     "over": ["schedules", "inputs", "histories", "fault_sequences"],
     "text": "all interleavings of the tasks' memory accesses, all worlds, "
        "all divisions into chunks and tasks, and all errors of schemes",
     "why": "The tests are sequential. A shared local variable or counter of "
        "a cap shows only when a task is interrupted at the wrong place.",
     "files": ["scripts/suite_objects.py", "scripts/metavar.py", "scripts/host_cap.py", "scripts/ccpp_suite.py"],
     "mech": [("variables local to a call", "scripts/suite_objects.py: Group.write; scripts/metavar.py: Var.write_def, write_ptr_def"),
              ("threaded region check", "scripts/suite_objects.py: Group.__thread_check"),
              ("sections of a chunk", "scripts/suite_objects.py: Scheme.call_string; scripts/metavar.py: Var.call_dimstring")],
     "observe": ["host entry points called from several tasks", "scheme stubs", "host data after all tasks"],
     "technique": "deterministic simulation of the host's threads: the generated "
        "caps are compiled with OpenMP and with a yield point at every access "
        "to memory; a seeded scheduler decides every preemption, a sequential "
        "reference interpreter the result",
     "note": CAPNOTE + "Interruptions inside scheme stubs happen at their entry "
        "and exit only; sequentially consistent memory is assumed."},
    {"id": "C07",
     "title": "Suite-owned variables live as long as needed and are all freed",
     "statement": "A variable which schemes share but the host does not "
        "provide has one instance per suite, with the full extents: what one "
        "scheme writes every later scheme of the suite reads, across groups, "
        "chunks of columns, time steps and phases, until the suite is "
        "finalized. Initialising again starts afresh, and any number of life "
        "cycles, also with failing schemes, leaves no memory allocated.",
     "over": ["histories", "inputs", "fault_sequences"],
     "text": "all sets of suite-owned variables (shapes, producing phase, "
        "users) and all overlapping life cycles of several suites",
     "why": "The tests run one life cycle and read few such variables; leaks "
        "and stale or lost values depend on the history.",
     "files": ["scripts/suite_objects.py", "scripts/ccpp_suite.py"],
     "mech": [("ownership", "scripts/suite_objects.py: Group.manage_variable, Group.analyze; scripts/ccpp_suite.py: Suite.find_variable"),
              ("allocation and deallocation", "scripts/suite_objects.py: Group.write, allocate_dim_str")],
     "state": [("suite module variables", "allocatable arrays and scalars in every suite cap", "scripts/ccpp_suite.py: Suite.write")],
     "observe": ["argument values seen by scheme stubs", "live heap bytes after each life cycle"],
     "technique": CAP, "note": CAPNOTE},
    {"id": "C08",
     "title": "Optional arguments are present exactly when their data exist",
     "statement": "An optional argument of a scheme is present in a call "
        "exactly if the host or the suite provides the variable and, where "
        "the host declares a condition, the condition holds at that call. A "
        "present argument is transformed and returned like any other; data "
        "of an absent one are never touched, not even unallocated ones.",
     "over": ["inputs", "histories", "fault_sequences"],
     "text": "all conditions over the host's flags and numbers, all histories "
        "in which they change, together with units, kinds, orientations, "
        "derived types, subcycles and debug checks",
     "why": "The tests have two fixed conditions which never change during "
        "a run.",
     "files": ["scripts/suite_objects.py", "scripts/metavar.py"],
     "mech": [("pointer association", "scripts/suite_objects.py: Scheme.associate_optional_var, Group.add_optional_pointer"),
              ("conditions", "scripts/metavar.py: Var.conditional; scripts/suite_objects.py: Scheme.active_condition"),
              ("guarded transforms", "scripts/suite_objects.py: Scheme.write_var_transform")],
     "observe": ["presence and values seen by scheme stubs", "allocation and values of host data after every call"],
     "technique": CAP, "note": CAPNOTE + "Worlds with conditional variables run "
        "without compiler bounds checks, because the host cap passes sections "
        "of arrays which may be unallocated to absent dummy arguments."},
    {"id": "C09",
     "title": "Constituents form one consistent registry and reach every scheme",
     "statement": "After a host registered its suites and its own constituents, "
        "the registry holds exactly the union of the constituents declared by "
        "the host, by register phases and by metadata of schemes in all suites, "
        "each once, with indices 1 to n, advected ones first, and with the "
        "declared properties; declarations which contradict each other give a "
        "nonzero code and a message, as does initialization before registration "
        "or twice. From then on the host's arrays, the gathered and updated "
        "copies, and each scheme's constituent, tendency and whole-array "
        "arguments are views of the same fields (default value first, tendencies "
        "zero), whatever the suites, phases, errors and further "
        "registrations, until the host drops them and starts over.",
     "over": ["inputs", "histories", "fault_sequences"],
     "text": "all mixes of host, dynamic and metadata constituents in hosts with "
        "several suites; all orders of registration, questions, host updates, "
        "physics calls and errors, and repeated life cycles",
     "why": "The advection test registers one fixed set once and runs one "
        "sequence of calls.",
     "files": ["scripts/constituents.py", "scripts/host_cap.py", "scripts/suite_objects.py", "src/ccpp_constituent_prop_mod.F90"],
     "mech": [("registration and access routines in the host cap", "scripts/constituents.py: ConstituentVarDict.write_host_routines, write_constituent_routines"),
              ("dynamic constituents of a suite", "scripts/host_cap.py: write_host_cap, suite_part_call_list"),
              ("constituents and tendencies as arguments", "scripts/suite_objects.py: Scheme.analyze, Group.find_variable")],
     "observe": ["ccpp_register_constituents", "ccpp_initialize_constituents", "ccpp_number_constituents", "ccpp_gather_constituents", "ccpp_update_constituents", "model_const_properties", "const_get_index", "ccpp_is_scheme_constituent", "scheme stubs"],
     "technique": CAP, "note": CAPNOTE + "The library's Fortran types behind it "
        "run as they are; properties of theirs alone are L01 to L05."},
    {"id": "C10",
     "title": "The host cap tells the truth about its suites",
     "statement": "ccpp_physics_suite_list, _suite_part_list, _suite_schemes "
        "and _suite_variables return, at any moment of any history and without "
        "changing anything, exactly the suites, the parts of a suite in order, "
        "the schemes it uses and the standard names of the variables it "
        "exchanges with the host, as inputs, outputs or both according to the "
        "optional arguments, each name once. An unknown suite gives a nonzero "
        "error code and a message.",
     "over": ["inputs", "histories"],
     "text": "all sets of suites, all questions with every mix of optional "
        "arguments, between any calls of the suites",
     "why": "The tests compare the lists of four example suites.",
     "files": ["scripts/ccpp_suite.py", "scripts/host_cap.py", "scripts/suite_objects.py"],
     "mech": [("lists written into the host cap", "scripts/ccpp_suite.py: API.write_inspection_routines, write_req_vars_sub, write_suite_schemes_sub"),
              ("intents across parts", "scripts/suite_objects.py: CallList.add_vars")],
     "observe": ["ccpp_physics_suite_list", "ccpp_physics_suite_part_list", "ccpp_physics_suite_schemes", "ccpp_physics_suite_variables"],
     "technique": CAP, "note": CAPNOTE + "Whole derived types as scheme arguments are "
        "sampled only through their members."},
    {"id": "C11",
     "title": "Suites in one host are independent of each other",
     "statement": "In a host with several suites, which may use the same "
        "schemes, group names and variables, each call acts only on the named "
        "suite: its state, its own variables and its schemes. Any interleaving "
        "of the suites' life cycles gives each suite the same calls, data and "
        "errors as its own calls would alone on the same host data.",
     "over": ["histories", "inputs"],
     "text": "all sets of one to three suites and all interleavings of their "
        "calls, legal and illegal",
     "why": "The tests run suites one after the other in one order; shared "
        "objects inside the generator and shared names in the caps matter "
        "only for particular combinations.",
     "files": ["scripts/ccpp_suite.py", "scripts/suite_objects.py", "scripts/host_cap.py"],
     "mech": [("suite dispatch", "scripts/host_cap.py: write_host_cap"),
              ("one scheme library for all suites", "scripts/ccpp_suite.py: API.__init__")],
     "observe": ["host entry points of every suite", "scheme stubs"],
     "technique": CAP, "note": CAPNOTE},
    {"id": "C12",
     "title": "Debug checks catch wrong array sizes and change nothing else",
     "statement": "Caps generated with --debug behave exactly like those "
        "without for a host whose arrays have the declared sizes: the same "
        "calls, argument values, results and errors in every history. When a "
        "host array has another size than its metadata says, a call outside "
        "the run phase returns a nonzero code and a message before the first "
        "scheme with such an argument is called.",
     "over": ["inputs", "histories"],
     "text": "all worlds generated with --debug, all histories",
     "why": "The tests run one example with debug checks; a false alarm of a "
        "check depends on dimension, ownership and chunk.",
     "files": ["scripts/suite_objects.py"],
     "mech": [("debug checks", "scripts/suite_objects.py: Scheme.write_var_debug_check, replace_horiz_dim_debug_check")],
     "observe": ["host entry points", "scheme stubs"],
     "technique": CAP, "note": CAPNOTE},
    {"id": "C13",
     "title": "Inputs mean the same however they are written",
     "statement": "Free- and fixed-form Fortran sources, metadata files and suite "
        "definitions which say the same yield the same caps, however they are "
        "written: letter case, blanks, comments, blank lines, continuation "
        "lines, several statements on a line, code under conditions of the "
        "preprocessor (with definitions in the source or by "
        "--preproc-directives), attributes and declarations in another order or grouping, dimensions as an "
        "attribute, local variables, procedures, types and other module "
        "contents without metadata, forms of end statements; order, grouping "
        "and comments of metadata properties; order of attributes, comments "
        "and blanks in XML. Hosts and schemes so written behave as the same "
        "ones written plainly, in every history.",
     "over": ["inputs", "histories"],
     "text": "all worlds of the other properties, written in all combinations "
        "of these ways",
     "why": "The tests' sources are written in one uniform style.",
     "files": ["scripts/fortran_tools/parse_fortran_file.py", "scripts/fortran_tools/parse_fortran.py", "scripts/parse_tools/parse_source.py", "scripts/parse_tools/parse_object.py", "scripts/parse_tools/fortran_conditional.py", "scripts/metadata_table.py", "scripts/parse_tools/xml_tools.py"],
     "mech": [("lines and statements", "scripts/fortran_tools/parse_fortran_file.py: read_file, scan_free_line, parse_fortran_file"),
              ("declarations", "scripts/fortran_tools/parse_fortran.py: parse_fortran_var_decl"),
              ("conditions", "scripts/parse_tools/preprocess.py: PreprocStack, parse_preproc_line"),
              ("metadata lines", "scripts/metadata_table.py: MetadataSection.parse_variable"),
              ("suite definitions", "scripts/parse_tools/xml_tools.py: read_xml_file")],
     "observe": ["generated caps", "host entry points", "scheme stubs"],
     "technique": CAP + "; each world is also written in a second, seeded way",
     "note": CAPNOTE + "The two ways of writing are compiled by the same "
        "compiler, which settles that the second is valid Fortran."},
]

TOOL = ("deterministic simulation of the command-line tools: seeded histories "
        "of edits, mistakes and tool runs on simulated storage (listing order, "
        "clock, hash seed, failing or torn writes, full disk, death at any "
        "operation), compared with runs into an empty directory")
TOOLNOTE = ("Samples histories and faults; a clean batch is evidence, not "
            "proof. Trusts the shim which intercepts Python's file operations "
            "(vsim/shim.py). ")

PROPS += [
    {"id": "T01",
     "title": "capgen's output is a function of its inputs",
     "statement": "For the same input files and options capgen writes byte for "
        "byte the same files and gives the same verdict, whatever the hash "
        "seed of Python, the order in which the operating system lists "
        "directories, the clock, the contents of the output directory or the "
        "runs before.",
     "over": ["inputs", "schedules", "histories"],
     "text": "all projects, hash seeds, listing orders, clocks and earlier runs",
     "why": "A test runs the generator once per example with one hash seed and "
        "one listing order; sets and unsorted listings show only in others.",
     "files": ["scripts/ccpp_capgen.py", "scripts/file_utils.py", "scripts/suite_objects.py", "scripts/host_cap.py", "scripts/ccpp_datafile.py"],
     "mech": [("input lists", "scripts/file_utils.py: create_file_list"),
              ("ordered traversal", "scripts/suite_objects.py, scripts/metavar.py")],
     "observe": ["bytes of all generated files", "exit status"],
     "technique": TOOL, "note": TOOLNOTE},
    {"id": "T02",
     "title": "Regeneration converges on what a fresh run would write",
     "statement": "Whatever the output directory holds (files of an older "
        "version of the project, damaged or deleted files, left-overs of a "
        "staging directory), a run which succeeds leaves in it every generated "
        "file exactly as a run into an empty directory writes it, no staging "
        "directory, no other new file, and removes nothing it did not replace.",
     "over": ["histories"],
     "text": "all sequences of edits, damage, interrupted and complete runs",
     "why": "No test runs the generator twice into one directory.",
     "files": ["scripts/ccpp_capgen.py", "scripts/file_utils.py"],
     "mech": [("staging and replacing", "scripts/file_utils.py: move_modified_files; scripts/ccpp_capgen.py: capgen"),
              ("paths in the data table", "scripts/file_utils.py: replace_paths")],
     "observe": ["output directory after every run"],
     "technique": TOOL, "note": TOOLNOTE},
    {"id": "T03",
     "title": "Files whose content did not change are not touched",
     "statement": "A run without --force-overwrite leaves every generated "
        "source file whose content would not change untouched (same file, same "
        "modification time), replaces every one which would, and with "
        "--force-overwrite rewrites all. Input files and files capgen did not "
        "make are never changed, moved or deleted.",
     "over": ["histories"],
     "text": "all sequences of edits and runs, also with files of others in the "
        "output directory and clocks which stand still or run backwards",
     "why": "Incremental builds depend on it and no test regenerates anything.",
     "files": ["scripts/file_utils.py", "scripts/ccpp_capgen.py"],
     "mech": [("comparison", "scripts/file_utils.py: move_modified_files")],
     "observe": ["inode, modification time and bytes of every file"],
     "technique": TOOL, "note": TOOLNOTE},
    {"id": "T04",
     "title": "A failing or killed run loses nothing and the next run repairs",
     "statement": "When any file operation of capgen fails, the disk fills up, "
        "xmllint cannot run or the process dies at any point, capgen reports "
        "failure (a success means complete output), every source file "
        "generated before is still there, either as it was or completely new, "
        "inputs and foreign files are untouched, and the next run without "
        "fault gives exactly the output of a fresh run.",
     "over": ["fault_sequences", "crash_points", "histories"],
     "text": "every operation of every class failing or being the last one, in "
        "runs after every history",
     "why": "No test injects a failing operation or kills the generator.",
     "files": ["scripts/ccpp_capgen.py", "scripts/file_utils.py", "scripts/parse_tools/xml_tools.py", "scripts/fortran_tools/fortran_write.py", "scripts/ccpp_datafile.py"],
     "mech": [("staging directory", "scripts/ccpp_capgen.py: capgen; scripts/file_utils.py: remove_dir, move_modified_files"),
              ("child processes", "scripts/parse_tools/xml_tools.py: call_command")],
     "observe": ["exit status", "output directory after the failure and after the next run"],
     "technique": TOOL,
     "note": TOOLNOTE + "The data table itself is written in place and may be "
        "torn by a fault; the next run rewrites it."},
    {"id": "T05",
     "title": "--clean removes exactly what the last run generated",
     "statement": "capgen --clean removes every file which the last successful "
        "run generated, including the data table, and nothing else; without a "
        "usable data table it removes nothing which capgen did not make. A run "
        "after it regenerates everything.",
     "over": ["histories"],
     "text": "all histories of edits, runs, foreign files and cleans",
     "why": "No test uses --clean.",
     "files": ["scripts/ccpp_capgen.py", "scripts/ccpp_datafile.py"],
     "mech": [("clean", "scripts/ccpp_capgen.py: clean_capgen; scripts/ccpp_datafile.py")],
     "observe": ["all files of the project after the clean"],
     "technique": TOOL, "note": TOOLNOTE},
    {"id": "T06",
     "title": "The data table answers every report truthfully",
     "statement": "After any history of successful runs each report of "
        "ccpp_datafile gives exactly what holds for the current project: "
        "generated files, suites, modules, processes, dependencies, host "
        "variables, for a suite the variables exchanged with the host, as "
        "inputs or outputs by intent, with any separator and filter, and, "
        "shown in whole, the parts, loops and schemes of all suites with their "
        "arguments. A truncated table is reported as an error; asking changes "
        "nothing.",
     "over": ["inputs", "histories"],
     "text": "all projects and histories, all reports, suites, separators and "
        "the protected-variable filter",
     "why": "The tests compare the reports of four example suites.",
     "files": ["scripts/ccpp_datafile.py", "scripts/ccpp_database_obj.py", "scripts/ccpp_capgen.py"],
     "mech": [("writing the table", "scripts/ccpp_datafile.py: generate_ccpp_datatable"),
              ("reports", "scripts/ccpp_datafile.py: datatable_report")],
     "observe": ["standard output and exit status of ccpp_datafile.py"],
     "technique": TOOL, "note": TOOLNOTE + "Expected answers come from the "
        "world description (vsim/tableref.py)."},
    {"id": "T07",
     "title": "Inconsistent inputs are rejected with a message, harmlessly",
     "statement": "Whatever inconsistency is introduced into a consistent "
        "project (missing or unknown variables, types, kinds, ranks, units, "
        "intents, protection or dimensions which do not match, metadata which "
        "differs from the Fortran source, duplicate or missing tables, schemes, "
        "suites, files, malformed headers or XML), capgen exits with an error "
        "and a message, not an internal crash, and changes no earlier output.",
     "over": ["inputs", "histories"],
     "text": "all projects with any one of the mistakes of vsim/breaks.py at any "
        "place, after any history",
     "why": "Each test checks one mistake at one place in one example; the "
        "check has to notice it everywhere.",
     "files": ["scripts/ccpp_capgen.py", "scripts/metadata_table.py", "scripts/metavar.py", "scripts/suite_objects.py", "scripts/fortran_tools/parse_fortran_file.py", "scripts/parse_tools/parse_checkers.py"],
     "mech": [("metadata against source", "scripts/ccpp_capgen.py: check_fortran_against_metadata, compare_fheader_to_mheader"),
              ("compatibility of variables", "scripts/var_props.py: VarCompatObj; scripts/metavar.py: VarDictionary.add_variable"),
              ("header checks", "scripts/metadata_table.py: MetadataTable; scripts/parse_tools/parse_checkers.py")],
     "observe": ["exit status and messages", "output directory"],
     "technique": TOOL, "note": TOOLNOTE},
    {"id": "P01",
     "title": "ccpp_prebuild: a call runs the suite's schemes on the right data",
     "statement": "For any consistent configuration of ccpp_prebuild, the "
        "static API calls, for a phase of a suite or of one of its groups, the "
        "schemes' routines of that phase in the order of the suite definition, "
        "subcycles repeated in the run phase with loop counter and extent set. "
        "Each argument is the host's variable of that standard name: whole, or "
        "the columns of the chunk or block at hand; in the scheme's units; "
        "absent when inactive. Outputs reach the host, nothing else changes.",
     "over": ["configurations", "programs", "histories", "inputs"],
     "text": "all host models (module variables, derived types, array slices, "
        "whole, chunked and blocked arrays, conditional variables), schemes, "
        "suites, --suites/--debug/--namespace choices and call histories",
     "why": "The four prebuild tests run one small suite each; what a cap must "
        "do depends on the combination of storage, phase, units, conditions and "
        "suite structure.",
     "files": ["scripts/ccpp_prebuild.py", "scripts/mkstatic.py", "scripts/mkcap.py", "scripts/metadata_parser.py"],
     "mech": [("group caps", "scripts/mkstatic.py: Group.write"),
              ("suite caps and API", "scripts/mkstatic.py: Suite.write, API.write"),
              ("matching", "scripts/ccpp_prebuild.py: compare_metadata, filter_metadata")],
     "observe": ["arguments seen by scheme stubs", "the host's data after each call"],
     "technique": PRE, "note": PRENOTE},
    {"id": "P02",
     "title": "ccpp_prebuild: errors stop the call and reach the host",
     "statement": "When a scheme reports an error through the static API, no "
        "later scheme of that call runs, and the host gets the code in ierr and "
        "in the error flag and the scheme's text in the error message. A call of "
        "an unknown suite or group, or of a phase of a group which was not "
        "initialized, gets an error code and message and runs none of its "
        "schemes; repeated initialization or finalization of a group runs none "
        "either. Suite-wide init and finalize schemes run with every call for "
        "the whole suite, before the first and after the last group.",
     "over": ["fault_sequences", "histories", "configurations"],
     "text": "all histories of legal and illegal calls with errors of any scheme "
        "at any visit with any code",
     "why": "The prebuild tests have no failing scheme and no illegal call.",
     "files": ["scripts/mkstatic.py"],
     "mech": [("initialized flags", "scripts/mkstatic.py: Group.initialized_test_blocks, initialized_set_blocks"),
              ("error checks", "scripts/mkstatic.py: Group.write (error_check), Suite.write, API.sub, API.write")],
     "observe": ["ierr, errflg and errmsg after each call", "schemes entered"],
     "technique": PRE, "note": PRENOTE},
    {"id": "P03",
     "title": "ccpp_prebuild: instances, chunks and threads do not interfere",
     "statement": "Groups are initialized and finalized for each CCPP instance "
        "separately. Threads which call run phases on different chunks or "
        "blocks at the same time, with any interleaving, each see what they "
        "would see alone, and leave the host's data as if they had run one after "
        "the other, errors of one thread's schemes included.",
     "over": ["schedules", "histories", "configurations", "fault_sequences"],
     "text": "all interleavings of up to four threads, all instances, all "
        "chunkings, conversions and conditions",
     "why": "The prebuild tests run one instance, mostly on one thread; real "
        "threads do not try chosen interleavings.",
     "files": ["scripts/mkstatic.py", "src/ccpp_types.F90"],
     "mech": [("instance flags", "scripts/mkstatic.py: Group.initialized_set_blocks"),
              ("local copies and pointers", "scripts/mkstatic.py: Group.write (tmpvars, tmpptrs)")],
     "observe": ["arguments seen by scheme stubs in each thread", "the host's data after the parallel region"],
     "technique": PRE, "note": PRENOTE},
]

PTOOL = ("deterministic simulation of ccpp_prebuild as a tool: seeded histories "
         "of edits, mistakes, runs, clean-ups and queries on simulated storage "
         "(listing order, clock, hash seed, failing or torn writes, full disk, "
         "death at any operation), compared with runs into an empty directory "
         "and with the world")

PROPS += [
    {"id": "P04",
     "title": "ccpp_prebuild's files are a function of its inputs, whatever was before",
     "statement": "A successful run of ccpp_prebuild leaves byte for byte the "
        "caps, static API, lists and include files which a run into an empty "
        "directory writes, whatever the hash seed, the order of directory "
        "listings, the clock, the earlier runs (failed or killed ones, too) and "
        "damage to generated files. A file whose content did not change is not "
        "touched, so that nothing is compiled again without need.",
     "over": ["inputs", "histories", "crash_points", "fault_sequences"],
     "text": "all configurations, edits between runs, options, hash seeds, "
        "listing orders, clocks, storage faults and kills at any operation",
     "why": "The tests run the script once into a new directory; stale output "
        "needs a history, and order defects need another hash seed or file system.",
     "files": ["scripts/ccpp_prebuild.py", "scripts/mkstatic.py", "scripts/mkcap.py"],
     "mech": [("temporary file, compare, replace", "scripts/mkstatic.py: Group.write, Suite.write, API.write, API.write_includefile"),
              ("lists", "scripts/ccpp_prebuild.py: generate_*_makefile, replace_if_different")],
     "observe": ["the build directory after each run", "inode and time stamp of each file"],
     "technique": PTOOL, "note": TOOLNOTE},
    {"id": "P05",
     "title": "ccpp_prebuild --clean removes what a run made and nothing else",
     "statement": "After ccpp_prebuild --clean with the configuration of the "
        "last run, none of the files which ccpp_prebuild generated is left, and "
        "every other file, also of similar name, is as before; a run afterwards "
        "equals a run into an empty directory. Runs without --clean leave files "
        "which are not theirs alone.",
     "over": ["histories", "configurations", "fault_sequences"],
     "text": "all histories of runs, edits, clean-ups and foreign files",
     "why": "No test calls --clean.",
     "files": ["scripts/ccpp_prebuild.py"],
     "mech": [("clean", "scripts/ccpp_prebuild.py: clean_files")],
     "observe": ["the project directory before and after each step"],
     "technique": PTOOL, "note": TOOLNOTE +
        "The rm command of --clean is carried out by the simulator, inside the scratch directory only. "},
    {"id": "P06",
     "title": "ccpp_prebuild refuses inconsistent inputs with a message",
     "statement": "When host metadata, scheme metadata, Fortran sources, suite "
        "definitions, configuration and options do not fit each other, "
        "ccpp_prebuild ends with an error status and a message of its own, not "
        "with an internal error, and leaves the static API and the lists of caps "
        "as they were; once the mistake is repaired it succeeds again, with the "
        "files of a run into an empty directory.",
     "over": ["inputs", "configurations", "histories"],
     "text": "all consistent configurations with one mistake of about 55 kinds "
        "anywhere, within histories of runs",
     "why": "The tests hold a handful of inconsistent inputs, each in one place.",
     "files": ["scripts/ccpp_prebuild.py", "scripts/metadata_parser.py", "scripts/mkstatic.py", "scripts/mkcap.py"],
     "mech": [("host against schemes", "scripts/ccpp_prebuild.py: compare_metadata; scripts/mkcap.py: Var.compatible"),
              ("tables", "scripts/metadata_parser.py: read_new_metadata, parse_variable_tables, parse_scheme_tables"),
              ("suites", "scripts/mkstatic.py: Suite.parse")],
     "observe": ["exit status and messages", "files before and after"],
     "technique": PTOOL, "note": TOOLNOTE},
    {"id": "P07",
     "title": "ccpp_prebuild's lists, documentation and queries tell the truth",
     "statement": "The lists of type definitions, schemes with dependencies, "
        "caps and API, as make, sh and cmake read them, name exactly the files "
        "which the selected suites need; the HTML and LaTeX tables name each "
        "variable with its attributes and the schemes which ask for it; "
        "ccpp_track_variables names for a variable exactly the schemes of the "
        "suite which use it, in order, with their intents.",
     "over": ["inputs", "configurations", "histories"],
     "text": "all configurations, selections of suites and variables",
     "why": "The tests compare one list of each kind or none; a missing file in "
        "a list or a wrong intent depends on the suite structure.",
     "files": ["scripts/ccpp_prebuild.py", "scripts/mkdoc.py", "scripts/ccpp_track_variables.py", "scripts/mkcap.py"],
     "mech": [("lists", "scripts/mkcap.py: CapsMakefile, SchemesMakefile, TypedefsMakefile and cmake and shell variants"),
              ("tables", "scripts/mkdoc.py: metadata_to_html, metadata_to_latex"),
              ("queries", "scripts/ccpp_track_variables.py: create_var_graph")],
     "observe": ["lists as read by make, sh and cmake", "table rows", "output of ccpp_track_variables"],
     "technique": PTOOL, "note": TOOLNOTE},
]

UTIL = ("deterministic simulation of the stand-alone tools: seeded histories of "
        "edits, mistakes and tool runs over random trees of sources and metadata "
        "on simulated storage (listing order, clock, hash seed, failing or torn "
        "writes, full disk, death at any operation), against the description of "
        "the tree")
PROPS += [
    {"id": "X01",
     "title": "Prototype metadata say what the Fortran source says",
     "statement": "For any annotated source, however it is written, "
        "ccpp_fortran_to_metadata ends with success and one file per source in "
        "the output directory, with one table per annotated scheme, derived type "
        "or module, a section per routine, every argument in order with the type, "
        "kind, intent, optional attribute and rank of its declaration, and a "
        "standard name of its own. The comparison of metadata with sources "
        "accepts it. Nothing else changes; a failing run is reported and the "
        "next one completes.",
     "over": ["inputs", "histories", "fault_sequences"],
     "text": "all trees of sources, ways to list them, separators, output "
        "directories, earlier runs and storage faults",
     "why": "The tests run doctests of parts of it on a few statements.",
     "files": ["scripts/ccpp_fortran_to_metadata.py", "scripts/fortran_tools/parse_fortran_file.py", "scripts/fortran_tools/parse_fortran.py", "scripts/file_utils.py"],
     "mech": [("reading declarations", "scripts/fortran_tools/parse_fortran.py: parse_fortran_var_decl"),
              ("writing tables", "scripts/ccpp_fortran_to_metadata.py: write_metadata_file")],
     "observe": ["the written tables", "exit status", "verdict of offline_check_fortran_vs_metadata.py"],
     "technique": UTIL, "note": TOOLNOTE + "The host's interface, which has no "
        "hook of its own, and fixed-form sources are left out. "},
    {"id": "X02",
     "title": "The HTML pages show the metadata tables, all of them, as they are",
     "statement": "For any correct metadata files, given one by one or by a "
        "ccpp_prebuild configuration, metadata2html writes for each table with "
        "variables a well-formed page named after it with one row per variable, "
        "in order, showing its local and standard name, long name, units, type, "
        "dimensions, kind and intent as in the metadata, with any characters. "
        "It writes nothing else; a failing run is reported and the next one "
        "completes.",
     "over": ["inputs", "configurations", "histories", "fault_sequences"],
     "text": "all metadata files, configurations, earlier runs and storage faults",
     "why": "No test runs metadata2html (it did not even start).",
     "files": ["scripts/metadata2html.py", "scripts/metadata_table.py"],
     "mech": [("pages", "scripts/metadata_table.py: MetadataSection.to_html"),
              ("files of a configuration", "scripts/metadata2html.py: get_metadata_files_from_config")],
     "observe": ["the pages as an HTML parser reads them", "all files before and after"],
     "technique": UTIL, "note": TOOLNOTE},
    {"id": "X03",
     "title": "The comparison of metadata with sources is right wherever it looks",
     "statement": "offline_check_fortran_vs_metadata says 'All checks passed!' "
        "with status 0 for every tree whose metadata and sources agree, however "
        "both are written and the directories are listed; for a tree with any "
        "disagreement between a table and its source, or an incorrect table, "
        "anywhere below the directory, it fails. It never passes when a file "
        "could not be read, and writes nothing.",
     "over": ["inputs", "histories", "fault_sequences"],
     "text": "all trees, directories and mistakes (about 40 kinds)",
     "why": "No test runs the script; one mistake must be noticed in any of many "
        "files.",
     "files": ["scripts/fortran_tools/offline_check_fortran_vs_metadata.py", "scripts/ccpp_capgen.py", "scripts/fortran_tools/parse_fortran_file.py"],
     "mech": [("files to compare", "scripts/fortran_tools/offline_check_fortran_vs_metadata.py: find_files_to_compare"),
              ("comparison", "scripts/ccpp_capgen.py: check_fortran_against_metadata, compare_fheader_to_mheader")],
     "observe": ["exit status and output"],
     "technique": UTIL, "note": TOOLNOTE},
]
