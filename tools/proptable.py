NOTE = ("Decided on the compiler's MIR by an abstract interpreter that over-approximates every path; loops are widened to a fixed point. "
        "Trusted: rustc's MIR, the models of std/serde_json in vlib/std.py and models/models.rs, and the stated boundary assumptions.")

p("C07", "Mutants written in one run are pairwise distinct",
  "For one input file and one run, no two mutants that are written (to files or to standard output) come from the same mutation: a mutant whose "
  "mutation (algorithm, node and random choices) was already written in this run is never written again, and a mutation is remembered as seen exactly when its mutant is written.",
  ["inputs", "histories"], "every AST, every sequence of random choices, every validation outcome",
  "The tests never run the generator; repetition only shows up for particular sequences of random picks.",
  [B + "mutation_generator.rs", L + "mutator_result.rs"],
  [("list of observed results consulted before and extended after each write", B + "mutation_generator.rs generate_mutations"),
   ("structural equality of results", L + "mutator_result.rs MutatorResult PartialEq")],
  "event automaton from abstract interpretation of the generator's MIR x observer automaton", NOTE,
  observe=["files in the output directory", "standard output"])

p("C08", "Number, numbering and retry bound of mutants",
  "For one input file at most the requested number of mutants is written, never more mutants of one algorithm than the AST has mutable nodes for it, and the mutant files are named "
  "<input file name>_<i> with i counting the mutants written, starting at 0 without gaps. Each planned mutant is attempted at most 50 times, after which the generator goes on to the next one.",
  ["inputs", "histories"], "every AST, requested count, sequence of random choices and validation outcome",
  "The tests never run the generator, and the bounds concern every history of duplicates and rejections.",
  [B + "mutation_generator.rs"],
  [("plan of mutation kinds filled up to the requested count and to the node count per kind", B + "mutation_generator.rs generate_mutations"),
   ("files_written counter, attempts counter", B + "mutation_generator.rs generate_mutations")],
  "abstract interpretation (loop invariants over counters and queue lengths) of the generator's MIR", NOTE,
  observe=["files in the output directory"])

p("C09", "With validation on, only mutants the compiler accepted are written",
  "When validation is requested, a mutant is written only if the target language's compiler was run on exactly that mutant's printed source, with the user's compiler settings, and exited "
  "successfully; a mutant the compiler accepts is written. A mutant that cannot be printed, or for which the compiler cannot be started, counts as not compiling.",
  ["inputs", "histories", "fault_sequences"], "every AST, mutant, compiler outcome and failure of the intermediate steps",
  "No test runs a compiler; the gate has to hold for every outcome of print, exec and exit status.",
  [B + "mutation_generator.rs", L + "json_ast_language_interface.rs", L + "solidity/language_interface.rs", L + "vyper/language_interface.rs"],
  [("validation gate before writing", B + "mutation_generator.rs generate_mutations"), ("mutant_compiles", L + "json_ast_language_interface.rs"),
   ("mutant_compiles of the language delegates", L + "solidity/language_interface.rs, vyper/language_interface.rs")],
  "event automaton x observer; path-sensitive exit-status analysis of the compile checks", NOTE,
  observe=["files in the output directory", "compiler process"])

p("C15", "Each file is mutated with the settings that apply to it",
  "Every file named on the command line is mutated with the command-line settings (number of mutants, seed, algorithms, functions, output directory or stdout, validation, printing of the original, saving of "
  "configurations, compiler settings). Every file listed in a configuration file is mutated with that configuration's settings where the configuration gives them and the command-line settings otherwise "
  "(output-directory \"stdout\" selects standard output). Each file's generator starts freshly seeded with the seed in force for that file, and no setting of one configuration file reaches another file.",
  ["inputs", "configurations"], "every command line, every list of files, every combination of settings present in the configuration files",
  "The driver is not tested at all; the combinations of files and optional settings are unbounded.",
  [B + "mutation_generator.rs", B + "generator_parameters.rs"],
  [("settings merged per file into GeneratorParameters", B + "mutation_generator.rs generate_mutants")],
  "path-sensitive dataflow (value provenance) on the driver's MIR at every planned run", NOTE, observe=["mutants written"])

p("C17", "Every input file is processed, exactly once and in order",
  "The mutate command runs the generator exactly once for every source or AST file named on the command line and for every entry of the file list of every configuration file named there, in that order; it ends "
  "successfully only after all of them were run. The pretty-print command goes on until its last file, and each file is either printed or a message is given for it.",
  ["inputs", "histories"], "every list of files and configurations, every outcome of the individual files",
  "The commands are not tested; lists of files are unbounded.",
  [B + "mutation_generator.rs", B + "pretty_printing.rs"],
  [("loops over files and planned runs", B + "mutation_generator.rs generate_mutants"), ("loop over files", B + "pretty_printing.rs")],
  "event automaton from abstract interpretation of the commands' MIR x observer automaton", NOTE, observe=["output files", "standard output"])

p("C18", "Output goes where it was requested and nowhere else",
  "Mutants, the printed original and saved configurations are written directly into the requested output directory (which is created when missing), or to standard output when that was requested; in the latter case "
  "no file or directory is created. The original is printed exactly when requested and the configuration saved exactly when requested. Apart from the requested files the library creates, changes and removes files only "
  "inside the system's temporary directory.",
  ["inputs", "configurations"], "every command line, file name and path",
  "No test looks at the file system; the confinement has to hold for every path the user names.",
  [B + "mutation_generator.rs", B + "pretty_printing.rs", L + "json_ast_language_interface.rs", L + "solidity/language_interface.rs", L + "vyper/language_interface.rs"],
  [("output path construction", B + "mutation_generator.rs, pretty_printing.rs"), ("temporary files of the compile checks", L + "json_ast_language_interface.rs")],
  "event automaton x observer for the commands; interprocedural path-term confinement analysis of all file-system calls of the library", NOTE,
  observe=["file system", "standard output"])

p("C19", "A failing step is reported, never swallowed",
  "When recognising, loading, selecting algorithms, counting nodes, mutating, creating the output directory, printing or saving a configuration fails, the mutate command produces no further output for "
  "that file and returns that error, which main prints; no later file is started. The pretty-print command prints a message for the failing file, writes nothing further for it and goes on. The library's language API returns the "
  "error of each failing step, in particular the first error of a mutator, which also ends the traversal.",
  ["inputs", "fault_sequences"], "every step failing at every point of every run",
  "The tests do not inject faults, and every fallible step at every point matters.",
  [B + "mutation_generator.rs", B + "pretty_printing.rs", B + "main.rs", L + "json_ast_language_interface.rs"],
  [("? propagation in the commands", B + "mutation_generator.rs"), ("error recorded by the mutation maker and returned by mutate_ast", L + "json_ast_language_interface.rs, mutation_maker")],
  "event automaton with fault branches at every fallible call x observer automaton", NOTE, observe=["returned Result", "standard output"])

CNOTE = ("Relational static analysis: the MIR of the current tree is compared with that of a reviewed reference by abstract interpretation of both and a product construction; loops by induction. "
         "Quiet on equivalent rewrites; reports definite differences only (differences the domain cannot decide are listed in the evidence, not reported). "
         "Trusted: the review of the reference against the property, rustc's MIR, the models of std/serde_json/rand.")
CTECH = "relational abstract interpretation of MIR against a reviewed reference"

p("C01", "The same seed and inputs give the same mutants",
  "Running the mutate command twice with the same seed, input files, settings and compiler writes the same mutant files with the same contents: nothing that reaches an output or a random choice depends on the clock (unless no seed was given), "
  "on system entropy, on process or thread identity, on memory addresses, on directory listing order or file times, or on the iteration order of a hash map or hash set. When no seed is given the seed is taken from the clock and used for the whole run.",
  ["inputs", "histories"], "every input, every configuration and every pair of runs",
  "Hash iteration order and entropy change from process to process; a test runs in one process and compares a handful of values.",
  [B + "mutation_generator.rs", L + "mutation_visitor.rs", L + "solidity/mutators.rs", L + "vyper/mutators.rs"],
  [("seed and random generator", B + "mutation_generator.rs"), ("random choices", L + "solidity/mutators.rs, vyper/mutators.rs, mutation_generator.rs")],
  "reachability query for nondeterminism sources over the MIR call graph; path-sensitive provenance of the seed; hash-iteration-order dataflow (iteration to sink, sorting as sanitiser)", NOTE, observe=["mutant files of two runs", "random draws"])

p("C02", "Algorithm names, types, listing and mutators agree",
  "Every mutation algorithm has exactly one name: the name the mutations command lists (under its language or as generic, with its description) is the name the command line and configuration files accept and saved "
  "configurations contain; parsing it gives the algorithm back and any other spelling is refused with an error. For each language, asking for an algorithm yields the mutator that implements it, and the mutator "
  "reports that same algorithm; all-mutations selects every algorithm of the language and nothing else.",
  ["inputs", "configurations"], "every algorithm, every language, every spelling of a name and every list of names",
  "The tests look at two or three names; the tables have to agree for every entry.",
  [L + "mutation.rs", L + "solidity/mutators.rs", L + "vyper/mutators.rs", B + "mutations_info.rs", B + "mutation_generator.rs"],
  [("name/type conversions", L + "mutation.rs"), ("factories and implements()", L + "solidity/mutators.rs, vyper/mutators.rs"), ("listing", B + "mutations_info.rs")],
  CTECH + "; table-consistency rules over the name, listing and factory tables", CNOTE, observe=["output of the mutations command", "returned mutators and errors"])

p("C03", "Only nodes inside the named functions are mutated when functions are given",
  "When the user names functions, nodes are visited and mutated only where a stored permission allows it: a node that has a name is itself mutable only if that name is permitted for mutation; its children are mutable only if the name is permitted for "
  "mutation of children; unnamed nodes follow the permission of the closest enclosing named node. Without named functions every node may be mutated. A permission request is granted exactly when one of the stored permissions matches it (same action, "
  "same scope or Any, same name or Any, same verdict). Counting and mutating apply the same rule.",
  ["inputs", "configurations"], "every AST and every set of permissions",
  "The tests check single permission values; the rule has to hold for every AST and every combination of permissions.",
  [L + "permissions.rs", L + "mutation_visitor.rs", L + "json_ast_permitter.rs", L + "json_namer.rs", B + "mutation_generator.rs", L + "ast.rs"],
  [("matching of permissions", L + "permissions.rs"), ("permission tests while visiting", L + "mutation_visitor.rs"), ("names of functions turned into permissions", B + "mutation_generator.rs")],
  CTECH, CNOTE, observe=["mutants written", "results of Permit::has_permission_to"])

p("C04", "Counting and mutating see the same candidate nodes in the same order",
  "For every AST, algorithm and set of permissions, the number of mutable nodes reported for an algorithm is exactly the number of indices at which mutating with that algorithm changes a node: index i in 0..count selects the i-th node, in "
  "traversal order, that the mutator accepts and the permissions allow, and the counters of different algorithms do not influence each other.",
  ["inputs", "configurations"], "every AST, algorithm, set of permissions and index",
  "The tests do not compare the two visitors; agreement has to hold for every AST.",
  [L + "mutation_visitor.rs", L + "json_ast_language_interface.rs", L + "ast.rs"],
  [("counting visitor", L + "mutation_visitor.rs MutableNodesCounter"), ("mutating visitor", L + "mutation_visitor.rs MutationMaker"), ("set-up", L + "json_ast_language_interface.rs count_mutable_nodes, mutate_ast")],
  CTECH + "; condition-equivalence analysis of the two visitors", CNOTE, observe=["count_mutable_nodes", "mutate_ast"])

p("C05", "Mutating never changes the loaded AST",
  "Counting, mutating, commenting and printing leave the AST they are given as it was: every mutant is made on a fresh copy of the original, so mutants do not accumulate and each mutant differs from the original by its own mutation only. The "
  "returned mutant is the changed copy, wrapped for the same language as the original.",
  ["inputs", "histories"], "every AST and every sequence of mutations applied to it",
  "The tests never mutate the same AST repeatedly and compare.",
  [L + "json_ast_language_interface.rs", L + "mutation_visitor.rs", L + "solidity/language_interface.rs", L + "vyper/language_interface.rs"],
  [("clone before traversal", L + "json_ast_language_interface.rs mutate_ast"), ("shared references in the public API", L + "json_ast_language_interface.rs")],
  CTECH + "; ownership analysis: shared references in the API, no interior mutability or unsafe code, copy before every mutable traversal", CNOTE, observe=["the AST passed to mutate_ast"])

p("C06", "A mutant carries exactly one mutation, at the selected node",
  "In one mutant the mutator is applied to exactly one node: the one with the requested index. The traversal stops there; no other node is offered to the mutator for mutation, the result recorded is the one of that application, together with the id of the mutated node "
  "and the requested index.",
  ["inputs"], "every AST, algorithm and index",
  "The tests mutate single nodes, never whole ASTs.",
  [L + "mutation_visitor.rs", L + "ast.rs", L + "json_ast_language_interface.rs"],
  [("index test and early stop", L + "mutation_visitor.rs MutationMaker::visit_mut"), ("early stop of the traversal", L + "ast.rs traverse_mut"), ("result assembled", L + "json_ast_language_interface.rs mutate_ast")],
  CTECH + "; call-count analysis of the mutating traversal", CNOTE, observe=["mutate_ast"])

p("C10", "A mutation's record says what was done",
  "Every successful mutation returns a record with the algorithm that made it, the id of the node it changed and a digest of every random choice that determined the change, so that two mutations of the same node by the same algorithm have equal records exactly when they "
  "made the same choices, and it leaves an explanatory comment (algorithm, printed original and replacement where the language printer provides one) for the mutated node. Nothing of an earlier mutation remains in the mutator.",
  ["inputs", "histories"], "every node, algorithm, language and sequence of random choices",
  "The mutators are hardly tested; the record has to be right for every node and every choice.",
  [L + "solidity/mutators.rs", L + "vyper/mutators.rs", L + "mutator_result.rs"],
  [("MutatorResult", L + "mutator_result.rs"), ("mutate, get_comment, get_comment_node", L + "solidity/mutators.rs, vyper/mutators.rs")],
  CTECH + "; must-analysis of the record on every successful return of every mutator", CNOTE, observe=["MutatorResult", "comments in mutants"])

p("C11", "The comment goes in front of the mutated statement; nothing else moves",
  "The comment explaining a mutation is inserted directly in front of the statement (or definition) containing the mutated node, in the closest enclosing block that can hold comments; all statements stay present and in order, each block "
  "is put back under the key it came from, and if no enclosing block is found the AST stays as it is.",
  ["inputs"], "every AST and every mutated node",
  "The tests have no AST for most kinds of blocks; the placement has to hold for every enclosing construct.",
  [L + "json_comment_inserter.rs", L + "solidity/commenter.rs", L + "vyper/commenter.rs", L + "json_comment_helpers.rs", L + "json_finder_helpers.rs"],
  [("search along the node path", L + "json_comment_inserter.rs"), ("per-construct insertion", L + "solidity/commenter.rs, vyper/commenter.rs"), ("finders", L + "json_finder_helpers.rs")],
  CTECH + "; take/put-back key pairing", CNOTE, observe=["mutants written"])

p("C13", "Each algorithm accepts exactly the nodes it is defined for",
  "Whether a node is a candidate for an algorithm depends on that node (and the algorithm's configuration) only: each algorithm accepts exactly the node kinds, operators and shapes documented for it (for instance the operator algorithms only binary or unary operations whose operator is in "
  "their table, the swap algorithms only nodes with two different exchangeable parts, the statement algorithms only statements outside their exclusion lists) and rejects everything else.",
  ["inputs"], "every node of every AST, every algorithm, both languages",
  "The tests use a few sample nodes; acceptance is a predicate over all nodes.",
  [L + "solidity/mutators.rs", L + "vyper/mutators.rs", L + "operators.rs", L + "vyper/operators.rs"],
  [("is_mutable_node", L + "solidity/mutators.rs, vyper/mutators.rs"), ("operator tables", L + "operators.rs, vyper/operators.rs")],
  CTECH, CNOTE, observe=["count_mutable_nodes"])

p("C14", "Configuration files: saved settings are the loaded settings",
  "A saved configuration contains each setting under the documented key (language, filenames, compiler-details, num-mutants, seed, mutations, all-mutations, functions, validate-mutants, output-directory, print-original), and loading a configuration file takes every setting from exactly that key, with the documented "
  "default when it is absent and an error naming the problem when the file is unusable; what is saved is what a later load gives back.",
  ["inputs", "configurations"], "every configuration and every configuration file",
  "The tests load one file; the agreement of keys, types and defaults has to hold for every combination.",
  [L + "config_file.rs", B + "mutation_generator.rs"],
  [("new_from_file, convert_to_json, write_to_file_as_json", L + "config_file.rs")],
  CTECH + "; key-table agreement between writer and reader", CNOTE, observe=["saved configuration files", "ConfigurationFileDetails"])

p("C16", "The external compilers are run with exactly the user's settings",
  "The compiler is called by the path, root path, base path, include paths, allowed paths, remappings and flags that the user gave (each with its own option and argument order), on exactly the file in question, with output going to a temporary directory; options the user did not give are "
  "not passed. A source file is converted to the AST that the compiler wrote, and failures of the compiler are reported with its output.",
  ["inputs", "configurations", "environments"], "every combination of compiler settings, every file, every outcome of the compiler",
  "The tests have no compiler to run.",
  [B + "compiler_settings.rs", L + "solidity/language_interface.rs", L + "vyper/language_interface.rs", L + "utility.rs"],
  [("settings from the command line", B + "compiler_settings.rs"), ("command lines", L + "solidity/language_interface.rs, vyper/language_interface.rs"), ("process execution", L + "utility.rs")],
  CTECH, CNOTE, observe=["argument vector of the compiler process", "returned AST or error"])

p("C20", "Traversals visit every node once, in order, with paired callbacks",
  "A traversal calls, for each node, on_enter first and on_exit last; it visits a node only if the visitor permits it, goes to the children (array elements and object members in order) only if wanted, between on_start_visit_children and on_end_visit_children, and stops as soon as a visit says so. The recorded "
  "path of a node is the list of the ids of its ancestors from the root to itself, and ids are taken from the language's id field.",
  ["inputs"], "every AST and every visitor",
  "The tests traverse one small AST.",
  [L + "ast.rs", L + "visitor.rs", L + "json_ast.rs", L + "json_ast_id_maker.rs", L + "mutation_visitor.rs"],
  [("traverse, traverse_mut", L + "ast.rs"), ("children of a JSON node", L + "json_ast.rs"), ("PathVisitor", L + "mutation_visitor.rs"), ("id maker", L + "json_ast_id_maker.rs")],
  CTECH + "; event automaton of the traversals x protocol observer", CNOTE, observe=["calls of the visitor", "calculate_node_paths"])

p("C21", "Solidity ASTs are printed token for token",
  "For every Solidity AST node the printer emits the tokens of that construct, in source order, with every part of the node that the construct has printed once in its place (names, operators, modifiers, types, arguments, bodies) and the separators and brackets belonging to them; optional parts appear exactly when the "
  "node has them. Mutants and the printed original are the output of this printer, so a part that is dropped, doubled, or printed elsewhere changes the program.",
  ["inputs"], "every Solidity AST",
  "The tests print a few whole contracts; each construct has many optional parts.",
  [L + "solidity/pretty_printer.rs", L + "node_printer_helpers.rs", L + "node_printer.rs", L + "pretty_print_visitor.rs", L + "pretty_printer.rs"],
  [("node printers", L + "solidity/pretty_printer.rs"), ("helpers", L + "node_printer_helpers.rs"), ("visitor", L + "pretty_print_visitor.rs")],
  CTECH, CNOTE, observe=["printed source"])

p("C22", "Vyper ASTs are printed token for token, with correct block layout",
  "For every Vyper AST node the printer emits the tokens of that construct, in source order, each part of the node once in its place and optional parts exactly when present; blocks are indented one level deeper than their header and each statement stands on a line of its own.",
  ["inputs"], "every Vyper AST",
  "The tests print a few whole contracts; each construct has many optional parts, and layout is syntax in Vyper.",
  [L + "vyper/pretty_printer.rs", L + "node_printer_helpers.rs", L + "node_printer.rs", L + "pretty_print_visitor.rs", L + "pretty_printer.rs"],
  [("node printers", L + "vyper/pretty_printer.rs"), ("helpers", L + "node_printer_helpers.rs"), ("visitor", L + "pretty_print_visitor.rs")],
  CTECH, CNOTE, observe=["printed source"])

p("C23", "The low-level printer writes exactly the text and layout asked for",
  "Every text handed to the low-level printer reaches the stream once, unchanged and in order; new lines start with the current indentation (depth times the indentation unit), increasing and decreasing the indentation are inverse, flowable text is only broken at spaces, and a failing write is returned as an error.",
  ["inputs", "histories"], "every sequence of printer operations",
  "The tests use a few fixed sequences.",
  [L + "pretty_printer.rs"],
  [("PrettyPrinter methods", L + "pretty_printer.rs"), ("write_ helpers", L + "pretty_printer.rs")],
  CTECH, CNOTE, observe=["bytes written to the stream"])

p("C24", "Every input file is given to the reader and language it belongs to",
  "A file is treated as configuration, source or AST by the documented rules, in this order; its language is the one of its extension (sources) or of its content (ASTs), and all operations on it are done by that language's implementation. Files that fit no rule are refused with an error naming the file; an AST of one language is never handed "
  "to the implementation of another.",
  ["inputs"], "every file name and content",
  "The tests recognise a few fixed files.",
  [L + "recognizer.rs", L + "language_interface.rs", L + "solidity/language_interface.rs", L + "vyper/language_interface.rs", L + "super_ast.rs", L + "language.rs", L + "json_ast_language_interface.rs"],
  [("Recognizer", L + "recognizer.rs"), ("registry of languages", L + "language_interface.rs"), ("delegates", L + "solidity/language_interface.rs, vyper/language_interface.rs")],
  CTECH, CNOTE, observe=["recognised file type and language", "errors"])

p("C25", "Preferences keep values by key path and survive conversion to and from JSON",
  "A value stored in the preferences under a key path is returned under that path and no other, storing under a path replaces only what was there, missing paths and values of another type give None; converting preferences to JSON and back keeps every path, type and value.",
  ["inputs", "histories"], "every sequence of operations on preferences and every JSON value",
  "The tests use a few keys.",
  [L + "preferences.rs"],
  [("Preferences, PreferenceValue", L + "preferences.rs")],
  CTECH, CNOTE, observe=["Preferences API", "compiler-details of saved configurations"])

p("C26", "Each algorithm makes exactly its documented change to the node",
  "Applied to a node it accepts, each algorithm changes that node in its documented way and in no other: an operator algorithm replaces the operator by a different one of its table (for the operand type), a swap exchanges the two chosen parts, a literal algorithm replaces the value by a different one of the same type, the statement algorithms delete, exchange or wrap "
  "exactly the chosen statements, and so on; all other parts of the node stay as they were. On a node it cannot change it fails with an error instead of returning an unchanged node as a mutant.",
  ["inputs", "schedules"], "every node, algorithm, language and sequence of random choices",
  "The mutators are hardly tested; the change has to be right for every node and every choice.",
  [L + "solidity/mutators.rs", L + "vyper/mutators.rs", L + "operators.rs", L + "vyper/operators.rs"],
  [("mutate", L + "solidity/mutators.rs, vyper/mutators.rs"), ("operator choice", L + "operators.rs")],
  CTECH, CNOTE, observe=["mutants written"])

p("C27", "JSON node helpers read and write exactly the addressed part of a node",
  "The helpers for JSON nodes return the value under the given key when it has the requested type and None otherwise, write only the given key, find a node by id wherever it is in the tree, and take and put back parts of a node without touching the rest; on a missing key they fail as documented and change nothing.",
  ["inputs"], "every JSON node and key",
  "The tests use a few nodes.",
  [L + "json.rs", L + "solidity/ast.rs"],
  [("JSONMutate", L + "json.rs"), ("SolidityASTApi", L + "solidity/ast.rs")],
  CTECH, CNOTE, observe=["returned and stored values"])

na("C12", "No input makes the tool panic or run forever",
   "On every input file and every sequence of random choices the tool ends, and every problem is reported as an error rather than by a panic.",
   ["inputs", "histories"], "every AST, source, configuration and sequence of random choices",
   "Panics and endless retries need particular nodes and random choices.",
   [L + "solidity/mutators.rs", L + "vyper/mutators.rs", L + "solidity/pretty_printer.rs"],
   [("unwrap and retry loops", L + "solidity/mutators.rs, vyper/mutators.rs")],
   "Termination of the retry loops depends on the random source and on the content of the AST, and the absence of panics on unbounded JSON input needs shape invariants of compiler output that the program never "
   "establishes (it unwraps fields it assumes to be there); neither can be bounded by a sound static argument here. The concrete hangs and panics found while reading were repaired (see known_findings.json) or are described in DESIGN.md.")
