#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
S = "src/libdredd/src/"
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Dormant mutants leave program behaviour unchanged",
  "When a C or C++ program has been mutated by Dredd and no mutant is enabled (the enabling environment variable is unset, empty, or names only ids that belong to no file of the program), the rebuilt program behaves exactly like the original: same output, same exit status, same order of side effects, same values of every arithmetic type. This holds with and without mutation optimisations, in C and in C++, for single files and for several files mutated together.",
  ["programs", "inputs", "configurations"],
  "every compilable program whose behaviour is defined and does not depend on its own source text, and every run of it",
  "The execute tests run a handful of fixed programs; single-file tests compare the text of the output for fixed inputs and never run it. Types (long double, 128-bit, bool, volatile, bit-fields), operators, side-effect positions and control flow combine without bound.",
  [S+"mutation_replace_expr.cc", S+"mutation_replace_binary_operator.cc", S+"mutation_replace_unary_operator.cc", S+"mutation_remove_stmt.cc", S+"mutate_ast_consumer.cc", S+"mutate_visitor.cc"],
  [("per-type mutator functions that apply the original operator by default", S+"mutation_replace_binary_operator.cc GenerateMutatorFunction"),
   ("operands with side effects and short-circuit operands passed lazily in C++; split functions for C logical operators", S+"mutation_replace_binary_operator.cc ReplaceOperator/HandleCLogicalOperator"),
   ("statements wrapped in a guard that is normally true", S+"mutation_remove_stmt.cc Apply")],
  observe=["stdout, exit status and event trace of original and mutated program"])

p("C02", "Mutated source always compiles and links",
  "If every file given to Dredd compiles, then every file it rewrites still compiles with the same compiler flags, and files of one program mutated together still link, in every mode: optimised or not, real mutation or coverage tracking, with or without AST-node comments. Mutated files can be mixed with unmutated ones, and contexts that need compile-time constants keep the values they had.",
  ["programs", "configurations"],
  "every compilable C/C++ translation unit within the language features Dredd supports, and every combination of Dredd's options",
  "Single-file tests compile a fixed list of inputs in two of the modes; coverage-tracking output and commented output are compiled for next to none of them.",
  [S+"mutate_visitor.cc", S+"mutate_ast_consumer.cc", S+"mutation_replace_expr.cc", S+"mutation_replace_binary_operator.cc", S+"mutation_replace_unary_operator.cc", S+"mutation_remove_stmt.cc", S+"util.cc"],
  [("constant contexts are not mutated, or are rewritten to their value", S+"mutate_visitor.cc TraverseStmt, mutate_ast_consumer.cc RewriteExpressionsInMainFile"),
   ("function names encode types and optimisation variant so definitions never clash", "GetFunctionName of each mutation class"),
   ("space / newline / semicolon insertion around macros, comments and directives", S+"mutation_remove_stmt.cc, mutation_replace_expr.cc")],
  observe=["compiler and linker diagnostics on rewritten files"])

p("C03", "Instrumentation adds no memory error or undefined behaviour",
  "If the original program runs free of memory errors, leaks and undefined behaviour, then so does the mutated program with no mutant enabled and the coverage-tracking program, and the code Dredd adds never itself causes such an error whatever set of its mutants is enabled. In particular no reference or pointer to an expired temporary is formed by the rewriting.",
  ["programs", "configurations"],
  "every well-defined program, every enabled set, both modes",
  "No existing test runs mutated code under a sanitizer.",
  [S+"mutate_visitor.cc", S+"mutate_ast_consumer.cc", S+"mutation_replace_expr.cc"],
  [("expressions that may refer to materialised temporaries are not wrapped", S+"mutate_visitor.cc MayDependOnLifetimeOfMaterializedTemporaryStorage"),
   ("bitset and tracking array sized from the number of mutants in the file", S+"mutate_ast_consumer.cc Get*Prelude*"),
   ("lvalues are passed by reference (C++) or pointer (C)", S+"mutation_replace_expr.cc Apply*TypeModifiers")],
  observe=["AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer reports of instrumented programs"])

p("C04", "Enabling one mutant performs exactly its documented change",
  "Running the mutated program with a single mutant id enabled is equivalent to running the original program in which just the source range that the mutation information gives for that id has been changed as its action says (operator replaced, operand or constant substituted, unary operator inserted, or statement removed), with the types of the original expression. Everything else in the program keeps its meaning.",
  ["programs", "inputs"],
  "every mutant of every program whose reference mutant has defined behaviour",
  "Tests never run a mutant against a hand-made reference: the text of the output is compared on fixed inputs, and a few execute tests enable a mutant and look at one result.",
  [S+"mutation_replace_expr.cc", S+"mutation_replace_binary_operator.cc", S+"mutation_replace_unary_operator.cc", S+"mutation_remove_stmt.cc", S+"mutate_ast_consumer.cc"],
  [("id = local id + offset, in both the generated guard and the recorded instance", "GenerateMutatorFunction / AddMutationInstance of each mutation class"),
   ("children are numbered before parents in generated code and in the mutation tree alike", S+"mutate_ast_consumer.cc ApplyMutations")],
  observe=["output of mutated program with one id enabled vs output of a reference mutant spliced from the original text"])

p("C05", "Mutant ids are unique, contiguous and shared by code and report",
  "Across all files given to one run of Dredd, the ids in the mutation information are exactly 0..N-1, each id appears once, and the ids of one file form one contiguous block in the order the files were processed. The mutation tree of each file is a well-formed tree in which every node is reachable from its root exactly once, and every id in the report can be enabled in (or is recorded by) the rewritten code and no other id can.",
  ["programs", "configurations"],
  "every set of input files, including files with no mutants, failing files and repeated files, in any order and any mode",
  "Unit tests look at the tree of two or three tiny inputs; multi-file numbering is exercised by two fixed cases.",
  [S+"mutate_ast_consumer.cc", S+"mutation_tree_node.cc", "src/dredd/src/main.cc", "src/libdredd/include/libdredd/protobufs/dredd.proto"],
  [("a single counter threaded through all files", "src/dredd/src/main.cc mutation_id"),
   ("compression of the mutation tree", S+"mutation_tree_node.cc TidyUp"),
   ("groups with no instance are not reported", S+"mutate_ast_consumer.cc ApplyMutations")],
  observe=["the mutation information file", "ids recorded by coverage tracking of fully covered programs"])

p("C06", "Reported locations, snippets and operators match the source",
  "For every mutant in the mutation information, the line and column range is that of a whole expression or statement of the original file, its snippet is the text of that range (abridged in the documented way when long), the operator is the one written there, and operand ranges are exactly the operands of that operator. Ranges of nodes in the mutation tree nest: a child's mutations lie inside the construct its ancestors mutate.",
  ["programs"],
  "every mutant of every mutated file, including macros, multi-line expressions, tabs and non-ASCII text",
  "Two fixed inputs have their report compared; nothing relates ranges to the syntax tree in general.",
  [S+"util.cc", S+"mutation_replace_expr.cc", S+"mutation_replace_binary_operator.cc", S+"mutation_replace_unary_operator.cc", S+"mutation_remove_stmt.cc"],
  [("source-range information computed per mutation", S+"util.cc InfoForSourceRange"),
   ("operator kind translation", S+"mutation_replace_binary_operator.cc ClangOperatorKindToProtobufOperatorKind")],
  observe=["the mutation information file against an independent parse of the original file"])

p("C07", "The enabled set selects exactly the named mutants",
  "The enabling environment variable holds a comma-separated list of ids; exactly the listed mutants act, in every file of the program, whatever the order of the list, with repeated ids, a trailing comma, or ids of other files or of no file in it. Mutants at independent places compose as if each change had been made to the source, and enabling a mutant of one file never changes the behaviour of another file's code.",
  ["programs", "configurations", "inputs"],
  "every subset of the ids (including files with more than 64 mutants and ids on word boundaries), every spelling of the list, any number of files",
  "Tests enable one mutant at a time, mostly in single files with few mutants.",
  [S+"mutate_ast_consumer.cc"],
  [("environment list parsed once per thread into a per-file bitset offset by the file's first id", S+"mutate_ast_consumer.cc GetRegularDreddPreludeCpp/C")],
  state=[("enabled bitset", "one bit per mutant of the file", "generated prelude")],
  observe=["behaviour under the environment variable DREDD_ENABLED_MUTATION"])

p("C08", "Coverage tracking records exactly the mutants that were reached",
  "A run of a program built from coverage-tracking output appends to the file named by the tracking environment variable the id of every mutant whose expression or statement was evaluated in that run, each id exactly once per process and one per line, and no other id; several files and successive runs append to the same file. Consequently a mutant that is not recorded cannot change that run's behaviour when enabled.",
  ["programs", "inputs", "histories"],
  "every program, every execution path and every sequence of runs",
  "One C program's tracking file is compared in one test; C++ tracking, multi-file ids, loops, exceptions and unreached code are not.",
  [S+"mutate_ast_consumer.cc", S+"mutation_replace_expr.cc", S+"mutation_replace_binary_operator.cc", S+"mutation_replace_unary_operator.cc", S+"mutation_remove_stmt.cc"],
  [("recording call at each mutated construct with first id and count", "GenerateMutatorFunction of each mutation class"),
   ("exactly-once via an atomic flag per first id", S+"mutate_ast_consumer.cc GetMutantTrackingDreddPrelude*")],
  observe=["the tracking file"])

p("C09", "Coverage-tracking builds behave like the original and use the same ids",
  "A program built from coverage-tracking output has the same observable behaviour as the original program, whether or not the tracking file variable is set or its target can be opened, and the enabling environment variable has no effect on it. For the same inputs and optimisation setting, the mutation information is identical to that of real mutation, so an id means the same mutant in both builds.",
  ["programs", "configurations", "fault_sequences"],
  "every program, option combination and state of the tracking file",
  "Tracking output is not part of the single-file comparison tests and is run in one test.",
  [S+"mutate_ast_consumer.cc", S+"mutation_replace_expr.cc", S+"mutation_replace_binary_operator.cc", S+"mutation_replace_unary_operator.cc", S+"mutation_remove_stmt.cc"],
  [("same generator code path with the mutant branches left out", "only_track_mutant_coverage parameter"),],
  observe=["output of tracking build vs original", "both mutation information files"])

p("C10", "Instrumented programs are as thread-safe as the original",
  "If the original multi-threaded program has no data race, neither does its mutated or coverage-tracking build, and behaviour is preserved. An enabled mutant acts in every thread, including threads started before and after first use and threads of other files, and with tracking enabled each reached id is recorded exactly once and unmangled whatever the interleaving.",
  ["schedules", "programs"],
  "every interleaving of the threads of a race-free program, in C and C++",
  "The threaded example runs once; interleavings are never explored and no race detector is used.",
  [S+"mutate_ast_consumer.cc"],
  [("thread-local enabled state", S+"mutate_ast_consumer.cc GetRegularDreddPrelude*"),
   ("atomic exchange on the recorded flag, append-mode writes", S+"mutate_ast_consumer.cc GetMutantTrackingDreddPrelude*")],
  observe=["ThreadSanitizer reports, per-thread results, the tracking file"])

p("C11", "Only the files asked for, and that compile, are rewritten",
  "Dredd rewrites exactly those named source files that compile and contain something to mutate; every other file (headers, unnamed sources, files that fail to compile, files with nothing to mutate) keeps its bytes. If any named file fails to compile or does not exist, Dredd says which and exits non-zero, yet still mutates the good files as if the bad ones had not been named; otherwise it exits zero, and a file named twice is mutated once.",
  ["inputs", "configurations", "fault_sequences"],
  "every set and order of named files, any mixture of good, bad, missing, repeated and header files",
  "Three bespoke tests cover one bad and one good file each.",
  ["src/dredd/src/main.cc", S+"new_mutate_frontend_action_factory.cc", S+"mutate_ast_consumer.cc", S+"mutate_visitor.cc", S+"util.cc"],
  [("files with errors are skipped", S+"mutate_ast_consumer.cc HandleTranslationUnit"),
   ("only main-file ranges are mutated", S+"util.cc GetSourceRangeInMainFile"),
   ("processed-file set", S+"new_mutate_frontend_action_factory.cc BeginInvocation")],
  observe=["file hashes before and after, exit status, diagnostics"])

p("C12", "Output is deterministic and independent of reporting options",
  "Running Dredd again on the same inputs with the same options gives byte-identical rewritten files and mutation information. Asking for mutation information or an AST dump does not change the rewritten code, AST-node comments add only comments, and mutating a file together with others gives the same code as mutating it alone except for the offset of its ids.",
  ["programs", "configurations"],
  "every input and every combination of reporting options, any position in a list of files",
  "Each test input is processed once, alone, with fixed options.",
  [S+"mutate_ast_consumer.cc", "src/dredd/src/main.cc", S+"mutate_visitor.cc"],
  [("declarations sorted before they are emitted", S+"mutate_ast_consumer.cc HandleTranslationUnit"),
   ("file-local ids in generated code", "Apply of each mutation class")],
  observe=["bytes of rewritten files and reports"])

p("C13", "Mutation optimisations only drop redundant mutants",
  "Every mutant generated with optimisations on is also generated with them off, at the same range with the same action and the same behaviour when enabled. Nothing is lost by it: whenever some input makes a dropped replacement change the value of its expression, that input also makes at least one retained replacement behave differently. For relational and logical operators that retained mutant is one of the same expression; a dropped replacement of any other binary operator has the value of the original expression or of a retained mutant of the same expression on every input.",
  ["programs", "inputs", "configurations"],
  "every program and input (ordered operands: no NaN)",
  "Output with and without optimisations is compared only with stored text; nobody relates the two.",
  [S+"mutation_replace_expr.cc", S+"mutation_replace_binary_operator.cc", S+"mutation_replace_unary_operator.cc", S+"mutate_visitor.cc"],
  [("redundancy rules", "IsRedundant* functions, AddOptimisationSpecifier")],
  observe=["behaviour of both builds under corresponding ids"])

p("C14", "The query tool explains every mutant correctly",
  "Given the mutation information, the mutated tree and the original tree, the query script names the largest id (or -1 when there is none), and for every id prints the original text of its range and a replacement that, put in place of that text and converted to its type, is the mutant the id enables. Unknown ids and missing arguments are reported with a non-zero exit.",
  ["programs", "inputs"],
  "every id of every report, including multi-line and non-ASCII sources and several files",
  "Two fixed sources are queried and compared with stored text.",
  ["scripts/query_mutant_info.py", S+"util.cc"],
  [("range text extraction and action tables", "scripts/query_mutant_info.py")],
  observe=["output of the script"])

p("C15", "Dredd itself never crashes or misbehaves on any source file",
  "On any input file, valid or not, Dredd ends by itself with an exit status: no crash, failed assertion, memory error, use of freed memory or undefined behaviour, and no hang. On a file that does not compile it leaves the file alone and reports the error.",
  ["inputs", "configurations"],
  "every byte sequence given as a source file, every option combination",
  "Tests feed well-formed hand-written files to a build without sanitizers.",
  [S+"mutate_visitor.cc", S+"mutate_ast_consumer.cc", S+"util.cc", S+"mutation_tree_node.cc", "src/dredd/src/main.cc"],
  [("null and dependent nodes are filtered before use", S+"mutate_visitor.cc, util.cc"),
   ("source ranges outside the main file are rejected", S+"util.cc GetSourceRangeInMainFile")],
  observe=["exit status and sanitizer reports of an instrumented dredd"])

p("C16", "Every eligible construct gets the full set of mutants",
  "With optimisations off, every operator on arithmetic types, every arithmetic expression and every removable statement inside a function body of a named file gets the complete documented set of replacements for its operator and type, (the sets are those of the documentation, the mutation information format and the rules stated beside the code), and nothing in constant contexts, headers or outside functions is mutated. With optimisations on, no construct loses mutants other than by the documented redundancy rules.",
  ["programs"],
  "every function body of every named file",
  "Stored outputs fix the set for the constructs in the stored inputs only.",
  [S+"mutate_visitor.cc", S+"mutation_replace_expr.cc", S+"mutation_replace_binary_operator.cc", S+"mutation_replace_unary_operator.cc"],
  [("visitor eligibility rules", S+"mutate_visitor.cc VisitExpr/HandleExpr/HandleUnaryOperator/HandleBinaryOperator/TraverseCompoundStmt"),
   ("candidate replacement tables", "GetReplacementOperators, GenerateUnaryOperatorReplacement, Generate*ConstantReplacement")],
  observe=["the mutation information file against a model computed from an independent parse"])

p("C17", "Source text outside mutated constructs survives; prelude goes where asked",
  "Everything Dredd adds to a file is an insertion or operator substitution at mutated constructs (constants that a declaration needs at compile time may be replaced by their values) plus one block of declarations, which starts at the beginning of the file or, if the user declares the documented placeholder function, right before the first such declaration. Comments, directives, string literals, headers' inclusion order and text before that block are kept byte for byte, so line-sensitive and macro-sensitive code before the block is unaffected.",
  ["programs", "configurations"],
  "every mutated file, every position and spelling of the placeholder",
  "One stored input uses the placeholder; preservation of unrelated text is only seen on stored inputs.",
  [S+"mutate_ast_consumer.cc", S+"mutate_visitor.cc"],
  [("prelude location recorded at the placeholder declaration", S+"mutate_visitor.cc TraverseDecl"),
   ("rewriting by insertion only", "Apply of each mutation class")],
  observe=["rewritten text against original text"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
