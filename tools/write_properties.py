#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
V = "src/libdredd/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "With no mutant enabled, the instrumented program behaves as the original",
 "A C or C++ program instrumented by dredd (with or without mutation optimisations) produces exactly the observable behaviour of the original program when the enabled-mutation environment variable is unset, empty, or names only ids that do not belong to the program. Every evaluation, side effect, order of effects, conversion and value is preserved.",
 ["programs", "inputs", "configurations"],
 "For every well-defined single-threaded C/C++ source file dredd accepts, every run-time input, optimisations on/off, and every way of enabling no mutant of the file.",
 "The 'no mutants' runs of the test suite execute a handful of projects, and single-file tests compare text against golden files only for ~100 fixed inputs; no test executes arbitrary combinations of types, operators, macros and statement contexts.",
 [V+"mutation_replace_expr.cc", V+"mutation_replace_binary_operator.cc", V+"mutation_replace_unary_operator.cc", V+"mutation_remove_stmt.cc", V+"mutate_visitor.cc", V+"mutate_ast_consumer.cc"],
 [("mutator functions return the original result when their mutant is not enabled", V+"mutation_replace_*.cc GenerateMutatorFunction"),
  ("wrapping of operands with side effects / short-circuit operands", V+"mutation_replace_binary_operator.cc ReplaceOperator"),
  ("statement wrapping", V+"mutation_remove_stmt.cc Apply")],
 ["stdout/trace and exit status of the compiled instrumented program versus the original"])

prop("C02", "Every valid input is instrumented without failure and the result compiles",
 "For every source file that compiles on its own, dredd exits successfully without crashing or failing an internal assertion, in every mode (regular or coverage tracking, optimisations on or off), and the file it writes compiles with the same compiler and flags. This covers every builtin type, declaration form, macro usage, comment/whitespace/line-ending layout and preprocessor arrangement.",
 ["programs", "configurations"],
 "For every valid C/C++ source file in the supported feature set (no GNU statement expressions, coroutines, or const variables reused as constants in contexts dredd does not rewrite; see DESIGN.md) and every option combination.",
 "Golden-file tests fix about one hundred tiny inputs; the combinations (feature x type x position x layout x mode) are never sampled.",
 [V+"mutate_visitor.cc", V+"mutate_ast_consumer.cc", V+"util.cc", V+"mutation_remove_stmt.cc", V+"mutation_replace_expr.cc", V+"mutation_replace_binary_operator.cc", V+"mutation_replace_unary_operator.cc"],
 [("skip rules for unsupported constructs", V+"mutate_visitor.cc"),
  ("macro/source range resolution", V+"util.cc GetSourceRangeInMainFile"),
  ("unique naming of mutator functions", "GetFunctionName in mutation_replace_*.cc")],
 ["dredd exit status and stderr; compiler exit status on the rewritten file"])

prop("C03", "Enabling a mutant changes the program exactly as its description says",
 "When precisely one mutant id is enabled, the program behaves as the original program in which the single source range reported for that id has been changed as its reported kind and action say (statement deleted; expression negated, complemented, incremented, decremented or replaced by the stated constant; operator replaced by the stated operator or by one operand), with types and short-circuiting of the original kept. Nothing else in the program changes.",
 ["programs", "inputs"],
 "For every program, every mutant listed in the mutation info file, every run-time input on which the so-changed program is well defined.",
 "Existing tests compare generated text for fixed inputs; almost none enables an individual mutant and observes behaviour, and none does so for all mutants, types and operators.",
 [V+"mutation_replace_expr.cc", V+"mutation_replace_binary_operator.cc", V+"mutation_replace_unary_operator.cc", V+"mutation_remove_stmt.cc", V+"mutate_ast_consumer.cc"],
 [("id offsets in mutator functions agree with the ids in the info file", "GenerateMutatorFunction / AddMutationInstance"),
  ("C logical operator encoding", V+"mutation_replace_binary_operator.cc HandleCLogicalOperator"),
  ("enabled-mutation lookup", V+"mutate_ast_consumer.cc GetRegularDreddPreludeC/Cpp")],
 ["trace of the instrumented program under DREDD_ENABLED_MUTATION=<id> versus a reference built from the original text and the info file"])

prop("C04", "The enabled-mutation list enables exactly the ids it names",
 "With a comma-separated list of mutant ids, exactly the listed mutants are active: the order of ids, repeated ids, and ids that belong to other files or to no file have no influence, and enabling a set of mutants in independent places has the combined effect of enabling each of them. This holds for any number of mutants in a file and any position of the id in it.",
 ["inputs", "programs", "configurations"],
 "For every list of mutant ids (order, repetition, foreign ids, list length) and every mutant count per file, across one or several files linked together.",
 "The tests enable at most one or two fixed small ids; word boundaries of the enabled set, foreign ids and longer lists are not sampled.",
 [V+"mutate_ast_consumer.cc"],
 [("parsing of the environment variable and the per-file bitset", V+"mutate_ast_consumer.cc GetRegularDreddPreludeC/Cpp")],
 ["behaviour of the instrumented program under lists of ids"])

prop("C05", "Mutant ids are unique, gap-free and independent of the mode",
 "Over all files processed by one dredd invocation, mutant ids are exactly 0..N-1 with each id describing one mutant, files taking consecutive blocks in the order given. Coverage-tracking mode assigns exactly the same ids to exactly the same mutants as regular mode.",
 ["programs", "configurations"],
 "For every set and order of input files and every mode (regular/tracking, optimised or not).",
 "Tests with several files are few and fixed; no test compares the numbering of the two modes.",
 [V+"mutate_ast_consumer.cc", V+"new_mutate_frontend_action_factory.cc", "src/dredd/src/main.cc"] + [V+f"mutation_{m}.cc" for m in ("remove_stmt", "replace_expr", "replace_binary_operator", "replace_unary_operator")],
 [("shared mutation id counter", V+"mutate_ast_consumer.cc"), ("id offset bookkeeping", "Apply/GenerateMutatorFunction")],
 ["mutation info file of both modes"])

prop("C06", "Coverage tracking reports exactly the mutants whose code was reached",
 "A program instrumented in coverage-tracking mode behaves as the original and writes to the file named by the tracking environment variable the id of every mutant whose source location was executed, each id once per process, and no other id; without the variable nothing is written. In particular a mutant that is not reported cannot change the outcome of that run when enabled in the regular instrumentation.",
 ["programs", "inputs", "histories"],
 "For every program, input and execution history (repeated executions of the same location, several files, pre-existing content of the tracking file).",
 "The tests check one fixed C and C++ example.",
 [V+"mutate_ast_consumer.cc"] + [V+f"mutation_{m}.cc" for m in ("remove_stmt", "replace_expr", "replace_binary_operator", "replace_unary_operator")],
 [("recording of covered mutants", V+"mutate_ast_consumer.cc GetMutantTrackingDreddPreludeC/Cpp"), ("recording calls with first id and count", "only_track_mutant_coverage branches in mutation_*.cc")],
 ["tracking file of the instrumented program versus an independently instrumented reference; regular-mode runs of unreported mutants"])

prop("C07", "The mutation info file describes every mutant's place accurately",
 "The mutation info file is well-formed JSON in which every mutant of every instrumented file occurs exactly once, in a tree whose nodes nest as the source does; line/column ranges delimit exactly the mutated statement, expression, operator and operands in the original file; snippets quote that text (abbreviated when long); and the recorded operator is the one in the source.",
 ["programs"],
 "For every source text, including macros, multi-line expressions, comments, tabs, CRLF, non-ASCII bytes and long expressions.",
 "Only a few golden JSON files exist and they are not checked against the source text.",
 [V+"util.cc", V+"mutation_tree_node.cc", V+"mutate_ast_consumer.cc"] + [V+f"mutation_{m}.cc" for m in ("remove_stmt", "replace_expr", "replace_binary_operator", "replace_unary_operator")],
 [("range and snippet extraction", V+"util.cc InfoForSourceRange"), ("tree construction and tidying", V+"mutation_tree_node.cc, mutate_ast_consumer.cc ApplyMutations")],
 ["mutation info JSON versus the original source text and an independent parse of it"])

prop("C08", "Mutation optimisations only drop redundant mutants",
 "The mutants generated by default are a subset (same place, same change) of those generated with optimisations disabled. At the arithmetic, bitwise, shift, relational, logical and unary operators and at the constants it mutates, every replacement of the operator by another operator or of the constant by another value that is dropped by default is either equivalent to the original or killed by every test that kills some mutant that is kept.",
 ["programs", "inputs"],
 "For every program and site; redundancy judged over operand values including boundary values.",
 "Golden files freeze outputs for fixed inputs but never relate the two modes or check redundancy semantically.",
 [V+"mutation_replace_expr.cc", V+"mutation_replace_binary_operator.cc", V+"mutation_replace_unary_operator.cc", V+"mutate_visitor.cc"],
 [("redundancy tests", "IsRedundant* in mutation_replace_*.cc"), ("optimisation-only skips", V+"mutate_visitor.cc")],
 ["mutation info of both modes; outcome vectors of all mutants over an input grid"])

prop("C09", "Output is deterministic and does not depend on unrelated options or files",
 "Running dredd twice on the same input gives identical rewritten files and identical info files (apart from the addresses in the debugging comments of AST node types). Requesting the info file or an AST dump does not change the rewritten files, showing AST node types adds nothing but comments, and mutating files together rather than one at a time changes nothing but the offset of the mutant ids.",
 ["programs", "configurations", "histories"],
 "For every input file set, option combination and order of files.",
 "Tests run each input once with one option set.",
 [V+"mutate_ast_consumer.cc", "src/dredd/src/main.cc", V+"new_mutate_frontend_action_factory.cc"],
 [("ordered emission of declarations", V+"mutate_ast_consumer.cc"), ("per-file local ids", V+"mutate_ast_consumer.cc")],
 ["bytes of rewritten files and info files"])

prop("C10", "Only the listed, valid, mutable files are modified; failures are reported",
 "dredd modifies only the source files named on the command line: headers and other files stay byte-identical, a file without any mutant is left untouched, and a file that fails to compile or cannot be overwritten is left untouched, is named in the error report and makes the exit status non-zero while the remaining files are still instrumented. Naming a file more than once has the effect of naming it once. A mutation info file that cannot be written makes the exit status non-zero.",
 ["configurations", "programs", "fault_sequences"],
 "For every list of source files (mix of valid, invalid, empty, header-including, repeated, differently spelled paths) and order.",
 "Tests use one or two fixed files per scenario.",
 ["src/dredd/src/main.cc", V+"mutate_ast_consumer.cc", V+"new_mutate_frontend_action_factory.cc", V+"mutate_visitor.cc"],
 [("per-file processing loop and failure list", "src/dredd/src/main.cc"), ("main-file-only rewriting", V+"util.cc, mutate_ast_consumer.cc")],
 ["directory snapshot before/after, exit status, stderr, info file"])

prop("C11", "Instrumentation is thread safe and consistent across threads",
 "In a multi-threaded program every thread observes the same set of enabled mutants whenever it is started, and the instrumentation introduces no data race. In coverage-tracking mode ids covered concurrently by several threads are each recorded exactly once and lines are not torn.",
 ["schedules", "programs"],
 "For every number of threads, every moment of first use of instrumentation in a thread, and every interleaving of coverage recording.",
 "No existing test runs instrumented code in more than one thread.",
 [V+"mutate_ast_consumer.cc"],
 [("thread-local enabled set with lazy initialisation", V+"mutate_ast_consumer.cc GetRegularDreddPrelude*"), ("atomic once-per-id recording", V+"mutate_ast_consumer.cc GetMutantTrackingDreddPrelude*")],
 ["per-thread traces, ThreadSanitizer reports, tracking file"])

prop("C12", "Compile-time constants are never changed by instrumentation or by any mutant",
 "Array bounds, object sizes, template arguments, case labels, enumerators, bit-field widths, static assertions, constexpr and constinit entities keep their compile-time values in the instrumented program, whichever mutant is enabled, even when they are computed from constants whose run-time uses are mutated.",
 ["programs", "configurations"],
 "For every compile-time expression (including values derived from local and global const variables, negative and large values, nested template arguments) and every enabled mutant.",
 "Existing tests only check a few positive small constants textually.",
 [V+"mutate_visitor.cc", V+"mutate_ast_consumer.cc"],
 [("rewriting of array sizes, static assertions and constant arguments", V+"mutate_ast_consumer.cc Rewrite*"), ("skip rules for constant contexts", V+"mutate_visitor.cc")],
 ["compile-time probes (sizeof, type identity, selected case) executed in the instrumented program"])

prop("C13", "The query script reports each mutant as recorded in the info file",
 "For every mutation info file produced by dredd, the query script's largest-id query returns the number of the last mutant (total count minus one), and querying an id shows the file, line range, original text and replacement that describe exactly that mutant; an id that does not exist is rejected with an error.",
 ["inputs", "programs"],
 "For every info file dredd can produce and every mutant id.",
 "The script is only exercised on a couple of fixed files.",
 ["scripts/query_mutant_info.py"],
 [("tree walk by id and action tables", "scripts/query_mutant_info.py")],
 ["stdout and exit status of the script versus the JSON and source"])

prop("C14", "Every eligible site receives its full set of mutants",
 "With optimisations disabled, every ordinary statement of a block and every arithmetic, bitwise, shift, relational, logical, assignment or unary operator and every builtin-typed expression written directly in a function body receives all replacements its kind and type allow, and no others. Sites inside compile-time contexts, headers or partial macro expansions receive none.",
 ["programs"],
 "For every function body, position (initialiser, condition, call argument, index, return, nested lambda, case body, constructor initialiser ...) and builtin type.",
 "Golden files list mutants for fixed inputs; absence of mutants in other positions or for other types is invisible.",
 [V+"mutate_visitor.cc", V+"mutation_replace_expr.cc", V+"mutation_replace_binary_operator.cc", V+"mutation_replace_unary_operator.cc", V+"mutation_remove_stmt.cc"],
 [("visitor", V+"mutate_visitor.cc"), ("repertoire per operator and type", "GetReplacementOperators / IsValidReplacementOperator / Generate*")],
 ["set of (range, change) in the info file versus an independent model over Clang's JSON AST"])

prop("C15", "Instrumented files combine into one program with ids acting per file",
 "Files instrumented in one invocation can be compiled separately and linked together (C, C++ or both, sharing headers and the inline code in them) without clashing symbols, honouring a user-chosen prelude position, and each mutant id affects only the file and place it describes while every other file keeps its original behaviour.",
 ["programs", "configurations"],
 "For every number, order, language mix and size of files in one invocation and every mutant.",
 "Multi-file behaviour is tested on one or two fixed projects without enabling mutants in each file.",
 [V+"mutate_ast_consumer.cc", "src/dredd/src/main.cc"],
 [("static/thread-local prelude per file", V+"mutate_ast_consumer.cc"), ("prelude position", V+"mutate_ast_consumer.cc, mutate_visitor.cc"), ("local ids = global id - first id in file", "Apply in mutation_*.cc")],
 ["per-file traces of the linked program under every mutant id"])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
