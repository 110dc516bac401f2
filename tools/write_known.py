#!/usr/bin/env python3
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
 dict(property="C01", status="open", repro="findings/unary_macro.c", oracle="behaviour", opts=[], what="findings/unary_macro.c: a unary operator that is itself a macro (`#define NEG -` ... `NEG a`) is applied twice, because the operator stays in front of the instrumented operand (pinned by the repository's expected output for test/single_file/macro_pasting.c)"),
 dict(property="C01", status="open", repro="findings/strtok.c", oracle="behaviour", opts=[], env={"DREDD_ENABLED_MUTATION": "100000"}, what="findings/strtok.c: with the variable set (foreign id), the C prelude parses it with strtok, which clobbers a strtok scan of the program that is in progress (the prelude is pinned by the expected outputs)"),
 dict(property="C01", status="open", repro="findings/temp_dtor.cc", oracle="behaviour", opts=[], what="findings/temp_dtor.cc: a C++ temporary inside an operand that is wrapped in a lambda is destroyed at the end of the operand instead of the end of the full expression"),
 dict(property="C02", status="open", repro="findings/local_const_case.cc", oracle="validity", opts=[], what="findings/local_const_case.cc: the initialiser of a local `const int n` that a case label uses is instrumented, so the label is no longer a constant expression and the output does not compile"),
 dict(property="C02", status="open", repro="findings/local_const_enum.cc", oracle="validity", opts=[], what="findings/local_const_enum.cc: the initialiser of a local `const int n` that an enumerator uses is instrumented, so it is no longer a constant expression and the output does not compile"),
 dict(property="C02", status="open", repro="findings/local_const_bitfield.cc", oracle="validity", opts=[], what="findings/local_const_bitfield.cc: the initialiser of a local `const int n` that a bit-field width uses is instrumented, so it is no longer a constant expression and the output does not compile"),
 dict(property="C02", status="open", repro="findings/local_const_alignas.cc", oracle="validity", opts=[], what="findings/local_const_alignas.cc: the initialiser of a local `const int n` that an alignment uses is instrumented, so it is no longer a constant expression and the output does not compile"),
 dict(property="C02", status="open", repro="findings/local_const_ifconstexpr.cc", oracle="validity", opts=[], what="findings/local_const_ifconstexpr.cc: the initialiser of a local `const int n` that a constant condition uses is instrumented, so it is no longer a constant expression and the output does not compile"),
 dict(property="C02", status="open", repro="findings/local_const_constexpr.cc", oracle="validity", opts=[], what="findings/local_const_constexpr.cc: the initialiser of a local `const int n` that the initialiser of a constexpr variable uses is instrumented, so it is no longer a constant expression and the output does not compile"),
 dict(property="C02", status="open", repro="findings/local_const_consteval.cc", oracle="validity", opts=[], what="findings/local_const_consteval.cc: the initialiser of a local `const int n` that the argument of a consteval function uses is instrumented, so it is no longer a constant expression and the output does not compile"),
 dict(property="C02", status="open", repro="findings/local_const_targ.cc", oracle="validity", opts=[], what="findings/local_const_targ.cc: the initialiser of a local `const int n` that a template argument in the type of a pointer uses is instrumented, so it is no longer a constant expression and the output does not compile"),
 dict(property="C02", status="open", repro="findings/local_const_tcall.cc", oracle="validity", opts=[], what="findings/local_const_tcall.cc: the initialiser of a local `const int n` that the template argument of a called function uses is instrumented, so it is no longer a constant expression and the output does not compile"),
 dict(property="C02", status="open", repro="findings/openmp.c", oracle="validity", opts=[], dialect=["-fopenmp"], what="findings/openmp.c: with -fopenmp, the clauses and the loop of an OpenMP directive are mutated and the directive is wrapped for removal, so the output does not compile (a redesign is needed: the ranges of directives do not cover their statements)"),
 dict(property="C02", status="open", repro="findings/coroutine.cc", oracle="validity", opts=[], what="findings/coroutine.cc: the operand of co_yield and the expressions clang synthesises around it are mutated, so the co_yield ends up in a lambda that is not a coroutine and the instrumented code does not compile"),
 dict(property="C12", status="open", repro="findings/local_const_typedef.cc", oracle="constants", opts=["--no-mutation-opts"], what="findings/local_const_typedef.cc: the bound of an array type that is named in a typedef and depends on a local `const int n` becomes a run-time value, which changes under mutants of the initialiser of n"),
 dict(property="C12", status="open", repro="findings/local_const_using.cc", oracle="constants", opts=["--no-mutation-opts"], what="findings/local_const_using.cc: the bound of an array type that is named in an alias declaration and depends on a local `const int n` becomes a run-time value, which changes under mutants of the initialiser of n"),
 dict(property="C12", status="open", repro="findings/local_const_sizeof.cc", oracle="constants", opts=["--no-mutation-opts"], what="findings/local_const_sizeof.cc: the bound of an array type that is named in sizeof and depends on a local `const int n` becomes a run-time value, which changes under mutants of the initialiser of n"),
 dict(property="C12", status="open", repro="findings/local_const_ptr.cc", oracle="constants", opts=["--no-mutation-opts"], what="findings/local_const_ptr.cc: the bound of an array type that is named in the type of a pointer to array and depends on a local `const int n` becomes a run-time value, which changes under mutants of the initialiser of n"),
 dict(property="C11", status="open", repro="findings/strtok_threads.c", oracle="strtok_threads", opts=[], what="findings/strtok_threads.c: threads of a C program that use instrumented code for the first time at the same moment parse the list of ids with strtok, whose state they share, so that some of them miss enabled mutants (the prelude is pinned by the expected outputs)"),
 dict(property="C06", status="open", repro="findings/tracking_unopenable.c", oracle="fopen", opts=[], what="findings/tracking_unopenable.c: a C program instrumented for coverage tracking crashes (writes through a null FILE*) when the tracking file cannot be opened; the original runs normally (the prelude is pinned by the expected outputs)"),
]
FIXED = [("9817b83", "C02", "an operator that comes from a macro was replaced in the source by text that does not compile"),
 ("78b1833", "C02", "an implicitly converted comma expression was passed to a mutator function as two arguments"),
 ("40e4cf7", "C02", "alternative or spliced operator tokens (and, not, ...) were removed with the wrong length"),
 ("3ccaf93", "C02", "`return++x`, `else++x`: the inserted call fused with the keyword"),
 ("e868e8e", "C02", "the address of a C register variable was taken"),
 ("07234e4", "C02", "a statement whose semicolon comes from a macro was wrapped without a terminating semicolon"),
 ("c8709ec", "C01", "a reference returned by a member call on a temporary dangled after instrumentation"),
 ("892668e", "C02", "braced initialiser lists under implicit nodes were wrapped as expressions"),
 ("262d547", "C02", "mutated values in designated initialisers narrowed without a cast"),
 ("a8ab389", "C02", "adjacent statements without white space (`x=1;y=2;`) were instrumented in the wrong order"),
 ("3355ce0", "C02", "an initialiser on a later line but smaller column than the declared name tripped an assertion"),
 ("7a0ec4a", "C02", "the address of an element of a vector was taken"),
 ("95d3496", "C06", "a site with no mutants (optimisations on) marked the following mutant as already recorded, so it was never reported"),
 ("608519c", "C07", "abbreviated snippets cut through multi-byte characters, and the info file then misquoted the text around the cut"),
 ("d5c2832", "C07", "the end of a range whose last token contains a line splice or a newline was reported on the line of the start of that token, past the end of that line"),
 ("0c682e2", "C13", "the query script showed `- a and b` for a negated `a and b` (operator spelled as a word), which is another expression"),
 ("1cc741c", "C13", "the query script cut the source text by character instead of byte columns (wrong text beside multi-byte characters) and failed on sources that are not UTF-8"),
 ("d6cba07", "C10", "a file named twice under different spellings was mutated twice, and of two files with the same relative name in different compile-command directories the second was skipped"),
 ("a095fe8", "C02", "a negative constant template argument (`T<-3> x;`) was rewritten to a large unsigned literal that does not compile"),
 ("7c7b9ea", "C12", "a constant template argument for an `auto` parameter was rewritten to a literal of another type (`A<'c'> x;`), and one of enumeration type to an integer that does not compile"),
 ("a7f995d", "C08", "removing unary minus from an unsigned expression was dropped as redundant although no kept mutant stands for it"),
 ("b9f12e0", "C01", "a dereference, subscript or assignment through a pointer or reference into a temporary object (`*make().begin()`) was wrapped in a lambda that returns a dangling reference"),
 ("0eb7669", "C10", "a source file that could not be overwritten made dredd fail an assertion (or, in release mode, be described as mutated), and the remaining files were not instrumented"),
 ("8a7a0e0", "C10", "dredd exited successfully when the mutation info file could not be written"),
 ("4e7e928", "C02", "a variable declared in a condition that comes partly from a macro was mutated into text that does not compile"),
 ("a2becd1", "C02", "the operators __extension__, __real__ and __imag__ failed an assertion"),
 ("59e0fa4", "C01", "an implicit conversion of the shared condition of `a ?: b` in C++ was mutated, so that the result became a bool"),
 ("6ca967c", "C02", "the statement that gives a GNU statement expression its value was made removable, and the output did not compile"),
 ("355090f", "C02", "constant operands of asm statements were mutated, and the output did not compile"),
 ("1e7d85b", "C02", "operands of typeof were mutated, and the output did not compile"),
 ("03a50b5", "C02", "arguments of builtins that have to be constants were mutated, and the output did not compile (or __builtin_constant_p changed its value)"),
 ("a1e792c", "C02", "initialisers of GNU array range designators were mutated, and the output did not compile"),
 ("ce1d415", "C01", "the operands of assignments and shifts were not evaluated in the order required since C++17"),
 ("fbeac9d", "C02", "an attributed or asm statement whose semicolon comes from a macro was wrapped without a terminating semicolon"),
 ("9e622cc", "C02", "parenthesised null pointers and null member pointers were mutated, and the output did not compile"),
 ("417e4ac", "C02", "the test that removes a loop was put between the loop and its pragmas, and the output did not compile"),
 ("0dc1415", "C02", "operands of a return statement that must be a tail call were mutated, and the output did not compile"),
 ("35926c5", "C02", "expressions of the storage-only type __fp16 were given functions that take and return __fp16, which does not compile"),
 ("7a57b5a", "C02", "the prelude was put before a byte order mark, which then stood in the middle of the file"),
 ("0ccb838", "C02", "a removed statement after a macro argument was given no space next to identifiers with dollars or multi-byte characters, and the tokens merged"),
 ("9aa40dd", "C02", "the implicit copy of an array named by a macro in a structured binding was mutated, and the output did not compile")]
with open(os.path.join(ROOT, "known_findings.jsonl"), "w") as f:
    for o in OPEN:
        f.write(json.dumps(o) + "\n")
    for h, p, w in FIXED:
        full = subprocess.run(["git", "-C", "/repo", "rev-parse", "--short", h], capture_output=True, text=True).stdout.strip() or h
        f.write(json.dumps(dict(property=p, status="fixed", commit=full, note="fixed: property=%s %s %s" % (p, full, w))) + "\n")
