#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["stdout and exit status of the program compiled with blang"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Operator expressions have the value B's grammar gives them",
 "An expression built from constants, variables, calls, parentheses and the operators ! - * & (unary), * / % + - << >> < <= > >= == != & | and ?: evaluates to the value given by B's precedence and associativity (unary, then * / %, + -, shifts, comparisons, equality, &, |, ?:; binary operators group left to right, ?: right to left), in 64-bit two's complement words. Comparisons and ! give exactly 0 or 1, / and % truncate toward zero, << and >> fill vacated bits with zeros, and the result does not depend on whether operands are constants, variables, parameters, vector elements or call results.",
 ["inputs", "programs"],
 "all expression trees of bounded depth over all operators and operand kinds, any 64-bit operand values for which the operation is defined (no zero divisor, no MIN/-1, shift counts 0..63), printed with the fewest and with redundant parentheses",
 "lang_expr_test.go checks about a hundred fixed expressions with small positive operands; the combinations of operator pairs, operand kinds, signs and nesting are unbounded.",
 ["expressions.go", "lexer.go"],
 [("precedence climbing", "expressions.go parseExpressionWithLevel"), ("unary and primary operands", "expressions.go parseUnary, parsePostfix, parsePrimary")])

prop("P02", "Assignments and increments store exactly what they say, once",
 "Every assignment operator (=, =+ =- =* =/ =% =& =| =<< =>> =< =<= => =>= === =!=) and every prefix or postfix ++ and -- changes exactly the designated word (a variable, parameter, extrn variable, *pointer or vector element) to the value of the corresponding operation and yields the stored value (the old value for postfix), assignments grouping right to left; a compound assignment operates on the value its target has after the right operand is evaluated. Every operand, index and call in an expression is evaluated exactly once and in order from left to right, and of ?: only the selected branch is evaluated.",
 ["programs"],
 "all statement sequences mixing assignment operators, increments, lvalue forms, nested assignments, ?: and traced calls; the whole observable memory (all variables and vectors) is compared after each sequence",
 "The tests check each assignment operator once on a scalar; they do not observe neighbouring memory, evaluation counts or combinations of lvalue forms and operators.",
 ["expressions.go", "irbuilder.go"],
 [("assignment and compound assignment", "expressions.go parseExpressionWithLevel level 14"), ("increments", "expressions.go parseUnary, parsePostfix")])

prop("P03", "if, while, goto and return transfer control as written",
 "Any nesting of blocks, if, if-else (else belongs to the nearest if), while, labels, goto and return executes exactly the statements B's control flow selects, in that order: a condition is true when it is not zero, goto reaches its label from anywhere in the function (forward, backward, into and out of blocks and loops), and return ends the call with the given value or 0. Statements after a goto or return have no effect unless a label makes them reachable, and a null or empty statement does nothing.",
 ["programs"],
 "all generated function bodies of bounded size and nesting with traced statements and data-dependent conditions (loops bounded by counters), with layout variants such as else{, else(, else;",
 "Tests cover single constructs and a few nestings; the combinations (returns before code, gotos across nested constructs, labels in dead code) are unbounded.",
 ["parser_stmt.go", "irbuilder.go"],
 [("if/else", "parser_stmt.go parseIf"), ("loops", "parser_stmt.go parseWhile"), ("goto and labels", "parser_stmt.go parseGoto, parseKeywordOrExpressionWithSwitch"), ("return", "parser_stmt.go parseReturn")])

prop("P04", "switch enters at the matching case and falls through",
 "A switch evaluates its expression once and continues at the case whose constant (decimal, octal or character) equals that 64-bit value, or after the switch when no case matches; execution then falls through following cases until the end of the switch or a goto or return. Statements before the first case are not executed, any order and number of cases works (including none, several on one statement and large values), and nested switches keep their cases apart.",
 ["programs"],
 "all generated switches, nested in each other and in if, while and functions, with case constants over the non-negative 64-bit range and selector values that hit, miss or equal another switch's case",
 "The tests run a handful of switches with small constants; selectors outside the cases, wide constants, nesting and fall-through combinations are not covered.",
 ["parser_stmt.go"],
 [("switch and case", "parser_stmt.go parseSwitch, parseCase")])

prop("P05", "Calls pass all arguments by value and return the result",
 "A call, direct or through a pointer held in a variable, parameter, vector element, expression or call result, gives each of the callee's parameters the value of the argument at the same position for any number of arguments, whether the callee is defined before or after the call. Parameters are private copies, every activation of a recursive or mutually recursive function has its own parameters and auto variables, extra arguments are ignored, and the call yields the returned value, or 0 when the function ends without one.",
 ["programs"],
 "all generated call graphs with 0..12 parameters, recursion, mutual recursion, function pointers and nested calls as arguments",
 "Tests use fixed functions with few parameters; argument counts beyond the register limit, pointers through every storage kind, and recursion patterns are sampled by none or one case each.",
 ["expressions.go", "irbuilder.go", "parser_decls.go"],
 [("calls", "expressions.go parsePostfix"), ("parameters", "irbuilder.go DeclareFunction, StartFunction")])

prop("P06", "Auto variables are private, zeroed, and do not overlap",
 "Every auto scalar is 0 when its declaration is executed, belongs to one activation of its function and never shares storage with another variable, wherever in the function the declaration stands (also inside if, switch and loop bodies, or skipped by a goto). An auto vector v[n] (n decimal, octal or a character constant; v[] counts as v[1]) is a cell holding the address of n consecutive words, so that v[i] is the word at v + 8*i, the cell can be reassigned or passed to functions, and writing all n words changes no other variable.",
 ["programs"],
 "all generated sequences of auto declarations of scalars and vectors at any nesting, with every word written and read back through names, indices, pointers and callees; loops of up to 10^6 passes over declarations",
 "Tests check a few fixed layouts; aliasing between arbitrary sets of declarations and declarations in nested or skipped positions is not exercised.",
 ["parser_stmt.go", "irbuilder.go"],
 [("auto", "parser_stmt.go parseAuto"), ("allocation", "irbuilder.go DeclareLocal, DeclareLocalArray")])

prop("P07", "External variables keep their initial values and are shared by extrn",
 "A file-level definition gives a scalar its value (0 by default), a scalar with several values consecutive words, and a vector its listed values followed by zeros, with as many words as its size or its list (whichever is longer), reached through a cell that holds the address of the words. extrn in any function of any file linked together names that one storage, so that a store is seen by every later load in any other function; a name is usable only in functions that declare it, an extrn defined nowhere reads as 0, and a later definition of a name in a file replaces an earlier one.",
 ["programs", "histories"],
 "all generated sets of definitions (values: numbers, negative numbers, characters, strings) and histories of loads and stores from several functions and files, definitions before or after their uses",
 "Tests check a few fixed definitions in one file; value lists, cross-function and cross-file histories and redefinitions are unbounded.",
 ["parser_decls.go", "parser_stmt.go", "irbuilder.go", "driver.go"],
 [("definitions", "parser_decls.go parseGlobal, parseVector, parseIvalConst"), ("extrn", "parser_stmt.go parseExtrn"), ("storage", "irbuilder.go DeclareGlobal, DeclareGlobalWithMultipleValues, DeclareGlobalArray")])

prop("P08", "Constants and strings denote exactly the documented bytes",
 "A decimal constant, a constant with leading 0 (octal, in which the digits 8 and 9 count 8 and 9), and a character constant of up to eight characters (packed big-endian, the last one lowest) denote the documented word wherever a constant may stand: expressions, case, auto vector sizes and initial values. A string is the address of exactly its bytes (any byte values) followed by a zero byte, and the escapes *0 *e *( *) *t ** *' *\" *n *r denote their bytes in both kinds of literal.",
 ["inputs"],
 "all constants over the 64-bit range, character constants and strings over all byte values and escapes, in every syntactic position that takes one",
 "Tests use a few ASCII literals; byte values above 127, full-range numbers and escape combinations in every position are not covered.",
 ["lexer.go", "parser_decls.go", "parser_stmt.go", "irbuilder.go", "expressions.go"],
 [("literals", "lexer.go Number, Character, String, Escape"), ("string constants", "irbuilder.go CreateStringConstant")])

prop("P09", "Layout, comments, parentheses and names do not change a program",
 "Inserting or removing white space, newlines and comments between tokens, adding parentheses around a value, and renaming variables, functions and labels consistently to any other identifiers leaves acceptance and the behaviour of a program unchanged. Any letter, digit and underscore sequence that is not a keyword works as a name, including names that start with a keyword (iffy, elsex, returned), C library and LLVM names (malloc, entry, i64), and one name used as label, variable and function in different functions.",
 ["programs"],
 "all generated programs, each compared with re-laid-out and renamed versions of itself (metamorphic), down to a space, newline or comment at every token boundary and the tightest layout",
 "Tests are written in one fixed style; layout at every token boundary and name collisions are unbounded.",
 ["lexer.go", "parser_decls.go", "parser_stmt.go", "expressions.go", "irbuilder.go"],
 [("white space and comments", "lexer.go Whitespace, Comment"), ("identifiers and keywords", "lexer.go Identifier, parser_stmt.go parseKeywordOrExpressionWithSwitch, parseIf"), ("symbol names", "irbuilder.go globalName")])

prop("P10", "Output functions write exactly the specified bytes",
 "write, writeb, nwrite, printd, printo and printf (%d %o %c %s %%, unknown conversions verbatim) write exactly the bytes their arguments specify, for every 64-bit word, every string and any number of conversions, unbuffered and in call order, to standard output when fout is 0 and standard error when fout is 1. write emits the bytes of the word from the most significant non-zero one, writeb the lowest byte, nwrite count bytes to the given file and returns the number written or a negative number on error; %d and printd print signed decimal, printo unsigned octal and %o the sign and octal magnitude.",
 ["inputs", "histories"],
 "all generated call sequences with arbitrary words, strings over all non-zero bytes, format strings and switches of fout, compared with a byte-exact model of both streams",
 "Tests print a few positive and negative numbers and short ASCII strings; the word and byte ranges and interleavings are unbounded.",
 ["runtime/printf.c", "runtime/printd.c", "runtime/printo.c", "runtime/write.c", "runtime/writeb.c", "runtime/nwrite.c", "runtime/flush.c"],
 [("formatting", "runtime/printf.c b_printf"), ("numbers", "runtime/printd.c, printo.c"), ("bytes", "runtime/write.c, writeb.c, nwrite.c")])

prop("P11", "Input, string bytes and process exit follow the library contract",
 "read returns the next input byte when it is 1..127, 0 for any other byte, and 4 at end of file, again and again; nread reads up to count bytes of the given file into the buffer, changes nothing else, and returns the number read, 0 at end of file or a negative number on error, sharing the input position with read. char(s,i) is the unsigned i-th byte of s and lchar(s,i,c) replaces exactly that byte by the low byte of c; exit() ends the process at once with status 0, and returning from main ends it with main's value (low 8 bits) as status.",
 ["inputs", "histories"],
 "all generated inputs (any bytes, any length, also through pipes) and call sequences mixing read, nread, char and lchar over buffers, and all exit values",
 "Tests feed three short ASCII inputs and two strings; byte ranges, lengths, offsets and mixes of the calls are unbounded.",
 ["runtime/read.c", "runtime/nread.c", "runtime/char.c", "runtime/lchar.c", "runtime/exit.c", "runtime/start.c"],
 [("input", "runtime/read.c, nread.c"), ("bytes of strings", "runtime/char.c, lchar.c"), ("process", "runtime/start.c, exit.c")])

prop("P12", "Invalid programs are rejected with a diagnostic and no output",
 "A program that violates B's rules is rejected: blang exits with status 1, prints a message starting 'blang: error:' that says what is wrong (with the name, for a duplicate or undefined label and a duplicate auto or parameter), and leaves no output file; the rules are balanced and complete syntax, assignment, ++, -- and & only on lvalues, no undeclared variable as target, no duplicate auto, label or case value, goto only to labels of the same function, case only in a switch, terminated comments, strings and character constants, character constants of at most eight characters, only known escapes, and no name both variable and function. The verdict does not depend on where in an otherwise valid program the error stands.",
 ["programs"],
 "all generated valid programs with one error of each listed class planted at a random eligible place; the same program without the error is accepted",
 "TestCompileErrors checks about 40 fixed snippets; errors deep inside larger programs and interactions with preceding text are not covered.",
 ["parser_decls.go", "parser_stmt.go", "expressions.go", "lexer.go", "driver.go"],
 [("diagnostics", "error returns of the parser and lexer"), ("driver", "main.go main, driver.go Compile")],
 observe=["exit status, stderr and output files of blang"])

prop("P13", "No input makes the compiler crash, hang or emit invalid IR",
 "For every input file, whatever its bytes, blang terminates promptly with status 0 or 1, never by a crash, and status 1 comes with a diagnostic. When --emit-llvm succeeds, the output is a module that LLVM parses and verifies, and the same input also compiles to an object file.",
 ["inputs"],
 "all byte strings up to 64 KB (random bytes, token soup, mutated and truncated programs, generated valid programs), with nesting below 1000 levels and vector sizes below 10^6",
 "The tests contain only well-formed inputs and about 40 specific errors.",
 ["lexer.go", "parser_decls.go", "parser_stmt.go", "expressions.go", "irbuilder.go", "driver.go"],
 [("parser", "parser_decls.go ParseDeclarations"), ("IR", "irbuilder.go"), ("driver", "driver.go compileToIR")],
 observe=["exit status and stderr of blang", "llvm-as and clang -c on the output"])

prop("P14", "Each command line produces exactly its documented files",
 "blang writes exactly the documented output: an executable named by -o or after the first input, or one .o (-c), .s (-S) or .ll (--emit-llvm) per input in the current directory or the one file named by -o, accepting options before or after the inputs and the documented input types, with -l libraries and -L directories used in linking and -O1 and up giving optimised code. Inputs and other files of the user are never modified, intermediate files are removed unless --save-temps is given, no other file appears, and the status is 0 when all requested outputs were made. A successful run prints nothing; -v adds lines that start with blang: and name the inputs and outputs; --help and --version print their text with status 0; a failing run names the offending file or value.",
 ["configurations", "fault_sequences"],
 "all generated command lines (modes, options and their order, -o paths, inputs in other directories, several inputs of mixed types) over a scratch directory, and failing ones (bad source, missing input, wrong extension, -o with several inputs, bad -O level, unknown option, unwritable output, failing clang), where blang must exit with status 1, print a diagnostic, and leave no intermediate file behind",
 "cli_test.go and driver_test.go run one command line per option; combinations, orders and failure cases are unbounded.",
 ["main.go", "driver.go", "options.go"],
 [("option parsing", "main.go main"), ("outputs and intermediate files", "driver.go compileToIR, compileToAssembly, compileToObject, compileToExecutable")],
 observe=["exit status, stdout, stderr and the directory tree before and after blang"])

prop("P15", "All optimisation levels and build routes give the same behaviour",
 "A well-defined B program behaves the same (output, exit status) and as B defines it whether built with -O0, -O1, -O2 or -O3, with or without -g, directly to an executable or through --emit-llvm, -S or -c with blang linking the results. Splitting its definitions over several files, in any order and mix of input types, compiled together or separately, changes nothing.",
 ["programs", "configurations"],
 "all generated well-defined whole programs (functions, globals, vectors, strings, recursion, loops) times build routes and partitions into files, compared with each other and with a reference interpreter",
 "The tests compile almost everything at one level by one route and one file.",
 ["driver.go", "irbuilder.go", "expressions.go", "runtime/start.c", "runtime/memory.c"],
 [("build routes", "driver.go compileToExecutable, compileToObject, compileToAssembly"), ("code generation", "irbuilder.go"), ("program start", "runtime/start.c")])

prop("P16", "Compilation is deterministic and depends only on the source text",
 "Compiling the same source twice, from any directory or file name, alone or together with other inputs in any order, with any optimisation level or output options, yields byte-identical LLVM IR, and byte-identical assembly, object and executable files for the same options. Definitions are compiled independently: reordering definitions, or adding unrelated ones before, between or after, does not change the behaviour of a program.",
 ["programs", "configurations"],
 "all generated programs times paths, companions and orders of the inputs, repeated compilations, and permutations and extensions of the top-level definitions",
 "No test compiles anything twice or in a different context.",
 ["driver.go", "irbuilder.go", "parser_decls.go"],
 [("fresh state per input", "driver.go compileToIR"), ("per-definition context", "irbuilder.go ClearTopLevelContext")],
 observe=["bytes of the files written by blang", "stdout and exit status of the compiled programs"])

prop("P17", "Pointers, vectors and strings form one flat memory of words",
 "The address operator, indirection and indexing agree for every object: *&x is x, p[i] is the word 8*i bytes after p, *p is p[0], &v[i] is v + 8*i, and arithmetic on addresses is plain integer arithmetic on bytes. Stores through any alias (pointer, vector name, pointer to pointer, parameter, extrn vector, word written bytewise with lchar) are seen by loads through every other alias of the word and change no other word.",
 ["programs", "histories"],
 "all generated histories of loads and stores through random alias chains over auto and external scalars and vectors, vectors of vectors, linked lists and swapped or advanced pointers, against a flat memory model",
 "Tests use pointers in a few fixed ways; alias chains and histories of stores are unbounded.",
 ["expressions.go", "irbuilder.go"],
 [("address, indirection, indexing", "expressions.go parseUnary, parsePostfix"), ("vector cells", "irbuilder.go DeclareGlobalArray, DeclareLocalArray")])

prop("P18", "Parallel runs in one directory do not disturb each other",
 "When several blang commands run at the same time in one directory (as make -j starts them), with inputs in common and output names of their own, each ends with the status, messages and output files that it has when it runs alone, whether the others succeed or fail, and when all have ended nothing else in the directory has appeared, changed or gone. This holds for every interleaving of their steps.",
 ["schedules", "configurations"],
 "all generated sets of 2 to 5 command lines over a common directory (modes, shared and repeated inputs of all types, failing ones among them) and all generated interleavings of the steps at which they start compilers and read and write files",
 "No test runs two compilers at once; interleavings are unbounded and the harmful ones rare.",
 ["driver.go", "main.go"],
 [("intermediate files", "driver.go compileToIR, compileToExecutable"), ("outputs", "driver.go compileToAssembly, compileToObject")],
 observe=["exit status, stdout, stderr of each run and the directory tree after all have ended"])

prop("P19", "B and C objects made by the runtime's convention work together",
 "The B function or external variable NAME is the symbol b.NAME with words (64-bit) as parameters, result and content, a vector being a variable that holds the address of its words, as runtime/README.md and runtime.h describe. So a C function made by this convention can be called from B (also through a pointer, and taking its arguments as a variable list), C can call every B function, and both sides share external variables wherever they are defined, linked by blang from .o, .s, .ll or archives at any optimisation level.",
 ["programs", "configurations"],
 "all generated programs (calls, recursion, pointers, external scalars and vectors, strings) times assignments of each function and variable to B or C and of object formats to files",
 "Tests link a handful of C functions of the library; the sides of each call, argument counts, kinds of variable and object formats combine without bound.",
 ["irbuilder.go", "parser_decl.go", "parser_stmt.go", "expressions.go", "runtime/runtime.h"],
 [("symbol names and types", "irbuilder.go DeclareFunction, DeclareGlobal"), ("undefined externals", "parser_stmt.go extrn"), ("calls", "expressions.go parsePostfix")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
