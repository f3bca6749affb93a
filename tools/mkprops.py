"""writes properties.jsonl (the single source of the property texts)"""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["output and exit status of the compiled program"], "hook_needed": None}})


prop("C01", "Compiled expressions have their C value and type",
     "Every arithmetic, bitwise, shift, comparison, logical, conditional, cast, assignment, increment, comma and call expression the compiler accepts evaluates, in the compiled program, to the value and with the type and side effects C90 gives it on an ILP32 target with two's complement wrap-around. This holds for every combination of the operand types bool, char, short, int, long, long long (signed and unsigned), float and double and for every operand value for which C defines the result.",
     ["programs", "inputs"], "all expression trees over the arithmetic types and all operand values with defined results",
     "The tests run a few hundred fixed calls of library functions; operator/type/value combinations (mixed signedness, narrow types, boundary values, nested conversions) are unbounded and mostly unvisited.",
     ["c.c"], [("usual arithmetic conversions", "c.c ts_arith_common, ts_integral_promote"), ("operator selection", "c.c asm_binary, asm_unary, asm_numerical_cast, compile_binary, compile_unary, compile_cond, compile_asncombo"), ("loads and stores of narrow types", "c.c asm_load, asm_store"), ("peephole rewriting", "c.c fundef_peephole")])
prop("C02", "Statements transfer control as C prescribes",
     "For every function built from if/else, while, do, for, switch (with any set of case labels, fall-through, default anywhere and nesting), break, continue, block-structured goto, return and recursive or indirect calls, the compiled program executes exactly the sequence of side effects that C prescribes and returns the prescribed value.",
     ["programs", "inputs"], "all nestings of the supported statements and all inputs steering them",
     "Tests contain a handful of simple shapes; nesting of loops, switches and jumps (and dense against sparse case sets) composes in unboundedly many ways that fixed tests do not sample.",
     ["c.c", "p.c"], [("control flow lowering", "c.c expr_wasmify, fundef_wasmify"), ("switch lowering", "c.c compile_switch_table, compile_switch_ifs"), ("branches", "c.c compile_if, compile_branch, compile_return"), ("statement parsing", "p.c parse_stmt, parse_switch_clause")])
prop("C03", "Objects are laid out, initialised, copied and addressed as in C",
     "sizeof, alignof, offsetof and member/element addresses of every struct, union, array and pointer type follow the C layout rules for ILP32; static data starts with exactly the bytes its initialisers prescribe and zero elsewhere; reads and writes through any chain of members, subscripts, pointers and pointer arithmetic, whole-object assignments and struct/union results touch exactly the designated bytes and no others.",
     ["programs", "inputs"], "all nested aggregate types, initialisers, access paths and access sequences",
     "Tests use the few aggregates of the C library; padding, nesting, unions, multi-dimensional arrays, partially initialised aggregates and narrow members are not systematically reached.",
     ["c.c"], [("layout", "c.c measure_type, measure_offset"), ("static data", "c.c initialize_bulk_data, process_vardecl"), ("access paths", "c.c compile_ataddr, compile_dot, compile_subscript, compile_addrof, compile_bulkasn"), ("locals in memory", "c.c fundef_hoist_locals, fundef_wasmify"), ("data segments", "w.c watify_wat_module")])
prop("C04", "A constant expression has one value wherever it is evaluated",
     "A constant expression yields the same value and type whether it is computed at run time from variables, folded inside a function, used as the initialiser of a scalar or of an array element, or used as an array bound, enumerator, case label, static assertion or macro body. An expression the compiler accepts as a constant never makes the compiler fail or stop.",
     ["programs", "inputs"], "all constant expressions and all contexts that accept them",
     "Constant evaluation is a second, independent implementation of the expression semantics inside the compiler; tests exercise only a few literals through it.",
     ["c.c", "p.c"], [("static evaluation", "c.c static_eval, numval_binop, numval_unop, numval_convert"), ("folding", "c.c expr_fold_constants, arithmetic_constant_expr"), ("literal lexing", "p.c lex, parse_primary_expr")])
prop("C05", "Optimisation options never change what a program does",
     "For every accepted program, compiling with any optimisation level option yields programs with identical output and exit status.",
     ["programs", "configurations"], "all accepted programs, all -O levels",
     "The test suite only ever builds with the default options; rewriting rules fire on instruction patterns that depend on the program.",
     ["c.c", "w.c"], [("peephole", "c.c fundef_peephole"), ("optimisation level", "c.c init_wcpl, main")])
prop("C06", "Object and text forms round-trip without changing the program",
     "Compiling sources directly to a binary, or through separately compiled text object files, or linking from a mixture of both, gives programs that behave identically, and the text (WAT) executable is equivalent to the binary executable of the same inputs; every literal, string, name and instruction survives writing and re-reading of the text form exactly. Explicitly supplied and embedded copies of the libraries and headers are interchangeable ways to build a program.",
     ["programs", "configurations"], "all accepted programs, all splits into sources and objects, both output formats",
     "Tests only link one source with library objects into a binary; the writer and the reader of the object format meet only what those programs contain.",
     ["w.c", "c.c"], [("text writer", "w.c write_wat_module, format_inscode"), ("text reader", "w.c read_wat_object_module, lex, parse_ins, parse_modulefield"), ("binary writer", "w.c wat_to_wasm, write_wasm_module")],
     ["output files of the compiler", "output and exit status of the compiled program"])
prop("C07", "Whatever the compiler accepts becomes a valid module",
     "Whenever the compiler and linker finish with a success status, the output is a valid WebAssembly module that exports its memory and its start function and imports nothing but host functions; otherwise they finish with a failure status and a diagnostic. In particular an input that cannot be read to its end or an output that cannot be written completely (a full disk, a failing device) is a failure, never a success with a cut result.",
     ["programs"], "all source texts",
     "Validity is only checked for the programs in the tests; ill-typed or unusual programs that slip through checking are what breaks it.",
     ["c.c", "w.c"], [("type checks", "c.c assign_compatible, cast_compatible, compile_call, expr_compile"), ("module encoding", "w.c wasm_expr, wat_to_wasm_code, write_wasm_module")],
     ["exit status and output file of the compiler"])
prop("C08", "Compilation is deterministic and the self-hosted compiler agrees",
     "Compiling the same inputs with the same options always yields byte-identical output, whatever the environment, current directory or names of temporary paths are. The compiler compiled by itself yields, for every input, byte for byte the same binary output as the natively built one (and the same text output apart from comments), and the same verdict on inputs it rejects.",
     ["programs", "configurations"], "all inputs to the compiler, native and self-hosted",
     "No test compiles the compiler with itself; agreement on one input says nothing about the code paths other inputs take in two very different builds.",
     ["c.c", "p.c", "w.c", "l.c", "lib/src"], [("portable C subset used by the compiler itself", "c.c, p.c, w.c, l.c"), ("library used by the self-hosted build", "lib/src")],
     ["output files and exit status of the compiler"])
prop("C09", "No input makes the compiler or linker misbehave",
     "For every byte sequence given as a C source, header, or object file, the compiler and linker terminate normally, never access memory outside their objects, and either succeed or fail with a diagnostic and a failure status. A diagnostic about a malformed source names the file and the line of the offending construct.",
     ["inputs"], "all byte sequences as source, header or object file",
     "Tests only feed well-formed files; malformed ones are never tried.",
     ["p.c", "w.c", "c.c", "l.c"], [("C lexer and parser", "p.c lex, parse_translation_unit"), ("object lexer and parser", "w.c lex, parse_modulefield"), ("error reporting", "p.c vrprintf, neprintf, n2eprintf; w.c seprintf")],
     ["exit status, stderr, sanitizer reports"])
prop("C10", "Lexing, literals, macros and conditional blocks follow the documented rules",
     "Any re-spelling of a program that C and the documentation treat as equivalent (white space, comments, line splices, line ends, alternative literal spellings, escape sequences, string concatenation, named against inlined macros and constants) compiles to the same program. Object-like, function-like and variadic macros behave as if their expression were written in place with each argument as a parenthesised unit, and inactive conditional blocks have no effect whatever they contain.",
     ["programs", "inputs"], "all respellings of accepted programs; all macro definitions and uses",
     "The lexer and macro expander see only the spellings the library headers use.",
     ["p.c"], [("lexer", "p.c lex, strtou64/escape handling"), ("macros", "p.c parse_define_directive, patch_macro_template"), ("conditional blocks", "p.c parse_cc_if_directive, parse_cc_cond"), ("string concatenation", "p.c parse_concat_expr, concat_strlit")],
     ["output files of the compiler", "output of the compiled program"])
prop("C11", "Variadic calls deliver every argument intact",
     "A function taking variable arguments receives, through the standard access macros (also after copying or passing the list on), exactly the promoted values the caller passed, for every sequence of argument types and any number of arguments, including nested and recursive variadic calls.",
     ["programs", "inputs"], "all sequences of argument types and values",
     "Tests reach this only through printf/scanf with a few argument patterns.",
     ["c.c", "p.c", "lib/include/stdarg.h"], [("call side", "c.c compile_call, fundef_hoist_locals"), ("callee side", "lib/include/stdarg.h, p.c make_vararg_union_type")])
prop("C12", "Linking joins modules without interference",
     "In a program of several modules, every reference reaches the one definition of that name in the module that declares it: shared variables and functions are the same object everywhere, static names and string literals of different modules never mix, initial values and addresses survive relocation, and only references decide what is kept. The order of input files, splitting them into objects, and unused definitions do not change behaviour, and missing or duplicate definitions are diagnosed.",
     ["programs", "configurations"], "all partitions of a program into modules, all link orders",
     "Every test program is a single source; cross-module references appear only between it and the library.",
     ["w.c", "c.c", "p.c"], [("reference resolution", "w.c process_depglobal, process_subsystem_depglobal, link_wat_modules"), ("relocation", "w.c watify_wat_module, finalize_wat_module"), ("module environments", "p.c post_symbol, lookup_global")])
prop("C13", "Formatted output matches the C definition of printf",
     "For every supported format string and arguments, the printf family produces exactly the text (and the return value) that C defines for the flags, width, precision, length modifier and conversion, within the library's documented limits (floating conversions carry at most nine fraction digits followed by zeros, accurate to within 1e-4 of a unit of the last digit, with the exponent form above 1e9; %g keeps trailing zeros; %p prints eight hex digits; %n is not supported); bounded variants never write beyond the given size, always terminate the result, and return the length the complete text would have.",
     ["inputs"], "all conversions, flag/width/precision combinations and argument values",
     "Tests check a few hundred fixed (format, value) pairs.",
     ["lib/src/stdio.c"], [("format interpreter", "lib/src/stdio.c vfpprintf family"), ("number formatting", "lib/src/stdio.c fmtnum/dtoa helpers")])
prop("C14", "Formatted input inverts formatted output and follows C's scanf",
     "For every supported format string and input text, the scanf family converts the same prefixes, stores the same values and returns the same count as C prescribes, never writes to arguments it did not convert nor past a field width, and leaves the first unconsumed character to be read next; numbers printed with sufficient precision read back unchanged.",
     ["inputs"], "all formats, inputs and values",
     "Tests check a few fixed inputs.",
     ["lib/src/stdio.c"], [("input interpreter", "lib/src/stdio.c vfscanf family")])
prop("C15", "Text-to-number conversion is exact",
     "The string-to-integer and string-to-floating conversions (and their ato* forms) accept exactly the longest valid prefix in every base, return its exact or nearest representable value, saturate and report range errors as C defines, and set the end pointer correctly for every input text.",
     ["inputs"], "all byte strings and bases",
     "The input space is unbounded; tests sample a few numerals.",
     ["lib/src/stdlib.c"], [("integers", "lib/src/stdlib.c strtol, strtoul, strtoll, strtoull"), ("floating", "lib/src/stdlib.c strtod, atof")])
prop("C16", "String, memory and character functions match their definitions",
     "Every function of the string, memory and character-classification libraries (including the tokenizers, error strings, bounded copies and UTF-8/wide-character helpers) returns the result and performs exactly the writes its C or POSIX definition prescribes, for all contents, lengths, alignments and overlaps the definition allows; UTF-8 encoding and decoding are mutually inverse on valid code points.",
     ["inputs"], "all contents, lengths, offsets, overlaps and characters",
     "Tests hardly touch these functions; edge lengths, high bytes and overlaps are unvisited.",
     ["lib/src/string.c", "lib/src/ctype.c", "lib/src/stdlib.c"], [("strings", "lib/src/string.c"), ("classification", "lib/src/ctype.c, lib/include/ctype.h"), ("multibyte", "lib/src/stdlib.c mbtowc, wctomb, mbstowcs; lib/src/string.c utf8 helpers")])
prop("C17", "The heap hands out disjoint, aligned, stable blocks",
     "Across any history of malloc, calloc, realloc and free, every live block is suitably aligned, lies inside memory, overlaps no other live block, no static data and no stack storage, and keeps its contents until freed (realloc preserving the common prefix, calloc returning zeros); freed memory is reused, and exhaustion is reported by a null result without damaging live blocks.",
     ["histories"], "all sequences of allocator calls, sizes and exhaustion points",
     "Heap corruption needs particular multi-step histories of sizes and frees; tests have no allocator histories.",
     ["lib/src/stdlib.c"], [("allocator", "lib/src/stdlib.c malloc, free, realloc, calloc"), ("memory growth", "lib/src/stdlib.c sbrk-like growth; unistd.c")])
prop("C18", "Sorting and searching are correct for every comparison and layout",
     "qsort leaves a permutation of the input in the order of the given comparison for every element size, count and input pattern without touching adjacent memory, and bsearch finds an element exactly when one compares equal; integer helpers (abs, div and relatives, random numbers in range and reproducible by seed) return what C defines.",
     ["inputs"], "all arrays, element sizes and comparison functions",
     "Tests do not sort; partitioning bugs need particular patterns.",
     ["lib/src/stdlib.c"], [("qsort/bsearch", "lib/src/stdlib.c qsort, bsearch"), ("integer helpers", "lib/src/stdlib.c div, ldiv, rand")])
prop("C19", "Streams behave as one consistent file under any history of calls",
     "For every history of opens, reads, writes, character push-back, seeks, flushes, buffering changes, reopenings and closes, data read, positions, end-of-file and error indicators and return values are those of an ideal C stream over the file's bytes, and after flush or close the file holds exactly the bytes written.",
     ["histories"], "all sequences of stream operations, sizes and buffering modes",
     "Stream bugs need particular interleavings of buffered reads, writes and seeks; tests read and write sequentially.",
     ["lib/src/stdio.c"], [("buffering", "lib/src/stdio.c fflush, fill/flush helpers"), ("positioning", "lib/src/stdio.c fseek, ftell, rewind, ungetc"), ("opening", "lib/src/stdio.c fopen, freopen, fclose")],
     ["output of the compiled program", "files left in the scratch directory"])
prop("C20", "Calendar computations are exact over the whole time range",
     "Conversion of times to broken-down UTC fields and back, normalisation of out-of-range fields, time differences, and textual and strftime formatting agree with the proleptic Gregorian calendar for every representable time.",
     ["inputs"], "all times, all broken-down fields and all conversion specifiers",
     "Calendar edge cases (leap centuries, negative times, carry chains) are scattered over a huge range.",
     ["lib/src/time.c"], [("calendar", "lib/src/time.c gmtime, mktime, timegm"), ("formatting", "lib/src/time.c strftime, asctime")])
prop("C21", "Mathematical functions are accurate and respect special values",
     "Every function of the math library returns, for every argument, the exact result where C/IEEE require it (rounding, decomposition, remainder, sign and comparison operations, square root, special values) and otherwise a result within one unit in the last place of the true value (two for tan and atan2, three for the hyperbolic functions and log10).",
     ["inputs"], "all double and float arguments",
     "The tests check a table of points; the functions branch on exponent ranges and argument reductions the table cannot cover.",
     ["lib/src/math.c", "lib/include/math.h"], [("fdlibm port", "lib/src/math.c"), ("intrinsics", "lib/include/math.h, sys.intrs.h")])
prop("C22", "Files and directories are manipulated as POSIX prescribes",
     "For every history of descriptor-level opens, reads, writes, seeks, truncations, and of directory creation, listing, renaming, removal, linking and status queries within the granted directories, results, error codes and the final file tree are those of the same history performed directly on the host.",
     ["histories"], "all sequences of file-system calls with existing, missing and conflicting names",
     "Tests do not touch the file system beyond reading a fixed file.",
     ["lib/src/unistd.c", "lib/src/fcntl.c", "lib/src/stat.c", "lib/src/dirent.c", "lib/src/stdio.c"], [("path resolution", "lib/src/fcntl.c preopen lookup"), ("descriptor calls", "lib/src/unistd.c"), ("directories", "lib/src/dirent.c"), ("status", "lib/src/stat.c")],
     ["output of the compiled program", "files left in the scratch directory"])
prop("C23", "Programs start and end as C prescribes",
     "A program receives exactly the arguments and environment its host provides, and ends with exactly the status it returned or passed to exit, after running registered exit handlers in reverse order and flushing all streams; abort and failed assertions end it abnormally; none of this depends on the number or length of arguments or on the stack and argument size options within their documented meaning.",
     ["inputs", "histories", "configurations"], "all argument vectors, environments, exit paths and size options",
     "Tests run with one fixed, empty command line and return normally.",
     ["lib/src/crt.args.c", "lib/src/crt.argv.c", "lib/src/crt.c", "lib/src/crt.void.c", "lib/src/stdlib.c", "c.c"], [("start-up", "lib/src/crt.*.c"), ("termination", "lib/src/stdlib.c exit, atexit, abort; lib/src/stdio.c"), ("options", "c.c main, init_wcpl")])
prop("C24", "Host failures are reported, never lost or turned into corruption",
     "When any host call made on behalf of the library fails, or transfers fewer bytes than asked, at any point of a history, the library call reports the failure (with the matching error code) or completes the transfer; data already accepted is neither duplicated, reordered nor silently lost, and the program keeps running with consistent state.",
     ["fault_sequences", "histories"], "all placements of failures and short transfers in I/O histories",
     "The tests run on a host that never fails.",
     ["lib/src/stdio.c", "lib/src/unistd.c", "lib/src/fcntl.c", "lib/src/stdlib.c"], [("error propagation", "lib/src/stdio.c, lib/src/unistd.c"), ("short transfers", "lib/src/stdio.c flush/fill helpers")])
prop("C25", "Intrinsics and SIMD operations match their WebAssembly definitions",
     "Every documented inline instruction form, bit-manipulation intrinsic, memory intrinsic and 128-bit vector operation, with any operands and constant lane or shift arguments, yields the value the WebAssembly specification defines, also when operands are constants or vectors live in memory, locals, globals, arrays and function results.",
     ["programs", "inputs"], "all intrinsics, operand values and storage places",
     "No test uses the vector headers and few use intrinsics.",
     ["lib/include/sys.intrs.h", "lib/include/wasm_simd128.h", "lib/include/wasm.h", "w.c", "c.c", "p.c"], [("instruction tables", "w.c instr_name, instr_sig, wasm_in"), ("inline assembly", "p.c parse_asm_code; c.c compile_acapp"), ("vector constants", "c.c asm_simd128_const, fold_simd_display")])
prop("C26", "Automatic objects and alloca blocks live exactly as long as their function",
     "While a function is active, each of its local arrays, structs, unions and scalars in memory and each block it obtained with alloca keeps its address and contents, is aligned for its type (alloca: for any type), and overlaps no other object alive: none of the same activation, of its callers, callees and recursive activations, static data or heap. When the function returns, by whatever statement, the stack is as it was before the call.",
     ["programs", "histories", "inputs"], "all functions with automatic objects, block sizes and histories of nested and recursive activations",
     "Overlap and early release show only for particular sizes, nestings and orders of calls and returns; the tests use automatic arrays in a few fixed functions and alloca not at all.",
     ["c.c"], [("frames and their release", "c.c fundef_wasmify, contains_alloca, fundef_hoist_locals; expr_wasmify return statements"), ("alloca", "c.c expr_compile INTR_ALLOCA")])
prop("C27", "Headers and library modules are found where the documentation says",
     "An include directive, quoted or in angle brackets, finds the first existing file among: the current directory (quoted form only), the -I directories in order, the include sub-directories of the -L directories in order, and the bundled headers; in each, the name itself, then with .h, then with .wh. A library module the program refers to comes from the first of the -L directories that has it (.o, .wo or .wat, in that order), or from the bundled ones, unless it is given explicitly. Directories named by WCPL_INCLUDE_PATH and WCPL_LIBRARY_PATH are searched as well. What is not found is a failure naming it; what lies further back is never looked at. The output is binary for a name ending in .wasm and text otherwise, goes to the named file or else to standard output, and does not depend on the order or spelling of options or on -q, -v and -w.",
     ["configurations", "inputs"], "all trees of candidate files, include spellings, search paths and option lists",
     "Every test finds each header and module in exactly one place with one fixed command line, so any search order gives the same result.",
     ["p.c", "w.c", "c.c", "l.c"], [("header search", "p.c pws_from_modname, parse_include_directive"), ("library search", "w.c load_library_wat_module; c.c init_wcpl"), ("options", "c.c main; l.c egetopt")],
     ["output files, messages and exit status of the compiler", "output of the linked program"])
prop("C28", "The standard headers give what C and the target promise",
     "Any standard header can be included alone, in any order with others and any number of times; the constants, types, members and macros it gives have the values, sizes, signedness and types of the target (C limits for 32-bit int, long and pointers, IEEE formats, WASI error and mode numbers) and can be used in any expression and any constant context, without surprises from operator precedence; the PRI and SCN macros convert exactly the type they name; each function it declares exists, with that type, in the library; assert stops the program exactly when its condition is false, and with the NDEBUG header evaluates nothing.",
     ["programs", "inputs", "configurations"], "all names of the standard headers, expressions and contexts, values, and lists of included headers",
     "The tests use few of the names, each in one place, and include each header once in a fixed order.",
     ["lib/include/limits.h", "lib/include/stdint.h", "lib/include/inttypes.h", "lib/include/float.h", "lib/include/errno.h", "lib/include/stdlib.h", "p.c"],
     [("limits and types", "lib/include/limits.h, float.h, stdint.h; p.c init_symbols built-in names"), ("format macros", "lib/include/inttypes.h"), ("declarations", "lib/include/*.h and lib/src/*.c"), ("assert", "lib/include/assert.h, lib/include/NDEBUG/assert.h")],
     ["return values and output of the compiled program", "exit status of the compiler"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
