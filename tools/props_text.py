"""The properties, in words."""
PROPS = []
HOOK = ["5671ee9", "205fb5d"]
LEVEL = ("Randomised search against an explicit oracle on the real interpreter built from /repo's working tree; "
         "no guarantee beyond the cases generated.")


def P(pid, title, statement, over, text, why, files, mech, technique, note="", observe=None, hook=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=observe, hook=hook))


P("P01", "Writing a value and reading it back yields the same value",
  "For every value built from nil, booleans, integers of up to 18 digits, floats with at most six decimals, strings, keywords, symbols, lists, improper "
  "lists, arrays, trees and buffers, the text the language writes for it reads back as exactly one value that is structurally equal and of "
  "the same type. Writing that value again produces the same text.",
  ["inputs"], "All data values, nested arbitrarily, with strings and buffers holding arbitrary bytes.",
  "The printer tests compare a few dozen fixed values with fixed texts; escapes, nesting and numeric extremes are never swept.",
  ["stdlib/string/printer.nuj", "lib/reader.c", "lib/core-operators.c"],
  [("printer methods per type", "stdlib/string/printer.nuj"), ("recursive descent reader", "lib/reader.c")],
  "property-based round-trip over generated values", "Floats are limited to what six printed decimals can represent.")

P("P02", "Reading any bytes ends in a value or a catchable read error",
  "For every sequence of input bytes, of any length, reading it terminates and yields either the list of values in it or a catchable "
  "exception. It never crashes, hangs, or touches memory outside the input, however deeply the text nests.",
  ["inputs"], "All byte strings, including truncated, mutated and nested source text.",
  "The reader tests feed some forty well-formed and malformed texts; the space of malformed inputs is open ended and memory errors are invisible "
  "without instrumentation.",
  ["lib/reader.c", "lib/symbol.c", "lib/string.c"],
  [("bounds checks on the read context", "lib/reader.c"), ("reader exceptions", "lib/reader.c")],
  "grammar- and mutation-based fuzzing under AddressSanitizer")

P("P03", "Source text reads as the documented grammar says",
  "Integers in decimal, hexadecimal, octal and binary, floats, strings with escapes, character literals, keywords, symbols, lists, dotted pairs, "
  "arrays, trees, buffers, quote forms and all comment styles read as the value the notation denotes, whatever whitespace or comments "
  "separate the tokens and however forms nest. Literals that do not fit, and malformed ones, are refused with a read error instead of being altered.",
  ["inputs"], "All texts generated from the documented grammar, in every layout.",
  "The tests pin single tokens; combinations of notations, separators and comments are not covered.",
  ["lib/reader.c", "docs/stable/1.3-numbers.md", "docs/stable/1.2-comments.md"],
  [("token dispatch", "lib/reader.c"), ("number parsing", "lib/reader.c")],
  "grammar-based generation with a reference denotation, compared exactly")

P("P04", "Integer arithmetic is exact modulo 2^64 in every calling form",
  "Addition, subtraction, multiplication, integer division, remainder, power, negation, increment and absolute value of integers give the exact "
  "mathematical result reduced to 64-bit two's complement, with division truncating toward zero. Dividing by zero raises a catchable "
  "exception, and literal operands, variables, parameters and apply to two arguments all agree.",
  ["inputs", "programs"], "All pairs (and longer chains) of 64-bit integers, for every operator and calling form.",
  "The arithmetic tests use small operands; overflow, the extreme values and the separate inline, folded and native implementations are not swept.",
  ["lib/arithmetic.c", "lib/vm.c", "stdlib/math/math.nuj", "stdlib/compiler/frontend/constant_folding.nuj"],
  [("inline arithmetic ops", "lib/vm.c"), ("native arithmetic functions", "lib/arithmetic.c")],
  "differential testing against an exact Python model", "Assumes the compiler wraps signed overflow as this toolchain does.")

P("P05", "Float and mixed arithmetic is IEEE double, and never yields NaN or infinity",
  "Arithmetic involving a float gives the correctly converted IEEE double result bit for bit; a result that would be NaN or infinite raises the "
  "corresponding catchable exception instead of producing a value. A non-numeric operand always raises a type error.",
  ["inputs", "programs"], "All finite doubles and 64-bit integers, for every operator and calling form.",
  "Tests round results to a decimal or two and use benign operands.",
  ["lib/arithmetic.c", "lib/vm.c", "lib/nujel.h"],
  [("float results are screened for NaN/Inf", "lib/nujel.h"), ("numeric tower conversion", "lib/vm.c")],
  "differential testing against the platform's libm and Python floats")

P("P06", "Compile-time folding never changes what an expression evaluates to",
  "An expression over constants gives the same value or the same exception whether the compiler sees literal operands it may fold, the same values "
  "through variables, or the operators called indirectly.",
  ["programs"], "All nested expressions over the foldable operators with arbitrary constant operands.",
  "A handful of compiler tests check that folding happens, none compares folded with unfolded results over the operator space.",
  ["stdlib/compiler/frontend/constant_folding.nuj", "lib/vm.c", "lib/arithmetic.c", "stdlib/compiler/backend_bytecode/assembler.nuj"],
  [("constant folding pass", "stdlib/compiler/frontend/constant_folding.nuj"), ("literal table", "stdlib/compiler/backend_bytecode/assembler.nuj")],
  "metamorphic testing: folded, unfolded and applied forms of generated expressions")

P("P07", "Comparisons are the mathematical order, for numbers of either kind and strings",
  "Comparing two numbers, integer or float in any mix, answers as their exact mathematical values do; strings, symbols and keywords compare "
  "bytewise lexicographically. All six comparison operators are consistent with one another and chained comparisons hold exactly when every "
  "neighbouring pair does.",
  ["inputs"], "All tuples of numbers, strings, symbols and keywords, biased to near-equal values.",
  "Tests compare small integers; precision loss between 64-bit integers and doubles and prefix strings are not covered.",
  ["lib/val.c", "lib/generic.c", "lib/vm.c"],
  [("three-way comparison", "lib/val.c"), ("inline comparison ops", "lib/vm.c")],
  "differential testing against exact rationals")

P("P08", "Bit operations act on 64-bit two's complement words",
  "And, or, exclusive or, not, shifts by 0 to 63, population count and single-bit test, set, flip and clear give the result defined on 64-bit two's "
  "complement words, with right shift preserving the sign, in every calling form.",
  ["inputs"], "All 64-bit operands and all shift amounts and bit positions.",
  "A few shifts of small positive numbers are tested.",
  ["lib/arithmetic.c", "lib/vm.c", "stdlib/bitmanip.nuj"],
  [("inline bit ops", "lib/vm.c"), ("native bit functions", "lib/arithmetic.c")],
  "differential testing against Python integers")

P("P09", "List functions compute what their descriptions say for every list",
  "Building, accessing, mapping, filtering, reducing, reversing, appending, taking, dropping, deleting and splitting proper lists gives the same "
  "result as the corresponding operation on a mathematical sequence, for empty, long and nested lists alike. Functions described as "
  "non-destructive leave their arguments unchanged.",
  ["inputs", "programs"], "All lists of data values, and compositions of list functions over them.",
  "Each function has one or two example tests, mostly on three element lists.",
  ["stdlib/collections/lists.nuj", "stdlib/collections/collection.nuj", "stdlib/collections/collection_primitives.nuj"],
  [("list library", "stdlib/collections/lists.nuj"), ("generic dispatch", "stdlib/collections/collection.nuj")],
  "model-based testing of function pipelines against Python lists")

P("P10", "Arrays behave as mutable fixed-index sequences over any history",
  "After any sequence of allocations, stores, resizes, copies, pushes, swaps, fills, cuts, maps, filters and reductions, every array holds exactly the "
  "elements a reference sequence would; out of range indices raise a catchable exception and change nothing, and aliases see "
  "each other's writes while copies do not.",
  ["histories"], "All operation sequences over several aliased arrays.",
  "Tests perform single operations on fresh arrays.",
  ["lib/array.c", "stdlib/collections/array.nuj", "lib/generic.c"],
  [("bounds checks", "lib/array.c"), ("resizing", "lib/array.c")],
  "stateful model-based testing")

P("P11", "Trees are finite maps from keys to values over any history",
  "After any sequence of insertions, overwrites, clones, merges, lookups and filters, a tree holds exactly the associations of a reference dictionary: "
  "every key once, with the last value stored, clones are independent of their originals, and the depth stays logarithmic in the size.",
  ["histories"], "All operation sequences over several trees with arbitrary key sets.",
  "Tests use two or three keys, too few to exercise rebalancing.",
  ["lib/tree.c", "stdlib/collections/tree.nuj"],
  [("AVL insertion", "lib/tree.c"), ("copy on clone", "lib/tree.c")],
  "stateful model-based testing")

P("P12", "Sorting returns the ordered permutation of its input",
  "Sorting a list or array returns its elements in ascending order with every element kept exactly as often as it occurred, for any length, any "
  "duplicates and any initial order.",
  ["inputs"], "All lists and arrays of numbers and of strings.",
  "Two short fixed lists are tested.",
  ["stdlib/collections/lists.nuj", "stdlib/collections/array.nuj"],
  [("merge sort", "stdlib/collections/lists.nuj"), ("heap sort", "stdlib/collections/array.nuj")],
  "property-based testing against a reference sort")

P("P13", "Structural equality is exactly sameness of contents",
  "Two data values are structurally equal exactly when they have the same type and recursively the same contents, independent of how, in which order or "
  "in which sharing they were built; the relation is reflexive, symmetric and transitive and agrees with its negation.",
  ["inputs"], "All pairs of data values, biased to pairs differing in one deep place or only in construction history.",
  "A dozen shallow pairs are tested.",
  ["stdlib/core/predicates.nuj", "stdlib/collections/tree.nuj", "stdlib/collections/array.nuj", "stdlib/collections/lists.nuj"],
  [("recursive comparison", "stdlib/core/predicates.nuj")],
  "property-based testing against a reference equality")

P("P14", "Buffers and their typed views behave as one shared byte array",
  "After any sequence of byte stores, typed stores through signed, unsigned and floating views of every width, copies, cuts, resizes and conversions, "
  "every byte and every typed element reads as in a reference byte array, with values truncated to the element width. Out of range "
  "accesses raise a catchable exception and change nothing.",
  ["histories"], "All operation sequences over several buffers and views on them.",
  "Tests store a few values into fresh buffers.",
  ["lib/buffer.c", "lib/generic.c"],
  [("bounds checked element access", "lib/buffer.c"), ("view creation", "lib/buffer.c")],
  "stateful model-based testing against a bytearray and struct")

P("P15", "What is immutable cannot be changed by any operation",
  "Strings, and buffers, views and trees marked immutable, keep their contents under every operation the language offers: an attempt to modify them raises a catchable "
  "exception or works on a copy, and the original compares unchanged afterwards.",
  ["inputs", "histories"], "All immutable values and all mutating operations, alone and in sequence.",
  "Few of the mutators are tested against immutable targets.",
  ["lib/buffer.c", "lib/generic.c", "lib/tree.c", "bin/io.c"],
  [("immutability flags", "lib/buffer.c")],
  "model-based testing of mutators on immutable values")

P("P16", "String functions compute what their descriptions say for every byte string",
  "Concatenation, cutting, searching in both directions, splitting, joining, trimming, padding, case mapping, replacement, prefix and suffix tests, "
  "conversions and length give the result defined on byte strings, for empty, long and arbitrary contents, and never alter their operands.",
  ["inputs"], "All byte strings without and with NUL, all indices including negative and out of range ones.",
  "Examples with short ASCII words only.",
  ["lib/string.c", "stdlib/string/string.nuj"],
  [("native string functions", "lib/string.c"), ("string library", "stdlib/string/string.nuj")],
  "model-based testing against Python bytes")

P("P17", "Formatting expands every directive as documented",
  "A format string with positional, numbered and named arguments, width, zero-fill, alignment, precision and base specifiers expands to exactly "
  "the text the specifiers denote for every argument value, and literal text is copied unchanged. Malformed format strings raise an "
  "exception at compile time rather than producing wrong text.",
  ["inputs", "programs"], "All format strings over the documented specifiers and all argument values.",
  "Some forty fixed combinations are tested.",
  ["stdlib/string/fmt.nuj"],
  [("format macro", "stdlib/string/fmt.nuj")],
  "generation of format strings with a reference formatter")

P("P18", "Path and character helpers agree with their definitions",
  "Splitting paths into directory, base name and extension and joining them again loses nothing, and the extension (the text after the last period) and upper/lower-case and character class "
  "helpers agree with the ASCII definitions for every byte.",
  ["inputs"], "All path strings and all byte values.",
  "A few example paths.",
  ["stdlib/string/path.nuj", "stdlib/string/char.nuj"],
  [("path functions", "stdlib/string/path.nuj"), ("character functions", "stdlib/string/char.nuj")],
  "property-based testing against a reference")

P("P19", "Programs evaluate as the language's semantics define",
  "Every program over definitions, assignments, lexical closures, conditionals, loops, let, recursion, rest parameters, short-circuit logic, list and arithmetic "
  "operations produces the result, the printed effects in order, or the exception that a direct interpretation of the source does.",
  ["programs"], "All terminating programs of the generated language subset.",
  "The language tests are a few hundred fixed snippets; interactions of scoping, mutation, control flow and code generation are not swept.",
  ["lib/vm.c", "lib/closure.c", "stdlib/compiler/compiler.nuj", "stdlib/compiler/backend_bytecode/compiler.nuj", "stdlib/core/flow.nuj"],
  [("bytecode compiler", "stdlib/compiler/backend_bytecode/compiler.nuj"), ("virtual machine", "lib/vm.c")],
  "differential testing of random programs against a reference interpreter")

P("P20", "Exceptions unwind to the nearest handler and leave the machine consistent",
  "A thrown value reaches exactly the innermost enclosing handler, once, with its type, description and value intact, whatever the nesting of calls, scopes, "
  "loops and partially evaluated arguments; evaluation then continues as if the protected expression had returned the handler's result. "
  "An early return leaves exactly the current function.",
  ["programs", "fault_sequences"], "All nestings of handlers, throws, early returns, calls and pending operands.",
  "Tests throw from the top of a single try.",
  ["lib/vm.c", "stdlib/core/flow.nuj", "lib/closure.c"],
  [("unwinding", "lib/vm.c"), ("try compilation", "stdlib/compiler/backend_bytecode/compiler.nuj")],
  "differential testing of random exception programs against a reference interpreter")

P("P21", "Macros and quasiquote build exactly the code their templates denote",
  "A quasiquoted template evaluates to the list its text denotes with each unquoted part replaced by its value and each spliced part by its elements; "
  "expanding a macro and evaluating the expansion by hand gives the same result as using the macro.",
  ["programs"], "All nested templates and macro definitions over them.",
  "A few templates are tested.",
  ["stdlib/core/quasiquote.nuj", "stdlib/compiler/frontend/macroexpander.nuj", "lib/reader.c"],
  [("quasiquote expansion", "stdlib/core/quasiquote.nuj"), ("macro expander", "stdlib/compiler/frontend/macroexpander.nuj")],
  "generation of templates with a reference expansion")

P("P22", "Modules export exactly what they declare, are loaded once and stay isolated",
  "Importing a module makes exactly the requested exports available under the requested names, evaluates each module's body once however often and "
  "from wherever it is imported, and never lets private definitions of one module leak into or overwrite another.",
  ["programs", "histories"], "All import graphs of generated modules on disk and all import forms.",
  "The module tests import two modules.",
  ["stdlib/core/module.nuj", "lib/closure.c"],
  [("module registry", "stdlib/core/module.nuj")],
  "model-based testing of generated module graphs")

P("P23", "Method dispatch finds the nearest definition; objects inherit by prototype",
  "Calling a keyword on a value selects the method stored in the object itself or its nearest prototype, then that of its type or the nearest parent type; defining or overriding "
  "one changes no unrelated type or object. Slots set on an object are seen by it and those that inherit from it, never by its ancestors; likewise the variables of environments and the metadata of functions.",
  ["programs", "histories"], "All prototype chains, method tables and call sequences.",
  "A few fixed classes are tested.",
  ["lib/type-system.c", "lib/closure.c", "stdlib/core/classes.nuj", "lib/vm.c"],
  [("method lookup", "lib/type-system.c"), ("class definitions", "stdlib/core/classes.nuj")],
  "stateful model-based testing")

P("P24", "Deep, wide and large programs run correctly or fail cleanly",
  "Programs with deeply nested calls, scopes, data and source text, with many arguments, locals, literals or branches either give the right result or stop with a catchable exception or a clean "
  "resource message; they never corrupt memory or give a wrong answer.",
  ["programs", "inputs"], "All sizes of call depth, nesting depth, argument count, literal count and body length within memory.",
  "Tests use small programs; stack growth and wide encodings of operands are hardly reached.",
  ["lib/vm.c", "lib/closure.c", "stdlib/compiler/backend_bytecode/assembler.nuj", "lib/allocator.c"],
  [("VM stack growth", "lib/vm.c"), ("wide literal encodings", "stdlib/compiler/backend_bytecode/assembler.nuj")],
  "size-directed generation under AddressSanitizer with closed-form results")

P("P25", "No call of any function with any arguments corrupts or crashes the interpreter",
  "Calling any function or method the language offers with any number and kind of arguments ends in a value or a catchable exception. It never crashes, "
  "hangs or touches memory it does not own, and the interpreter works as before afterwards.",
  ["inputs", "histories"], "All builtin functions and methods with arbitrary argument tuples, in sequence.",
  "Type-error tests cover some functions with one wrong argument each, and memory errors do not show without instrumentation.",
  ["lib/generic.c", "lib/core-operators.c", "lib/buffer.c", "lib/array.c", "lib/string.c", "lib/tree.c", "bin/io.c", "bin/port.c"],
  [("argument checks", "lib/type-system.c"), ("native call convention", "lib/vm.c")],
  "API fuzzing with generated argument tuples under AddressSanitizer",
  "Functions whose purpose is to stop the process, to read external devices or to execute raw bytecode are excluded; see DESIGN.md.")

P("P26", "Garbage collection is invisible to programs",
  "Whenever and however often a collection happens, a program computes the same results as when none happens: no reachable value is freed, moved, changed "
  "or duplicated.",
  ["schedules", "programs"], "All programs and all placements of collections at the interpreter's safe points.",
  "Tests rarely allocate enough for a single collection, and never at a chosen point.",
  ["lib/garbage-collection.c", "lib/allocator.c", "lib/vm.c", "lib/symbol.c"],
  [("root marking", "lib/garbage-collection.c"), ("free lists", "lib/allocator.c")],
  "differential testing of generated programs across forced collection schedules, under AddressSanitizer",
  "Uses the NUJEL_VERIFY_GC hook to collect at every Nth safe point.", hook="NUJEL_VERIFY_GC: collect at every Nth safe point")

P("P27", "Unreachable values are reclaimed, so bounded live data runs forever",
  "A program whose reachable data stays bounded can allocate without limit, for every kind of value: memory of unreachable values is reused and the "
  "interpreter neither runs out of heap nor grows without bound.",
  ["programs", "histories"], "All allocation histories with bounded live data, for every kind of value.",
  "No test allocates more than a fraction of a heap.",
  ["lib/garbage-collection.c", "lib/allocator.c"],
  [("sweeping", "lib/garbage-collection.c"), ("collection trigger", "lib/allocator.c")],
  "generation of allocation histories that exceed each heap many times, with a checksum oracle")

P("P28", "Serialising a value to an image and loading it back gives an equal value",
  "For every value made of data, code and shared or nested structure, storing it in an image and loading the image yields a value with the same "
  "contents, types and behaviour, in the same or another process, and serialising leaves the original unchanged.",
  ["inputs", "programs"], "All data values and functions of the generated language.",
  "The image tests round-trip a dozen small values.",
  ["lib/imageWriter.c", "lib/imageReader.c"],
  [("image writer", "lib/imageWriter.c"), ("image reader", "lib/imageReader.c")],
  "property-based round-trip, in process and across processes")

P("P29", "Assembled and disassembled code denotes the same operations",
  "Disassembling a compiled function lists exactly the operations, operands and jump targets its bytes encode, and assembling a list of operations yields a function that "
  "performs them, with every jump landing on its label.",
  ["programs"], "All generated functions and operation lists.",
  "Fixed byte sequences are compared.",
  ["stdlib/compiler/backend_bytecode/assembler.nuj", "stdlib/compiler/backend_bytecode/disassembler.nuj", "stdlib/core/opcodes.nuj"],
  [("relocation", "stdlib/compiler/backend_bytecode/assembler.nuj")],
  "generation of operation lists against a reference stack machine")

P("P30", "File operations act on files as their descriptions say",
  "Writing, appending, reading whole or in parts, seeking, sizing, creating, listing and removing files leaves and reports exactly the bytes and names a model of the file system predicts, "
  "for contents with any bytes and any length. What fails, be it a missing or unsuitable target, a full disk, too many open files or a closed handle, is reported as #nil, #f or an exception, "
  "never as success, leaves other files alone and keeps no file open.",
  ["histories", "fault_sequences"], "All operation sequences over files in a scratch directory, including missing and directory targets, size limits and a limited number of open files.",
  "One or two files are written and read back.",
  ["bin/io.c", "bin/port.c", "binlib/io.nuj", "bin/misc.c"],
  [("file primitives", "bin/io.c"), ("port primitives", "bin/port.c")],
  "stateful model-based testing in a scratch directory")

P("P31", "Input ports deliver exactly the bytes of their source, however they are read",
  "Reading a source by characters, lines, blocks, whole or in any mixture delivers its bytes in order, each exactly once, with line ends as documented, until end of input, which is reported as such every time.",
  ["inputs", "histories"], "All contents and all mixtures of read operations, from files and standard input, several ports at once.",
  "Short single-line contents are tested.",
  ["stdlib/string/portng.nuj", "bin/port.c", "binlib/io.nuj"],
  [("port objects", "stdlib/string/portng.nuj"), ("buffered file ports", "bin/port.c")],
  "stateful model-based testing")

P("P32", "Output ports deliver exactly what is written, in order",
  "Whatever mixture of characters, strings, blocks, lines and printed values is written to a file, string or standard output port, its contents are the concatenation of the "
  "texts written, in order, with nothing lost, duplicated or altered.",
  ["histories"], "All sequences of write operations with any contents and lengths.",
  "Short ASCII texts are tested.",
  ["stdlib/string/portng.nuj", "bin/port.c", "binlib/io.nuj"],
  [("port objects", "stdlib/string/portng.nuj")],
  "stateful model-based testing")

P("P33", "Serialised JSON is valid and denotes the serialised value",
  "For every value that JSON can represent, the serialised text is valid JSON that an independent parser reads as the same value (floating point numbers to six decimals), "
  "and serialising leaves the value as it was. Strings are taken to be UTF-8, lists to be proper.",
  ["inputs"], "All nested data of numbers, strings, booleans, nil, symbols, lists, arrays and trees.",
  "Not tested at all beyond a fixed example.",
  ["stdlib_modules/serialization/json.nuj"],
  [("serialiser methods", "stdlib_modules/serialization/json.nuj")],
  "differential testing against Python's json parser")

P("P34", "Checksums and digests agree with their standards for every input",
  "MD5, CRC-32, CRC-32C and Adler-32 of every byte string equal the values the standards define.",
  ["inputs"], "All byte strings of all lengths, biased to block boundaries.",
  "A few standard vectors are tested.",
  ["stdlib_modules/crypto/md5.nuj", "stdlib_modules/crypto/crc32.nuj", "stdlib_modules/crypto/crc32c.nuj", "stdlib_modules/crypto/adler32.nuj"],
  [("digest implementations", "stdlib_modules/crypto/md5.nuj")],
  "differential testing against zlib and hashlib")

P("P35", "Random numbers are reproducible from their seed and within range",
  "Setting the same seed gives the same sequence of numbers, drawing below a bound always gives a value in that range, and the sequence equals that "
  "of the linear congruential generator it implements for every seed.",
  ["inputs", "histories"], "All seeds and all sequences of draws.",
  "Not tested: the results of the generator are never compared.",
  ["stdlib_modules/random.nuj"],
  [("generator", "stdlib_modules/random.nuj")],
  "model-based testing against a reference generator")

P("P36", "Equal names are one symbol, generated names are fresh",
  "Two symbols or keywords with the same name are identical however and whenever they were made, conversion between names, strings, symbols and keywords loses "
  "nothing, and a generated symbol differs from every other symbol, also after collections and after the symbol table has been churned. "
  "Names have at most 93 bytes, none of them zero, and do not imitate the generator's.",
  ["histories", "inputs"], "All names and all histories of interning, generating and dropping symbols.",
  "A few names are tested.",
  ["lib/symbol.c", "lib/string.c"],
  [("symbol table", "lib/symbol.c")],
  "stateful model-based testing with forced collections", hook="NUJEL_VERIFY_GC: collect at every Nth safe point")

P("P37", "Two-dimensional arrays address each cell independently",
  "After any sequence of stores and fills, each cell of a two-dimensional array holds the last value stored at its coordinates, out of range coordinates are "
  "rejected, and stores affect no other cell.",
  ["histories"], "All dimensions and store sequences.",
  "One small example.",
  ["stdlib_modules/array/2d.nuj"],
  [("index computation", "stdlib_modules/array/2d.nuj")],
  "stateful model-based testing")

P("P38", "The command line hands over arguments, environment, directory and exit status",
  "A script named by a relative or absolute path, with or without its extension, is run in the current directory; its main function receives exactly the arguments that follow, "
  "System/Environment holds the environment's values byte by byte, and the process exits with the status the script asked for, 0 when it ends and 1 when it throws or does not exist. "
  "Expressions given with -x are evaluated in order in one scope; an error in one does not affect the others.",
  ["inputs"], "All argument lists, environments, script locations and exit statuses.",
  "The tests run within one process and never look at it from outside.",
  ["bin/main.c", "bin/environment.c", "bin/io.c", "binlib/init.nuj", "binlib/io.nuj"],
  [("argument parsing", "binlib/init.nuj"), ("environment", "bin/environment.c")],
  "generated invocations against a model, observed from outside the process")

P("P39", "The text editor's buffer is a faithful sequence of lines",
  "After any sequence of insertions, deletions, line breaks, joins, region commands and cursor movements the editor buffer's text equals that of a reference editor, "
  "and the cursor always stays within the text.",
  ["histories"], "All edit sequences over arbitrary initial texts.",
  "Not tested.",
  ["stdlib_modules/app/termed/buffer.nuj"],
  [("buffer methods", "stdlib_modules/app/termed/buffer.nuj")],
  "stateful model-based testing")

P("P40", "The REPL evaluates every input once and survives every error",
  "The REPL prints the value of each expression entered, in order, keeps definitions between inputs, reads on while an expression is incomplete, reports errors and goes on, "
  "and ends with its input.",
  ["histories"], "All sequences of inputs, valid or not, on one or several lines, in both REPLs.",
  "No test runs a REPL.",
  ["stdlib_modules/repl.nuj", "binlib/tiny-repl.nuj", "binlib/init.nuj"],
  [("read loop", "stdlib_modules/repl.nuj")],
  "generated dialogues against a model, observed from outside the process")

P("P41", "Highlighting and colouring text changes no visible character",
  "Whatever text is highlighted as source code, removing the colour codes (or the HTML tags) from the result gives the text back byte by byte. "
  "The colouring functions of the ansi module add only colour codes, and none once colours are disabled.",
  ["inputs"], "All texts, balanced or not, in both output formats, and all arguments of the colouring functions.",
  "The highlighter is not tested; colours are tested on one string each.",
  ["stdlib_modules/pretty/nujel.nuj", "stdlib_modules/ansi.nuj"],
  [("highlighter", "stdlib_modules/pretty/nujel.nuj"), ("colouring", "stdlib_modules/ansi.nuj")],
  "property-based round-trip")

P("P42", "Network connections carry exactly the bytes both sides send",
  "What is written to a connection arrives at the other side byte by byte and in order, what the other side sends is read byte by byte and in order however it is portioned, "
  "reading and writing may alternate, and the end is reported exactly when the other side is done; a refused connection gives nil, unsuitable arguments and closed handles raise. "
  "The HTTP client sends a well-formed request for the path of the URL and returns status, headers and exactly the body's bytes, nil for anything that is no HTTP response; "
  "the Gopher client sends the selector and returns exactly the text or the menu's entries.",
  ["histories", "inputs", "schedules"], "All histories of reads and writes over several connections, all ways the other side portions what it sends, all well-formed and damaged responses.",
  "The tests open no connection.",
  ["bin/net.c", "bin/port.c", "stdlib_modules/net.nuj", "stdlib_modules/net/http.nuj", "stdlib_modules/net/gopher.nuj"],
  [("connecting", "bin/net.c"), ("reading and writing", "bin/port.c"), ("HTTP", "stdlib_modules/net/http.nuj"), ("Gopher", "stdlib_modules/net/gopher.nuj")],
  "model-based testing against generated loopback servers")

P("P43", "Terminal programs show what they drew and understand every key",
  "After every flip the terminal shows, in every cell with coordinates from 1 to below the screen's width and height, the character and colours drawn there last (a blank for control characters), "
  "and the cursor is where it was put, or hidden when that is off the screen. A terminal's output commands have exactly the effect they are named for. "
  "Every key of the supported repertoire that is pressed gives exactly its event, after whatever unknown input before it. "
  "The editor's screen always shows the text, line numbers, selection, mode line and cursor that the keys typed so far call for, the cursor's line is always visible, and leaving it restores the terminal. "
  "The gopher browser always shows the page the keys typed so far lead to, whatever its servers answer.",
  ["histories", "inputs"], "All drawing histories and screen sizes, all sequences of keys and junk, all editing and browsing sessions.",
  "No test runs a terminal program.",
  ["stdlib_modules/term/TermApp.nuj", "stdlib_modules/term/VT100.nuj", "stdlib_modules/app/termed.nuj", "stdlib_modules/app/termed/buffer.nuj", "stdlib_modules/app/gopher.nuj", "bin/port.c"],
  [("screen buffers and input parser", "stdlib_modules/term/TermApp.nuj"), ("output commands", "stdlib_modules/term/VT100.nuj"), ("editor", "stdlib_modules/app/termed.nuj"), ("gopher browser", "stdlib_modules/app/gopher.nuj"), ("raw mode", "bin/port.c")],
  "stateful model-based testing against a terminal emulator")
