T_HIST = "TLA+ model of the abstract data type; histories of calls executed by the real library (exhaustive short ones and random long ones), every recorded answer validated by TLC as a step of the model"
T_SCHED = "TLA+ specification of the objects of std::thread as atomic objects (C3Threads); all schedules of small scenarios within a preemption bound, and random ones, are executed by the real library on a deterministic scheduler, and TLC decides for every recorded history of calls and returns whether the specification explains it and may end where it ended"
T_NUM = "TLA+ specification of integer arithmetic on digits and a register machine over it (C3Num, C3Int); the values printed by compiled programs, with every operand arrangement of constants and variables, and by folded constants, are validated by TLC as behaviours of the machine"
T_CONV = "TLA+ specification of the conversion rules as a machine over statements and over pairs of types (C3Conv, C3Types); the verdicts of the compiler and the values of the compiled programs are validated by TLC against it"
T_REACH = "TLA+ specification of the acceptance rules (reachability, unwrapping, jump targets) together with a machine that runs the functions (C3Reach): TLC checks that the rules are sound for the machine and compares the compiler's verdict on each function with the rules'"
T_AGG = "TLA+ semantics of aggregate values (C3Agg: initializer evaluation with designators, zero fill, ranges, unions; slice aliasing; lane operators) evaluated by TLC on generated histories; the compiled program's printed values after every step are validated against it"
T_BITS = "TLA+ specification of bitstruct reads, writes and whole-value operations on a storage of bits (C3Bits); every value read and the bytes after every operation, printed by the compiled program, are validated by TLC as a behaviour of the specification"
T_SAFE = "TLA+ specification of checked operations on arrays and views of them (C3Safe); the log of each compiled program, including where and why it panicked, is validated by TLC as a behaviour of the specification"
T_FLOW = "TLA+ abstract machine of C3 control flow (C3Flow); logs of compiled programs validated by TLC as behaviours of the machine"

prop("C01", "Control flow and deferred statements",
     "A compiled program executes its if, loops (while, do-while, for, foreach, foreach_r), switch (values, ranges, strings, conditions, @jump), break, continue, nextcase (plain, labelled, to a value, to default), return, function, macro and function-pointer calls in the order the language defines, with the same visible events at every optimization level. On every way of leaving a scope (falling off the end, break, continue, nextcase, return, fault) exactly the deferred statements registered in the scopes being left run, once each, newest first; `defer try` only when no fault leaves the scope and `defer catch` only when one does, seeing that fault.",
     ["programs", "configurations"], "every program built from these statements, and each of -O0, -O1 and -O3",
     "The tests compare the IR of about a thousand fixed programs; combinations of exits, defers and nestings are unbounded and most are never compiled by any test.",
     [SC + "sema_stmts.c", SC + "llvm_codegen_stmt.c", SC + "copying.c", SC + "semantic_analyser.c"],
     [{"name": "defer chains per exit", "where": "context_get_defers, sema_inline_return_defers"}, {"name": "statement code generation", "where": "llvm_codegen_stmt.c"}],
     ["event log written by the compiled program"],
     T_FLOW, "Every compiled program's log is a behaviour of the machine (bounded: sampled from a systematic family of 32704 programs plus random programs); trusts the renderer vf/flow.py and the host assembler/linker.")

prop("C02", "Optional results: propagation, defaults and evaluation order",
     "Operands are evaluated left to right and the first operand that is a fault ends the evaluation of the enclosing expression with that fault; `!` leaves the function with it after running its defers, `??` evaluates its right side exactly when the left is a fault, if-try and if-catch (also with several operands) take the branch and bind the value or fault accordingly, and optional variables keep the value or fault stored in them. The same holds at every optimization level, in functions, macros and defers.",
     ["programs", "configurations"], "every expression built from optional calls, constants faults, variables and operators, in every place an expression may stand; -O0, -O1, -O3",
     "The tests sample single uses; the order and the number of evaluations depend on how operators, faults and contexts are combined.",
     [SC + "sema_expr.c", SC + "llvm_codegen_expr.c", SC + "llvm_codegen_stmt.c", SC + "sema_stmts.c"],
     [{"name": "optional propagation", "where": "llvm_codegen_expr.c (catch block and fault slots)"}, {"name": "unwrapping", "where": "sema_stmts.c"}],
     ["event log written by the compiled program"],
     T_FLOW, "All expression shapes with one operator in 13 places and a sample of the shapes with two, plus random programs; each log is validated against the machine by TLC.")

prop("C03", "Integer arithmetic is the same at compile time and at run time",
     "For every integer type from 8 to 128 bits, signed and unsigned, arithmetic (+ - * / % unary minus), bit operations, shifts, comparisons (also between signed and unsigned), and casts between integer types give the two's complement result of the language, whether the operands are constants folded by the compiler, variables at -O0, or variables at -O1 and above.",
     ["inputs", "programs", "configurations"], "every operator, every pair of integer types it accepts and all operand values",
     "Tests use a few operand values for a few types; the folding code (128-bit software arithmetic) and the code generator implement the same operators separately.",
     ["src/utils/whereami.c", SC + "bigint.c", SC + "sema_expr.c", SC + "llvm_codegen_expr.c", "lib/std/math/runtime/i128.c3"],
     [{"name": "constant folding", "where": "bigint.c"}, {"name": "code generation", "where": "llvm_codegen_expr.c"}], ["results printed by the compiled program, constants written into it"],
     T_NUM, "Random register programs over all integer types with operands near every type boundary, each executed folded, mixed and at run time at several optimization levels; trusts the renderer vf/ints.py.")

prop("C04", "Implicit conversions are accepted exactly by the rules and keep the value",
     "Where a value of one type is given for another without a cast (initialization, assignment, argument, return, struct and array element, operands, op-assignment), the compiler accepts it exactly when the rules of the language allow it, and rejects it with an error otherwise. Between numbers: to a larger integer or float when there is no arithmetic inside that could have been done in the larger type instead; between signed and unsigned of the same size; to a smaller type only when every operand that decides the value already fits; a constant only when its value fits a type of the same or a smaller size; never from float to integer or from or to bool. Between other types (pointers, slices, arrays, vectors, distinct types, structs with inline members, enums, any, interfaces, function pointers, typeid, fault) exactly the pairs of the conversion rules, so a pointer becomes an interface only when its type implements it. Accepted conversions keep the value.",
     ["programs", "inputs"], "every statement over expression trees of numeric types, and every ordered pair of the builtin and user-defined kinds of types",
     "The tests contain selected pairs; the rules are a table over type kinds with many entries, and recursive predicates over expressions.",
     [SC + "sema_casts.c", SC + "types.c", SC + "sema_expr.c", SC + "expr.c"], [{"name": "cast rules", "where": "sema_casts.c cast_rules"}], ["accepted or rejected by the compiler; values printed"],
     T_CONV, "All ordered pairs of 75 types in two contexts; thousands of random statements with expression trees per run; trusts the renderer vf/conv.py.")

prop("C05", "Safe mode stops every checked violation and nothing else",
     "In safe mode a program panics at the first index or range (from the start, from the end, by length) outside its array, slice or vector, dereference of a null pointer with *, division or remainder by zero, shift by the width or more, slice copy between different lengths, forced unwrap of a fault, failed assert, @require or @ensure, unreachable(), call of a null function pointer or of a missing interface method, null argument for a [&in] parameter, number without enum value in from_ordinal, and, with trap-on-wrap, integer result that does not fit: with the matching reason, with everything before it done and nothing after it; and it never panics when the operation is valid. The same at every optimization level.",
     ["programs", "inputs", "configurations"], "every checked operation, every integer type of an operand and every operand value around its limits, in every sequence",
     "Tests check that the check is emitted in some IR; not that the condition is right at every boundary of every operand type.",
     [SC + "llvm_codegen_expr.c", SC + "llvm_codegen_stmt.c", SC + "llvm_codegen_builtins.c", SC + "sema_expr.c"], [{"name": "safety checks", "where": "llvm_emit_panic_if_true, llvm_emit_panic_on_true"}], ["panic or output of the compiled program"],
     T_SAFE, "Random sequences of checked operations whose operands are parameters around every limit, each program in a process of its own; its log up to the panic is validated by TLC; implicit dereference through members and elements (left to signals) and INT_MIN / -1 are outside.")

prop("C06", "Structs and unions have the C layout and cross the C ABI unchanged",
     "Sizes, alignments and member offsets of structs and unions (nested, arrays, packed, explicit alignment) are those of the C ABI, and values passed or returned by value between C3 and C in either direction arrive unchanged, whatever their members and the other parameters.",
     ["programs", "inputs"], "every struct and union of builtin members and every signature using them",
     "Tests compare the IR of some signatures; the classification depends on the whole member list and on the registers left by other parameters.",
     [SC + "sema_decls.c", SC + "abi", SC + "llvm_codegen_function.c", SC + "types.c"], [{"name": "ABI lowering", "where": "src/compiler/abi/c_abi_x64.c"}], ["bytes seen on both sides"])

prop("C07", "Bitstruct members occupy exactly their bit ranges",
     "Reading a bitstruct member yields the last value written to it (truncated to its width, sign extended when signed), writing one never changes any other non-overlapping member, and the bits lie in the backing storage where the declaration puts them, for every backing type and byte order, for variables and for constants.",
     ["programs", "inputs"], "every bitstruct declaration and every sequence of member reads, writes and whole-value operations",
     "Tests cover selected layouts.",
     [SC + "llvm_codegen_expr.c", SC + "llvm_codegen_storeload.c", SC + "sema_decls.c", SC + "sema_initializers.c"], [{"name": "bit extraction and insertion", "where": "llvm_emit_bitassign_array, llvm_extract_bitvalue"}], ["bytes and values printed by the compiled program"],
     T_BITS, "Random bitstruct declarations (integer and array storage, both endians, overlaps, enum, bool and signed members, members of structs) with random operations, at several optimization levels; value of an assignment expression, bits of no member after ~, and literals setting overlapping members twice are outside.")

prop("C08", "Aggregate initializers, assignments, slices and vector operations",
     "An aggregate initializer (positional, designated, nested, ranges, splat, inferred sizes) gives every element its stated value and zero elsewhere, the same as constant, static, local and argument; slices alias exactly the elements of their range in every range notation, comparison is element-wise, and vector operators work lane by lane.",
     ["programs", "inputs"], "every initializer of every aggregate shape; every slice range; every lane operator",
     "Tests cover selected shapes.",
     [SC + "sema_initializers.c", SC + "llvm_codegen_expr.c", SC + "expr.c"], [{"name": "initializers", "where": "sema_initializers.c, llvm_emit_initialize_*"}], ["values printed by the compiled program"],
     T_AGG, "Random types (structs, unions, anonymous members, packed, bitstructs, arrays, vectors, enums, distinct types, pointers, strings) with random initializers in every declaration form, assignments, slices, comparisons and lane operations, at several optimization levels. Outside: splats and vectors of run-time parts inside constants, designators into a union that another designator of the same literal already set, ! of NaN lanes, and ranges of whole constant arrays (known finding).")

prop("C09", "Names resolve by module, import and visibility rules only",
     "A name in a program refers to exactly the declaration that the rules on module paths, imports, @private/@local visibility, recursive imports and shadowing select; a use that is ambiguous, not imported or not visible is rejected; the outcome does not depend on the order of files or declarations.",
     ["programs", "configurations"], "every arrangement of modules, imports, visibilities and declarations, and every file order",
     "Tests cover a few arrangements with the files in one order.",
     [SC + "sema_name_resolution.c", SC + "symtab.c", SC + "parse_global.c"], [{"name": "lookup", "where": "sema_name_resolution.c"}], ["which declaration's value the compiled program prints, or the rejection"])

prop("C10", "Macros, generics and compile-time code mean the same as their expansion",
     "Compile-time $if, $switch, $for, $foreach, arithmetic and string operations, macro arguments (by value evaluated once, by expression at each use), varargs and generic modules instantiated with the same arguments behave as the expansion written by hand; two instantiations with equal arguments are the same entity and with different arguments different.",
     ["programs"], "every program built from these constructs",
     "Tests cover selected uses.",
     [SC + "sema_expr.c", SC + "sema_stmts.c", SC + "sema_decls.c", SC + "copying.c"], [{"name": "macro expansion", "where": "sema_expr_analyse_macro_call"}], ["event log written by the compiled program"])

prop("C11", "Dynamic calls, any and typeids identify the run-time type",
     "A call through an interface or any value runs the method of the run-time type it was created from (inherited through inline bases; default or missing methods reported absent), an any converts back exactly to its own type, and typeid properties (kind, size, parent, inner, len, names, values) describe that type.",
     ["programs"], "every set of types, interfaces, implementations and inline bases",
     "Tests cover selected hierarchies.",
     [SC + "llvm_codegen_dynamic.c", SC + "sema_expr.c", SC + "llvm_codegen_type.c"], [{"name": "dynamic dispatch", "where": "llvm_emit_dynamic_method_addr"}], ["events of the compiled program"])

prop("C12", "The output of a build does not depend on threads or file order",
     "Compiling the same files yields the same module objects and the same program behaviour for every number of threads, every schedule of the compile tasks and on every repetition; every queued task is run exactly once and the build ends only when all have finished.",
     ["schedules", "configurations"], "every thread count and schedule, every order of the files",
     "Tests run each compilation once with one configuration.",
     ["src/utils/taskqueue.c", SC + "compiler.c", SC + "llvm_codegen.c"], [{"name": "task queue", "where": "src/utils/taskqueue.c"}], ["bytes of emitted objects and IR; task trace"])

prop("C13", "Flow analysis accepts exactly the programs that always return and unwrap",
     "A function that can reach its end without returning a value is rejected and one that cannot is accepted (a loop counts as left unless its condition is constantly true and no break leaves it); an optional variable counts as unwrapped only where its fault was excluded on every path (after a catch that always jumps away, inside of try), so an accepted use never meets a fault; jumps without a target, out of a defer or to a label that is not in scope are rejected; code reported dead never runs; and what is accepted compiles.",
     ["programs"], "every combination of nested control flow with jumps and constant conditions",
     "Tests cover selected functions; the analysis is compositional over all nestings.",
     [SC + "sema_stmts.c", SC + "semantic_analyser.c"], [{"name": "jump_end analysis", "where": "sema_stmts.c"}], ["accepted or rejected by the compiler"],
     T_REACH, "Random functions with nested control flow, two optional variables, labels, defers and compile-time conditionals; the first error and the lines of dead code are compared. Optional globals and macros with trailing bodies are outside.")

prop("C14", "Sequence containers behave as sequences",
     "List, LinkedList, AnyList, ElasticArray and RingBuffer give, after any sequence of operations (push, pop, insert, remove, set, swap, reverse, removal by predicate, growth, wrap-around, copy between them), the contents, lengths, results and faults that the same operations on a mathematical sequence give.",
     ["histories", "inputs"], "every sequence of operations and every position",
     "Tests run a few fixed histories.",
     ["lib/std/collections/list.c3", "lib/std/collections/linkedlist.c3", "lib/std/collections/anylist.c3", "lib/std/collections/elastic_array.c3", "lib/std/collections/ringbuffer.c3", "lib/std/collections/list_common.c3"],
     [{"name": "containers", "where": "lib/std/collections"}], ["results and contents after every operation"],
     T_HIST, "spec/C3Seq.tla; List (three element types), ElasticArray, LinkedList, AnyList and four ring sizes under a guarding allocator that reports overruns, double frees and leaks.")

prop("C15", "Hash maps behave as finite maps",
     "After any sequence of set, get, remove, clear, copy, growth and iteration, a map (HashMap, EnumMap, map and array Objects) holds exactly the last value set for every key not removed since, each key is iterated once, and lengths and results agree with a mathematical map, for every distribution of hash values.",
     ["histories", "inputs"], "every sequence of operations, key set and hash distribution",
     "Tests run fixed histories with few collisions.",
     ["lib/std/collections/hashmap.c3", "lib/std/collections/enummap.c3", "lib/std/collections/object.c3"], [{"name": "chains and rehash", "where": "lib/std/collections/hashmap.c3"}], ["results and contents after every operation"],
     T_HIST, "spec/C3Map.tla; HashMap with five key types and hash functions (one constant, one of three values, copied string keys, uninitialised), EnumMap and Object trees, under a guarding allocator.")

prop("C16", "Priority queues, sorting and searching",
     "A priority queue pops its elements in order and as a multiset (min and max, also after removals by index), every sort returns the sorted permutation of its input (for every slice, comparator form and type), quickselect the k-th smallest element, counting sort is right for its key range, sorted-tests tell the truth and binary search returns a position at which the key is (if present) or could be inserted.",
     ["histories", "inputs"], "every input sequence and every history of queue operations",
     "Tests use a handful of arrays.",
     ["lib/std/collections/priorityqueue.c3", "lib/std/sort/quicksort.c3", "lib/std/sort/insertionsort.c3", "lib/std/sort/countingsort.c3", "lib/std/sort/binarysearch.c3", "lib/std/sort/sorted.c3"],
     [{"name": "heap order", "where": "priorityqueue.c3"}, {"name": "partitioning", "where": "quicksort.c3"}], ["results after every operation"],
     T_HIST, "spec/C3Order.tla; five queue types; 26 forms of sorting, selection, search and sorted tests over all inputs of up to 4 elements of a small range and larger random ones.")

prop("C17", "Bit sets and enum sets behave as sets",
     "BitSet, GrowableBitSet and EnumSet, for every size and element type, contain after any sequence of operations exactly the elements a mathematical set would, and their cardinality, set operations and comparisons agree with it.",
     ["histories", "inputs"], "every sequence of operations, size and element type",
     "Tests use small sets of one size.",
     ["lib/std/collections/bitset.c3", "lib/std/collections/enumset.c3"], [{"name": "word and bit index", "where": "bitset.c3"}], ["contents after every operation"],
     T_HIST, "spec/C3Set.tla; six BitSet sizes, five GrowableBitSet word types, ten enum sizes on both sides of every representation change.")

prop("C18", "Allocators hand out disjoint, aligned, preserved memory",
     "For every allocator and any sequence of acquire, resize, release, mark, reset and temp-pool scopes, a block is aligned as asked, does not overlap any live block, is zero when zeroing was asked, keeps its contents across other operations and up to the smaller size across a resize; memory released or reset can be used again and exhaustion is reported as a fault.",
     ["histories", "fault_sequences"], "every sequence of operations, sizes and alignments",
     "Tests allocate a few blocks in a fixed order.",
     ["lib/std/core/allocators", "lib/std/core/mem_allocator.c3", "lib/std/core/mem.c3"], [{"name": "allocators", "where": "lib/std/core/allocators"}], ["addresses and bytes after every operation"],
     T_HIST, "spec/C3Alloc.tla; arena, dynamic arena, backed arena, on-stack, temp (with derived children), simple heap, libc, tracking and the thread's temp pools: exhaustive short histories of three blocks and random ones of up to 100 operations with alignments to 256, marks, resets, nested scopes and failures of the provider; every live block is refilled with a pattern and read back after every operation, the provider has guard zones.")

prop("C19", "Channels, pools and locks work under every schedule",
     "Under every interleaving of threads, a channel delivers each pushed value exactly once, in order per channel and never more than its capacity ahead, push and pop on a closed channel fail and wake all waiters, mutexes exclude and recursive and timed ones keep their rules, once-flags run once, and a thread pool runs every accepted task exactly once, stops cleanly, and no operation blocks forever when it could proceed.",
     ["schedules"], "every schedule of a bounded number of threads and operations",
     "Tests run on one schedule chosen by the operating system.",
     ["lib/std/threads/buffered_channel.c3", "lib/std/threads/unbuffered_channel.c3", "lib/std/threads/pool.c3", "lib/std/threads/fixed_pool.c3", "lib/std/threads/os/thread_posix.c3"],
     [{"name": "monitor loops", "where": "lib/std/threads"}], ["API events under a controlled scheduler"],
     T_SCHED, "spec/C3Threads.tla; about 500 scenarios of 1-4 threads over both channels, four mutex kinds, condition variables, once-flags, both pools and threads, each under all schedules with at most 1-2 preemptions (spurious wake-ups and early time-outs included) up to a limit of runs, then random schedules. The pthread functions are replaced by drivers/sched.c, so pthread itself and data races between two calls are outside.")

prop("C20", "Streams transfer the bytes they say they transfer",
     "Readers and writers (byte reader, byte writer, byte buffer, buffered reader and writer, limit, multi, tee, scanner, string stream, copy) deliver exactly the underlying bytes in order, whatever the sizes of the calls, short reads or writes and faults of the underlying stream; counts, positions after seek and pushback, and end of file agree with a byte-sequence model.",
     ["histories", "inputs", "fault_sequences"], "every sequence of calls and sizes, and every short or failing underlying operation",
     "Tests read and write a few fixed buffers in full.",
     ["lib/std/io/stream", "lib/std/io/stream.c3", "lib/std/io/io.c3"], [{"name": "streams", "where": "lib/std/io/stream"}], ["bytes and results of every call"])

prop("C21", "Strings and dynamic strings",
     "String search, split, trim, strip, replace, case conversion, comparison and iteration and DString append, insert, delete, set and copy operations return what the same operations on a sequence of bytes (or code points) return, for all contents including empty, repeated and multi-byte ones; UTF-8, UTF-16 and UTF-32 conversions are inverse on valid text and report invalid text.",
     ["inputs", "histories"], "every string and argument, and every history of operations",
     "Tests use a few strings per function.",
     ["lib/std/core/string.c3", "lib/std/core/dstring.c3", "lib/std/core/conv.c3", "lib/std/core/string_iterator.c3"], [{"name": "string functions", "where": "lib/std/core"}], ["results of every call"])

prop("C22", "Path operations agree with path semantics",
     "Normalization, append, parent, basename, dirname, extension, absolute and relative operations on paths, in POSIX and Windows style, yield the path that following the components one by one yields; normalization is idempotent and never changes the file a path denotes.",
     ["inputs"], "every path over the separators, dots, names and volume prefixes",
     "Tests list selected paths.",
     ["lib/std/io/path.c3"], [{"name": "normalize", "where": "lib/std/io/path.c3"}], ["results of every call"])

prop("C23", "Text encodings decode what they encode and reject the rest",
     "base64, base32, hex and URL encoding and decoding are inverse for all data and alphabets with and without padding and agree with their standards; malformed text is rejected; CSV rows split into the right fields, and JSON parsing and URL parsing accept exactly well-formed text and yield the denoted value.",
     ["inputs"], "every byte string and every text",
     "Tests use the examples of the standards.",
     ["lib/std/encoding", "lib/std/net/url.c3", "lib/std/net/url_encoding.c3"], [{"name": "codecs", "where": "lib/std/encoding"}], ["results of every call"])

prop("C24", "Numbers print and parse back to the same value",
     "Integer and float formatting with every flag, width, precision and base prints the exact value (correctly rounded), parsing reads exactly the well-formed numerals and reports overflow and malformed text, and printing followed by parsing is the identity.",
     ["inputs"], "every value and every format specification",
     "Tests use selected values.",
     ["lib/std/io/formatter.c3", "lib/std/io/formatter_private.c3", "lib/std/core/string.c3", "lib/std/core/string_to_real.c3"], [{"name": "formatter", "where": "formatter_private.c3"}], ["printed and parsed values"])

prop("C25", "Calendar arithmetic is that of the Gregorian calendar",
     "Conversion between times and calendar dates is inverse and agrees with the proleptic Gregorian calendar for all representable dates; adding days, weeks, months and years and the weekday and year-day are those of the calendar; differences, durations and formatted dates agree.",
     ["inputs", "histories"], "every date and every amount added",
     "Tests use selected dates.",
     ["lib/std/time/datetime.c3", "lib/std/time/time.c3", "lib/std/time/format.c3"], [{"name": "date computation", "where": "datetime.c3"}], ["fields of every date"])

prop("C26", "Hashes do not depend on how the input is split",
     "MD5, SHA-1, SHA-256, HMAC, CRC-32, CRC-64, Adler-32 and FNV give the standard digest for every input, however it is split over updates.",
     ["inputs", "histories"], "every input length around block boundaries and every split",
     "Tests use the examples of the standards in one or two updates.",
     ["lib/std/hash"], [{"name": "update and final", "where": "lib/std/hash"}], ["digests"])

prop("C27", "Big integers compute exact integers",
     "BigInt arithmetic, shifts, bit operations, comparison, division with remainder, powers, gcd, modular operations and conversion to and from text agree with integer arithmetic for all values within the capacity, with every sign combination.",
     ["inputs", "histories"], "every pair of operands within the capacity",
     "Tests use selected operands.",
     ["lib/std/math/bigint.c3"], [{"name": "word arithmetic", "where": "bigint.c3"}], ["results of every operation"])
