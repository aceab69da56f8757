A_IR = "Trusts clang -O0 + always-inline/SROA lowering, type-based alias classes (the code keeps struct types apart) and the extractor in tool/irdump.cpp."
INP = ["inputs", "programs"]

prop("C01", "Everything a running program can still reach survives garbage collection",
     "A garbage collection never frees or recycles a value that the program can still reach: every kind of heap object keeps alive all objects it refers to (list cells, array elements, tree entries, closures with their parents, code, literals and metadata, buffer views, natives, symbols), and every root - the running threads' stacks, the current code, permanent values and built-in class tables - is traced.",
     ["programs", "histories", "schedules"], "all programs, and every point at which a collection can happen",
     "Tests trigger few collections at fixed points; a forgotten edge only shows when the only path to an object goes through it and memory is reused.",
     ["lib/garbage-collection.c", "lib/allocator.c", "lib/vm.c"], [("mark functions", "lib/garbage-collection.c"), ("root marking", "lib/garbage-collection.c")],
     "mark-graph completeness: reference fields of every heap structure vs fields the marking code traverses",
     "Every pointer-carrying field of every collected structure is matched with a marking call on the resolved program; " + A_IR)
prop("C02", "Sweeping frees exactly the unmarked objects and releases what they own",
     "After marking, a collection visits every slot of every heap; objects not marked are recycled exactly once and the memory they own is released, marked objects stay and lose their mark, and static (image-backed) memory is never freed.",
     ["programs", "histories"], "all allocation and collection histories",
     "Leaks and double frees need particular survival patterns; the tests only observe results.",
     ["lib/garbage-collection.c", "lib/allocator.c"], [("sweep functions", "lib/garbage-collection.c"), ("free lists", "lib/allocator.c")],
     "sweep/free protocol conformance over every heap type", A_IR)
prop("C03", "Collection happens only at the interpreter's safe points",
     "No built-in function, reader, image or allocation path can start a garbage collection or re-enter the interpreter while it holds values only in C variables: collections start only from the interpreter loop, after everything live has been stored where the collector looks.",
     ["programs", "schedules"], "every allocation count at which a collection may become due",
     "A collection inside a built-in is only visible when the allocation threshold happens to be hit there.",
     ["lib/vm.c", "lib/garbage-collection.c"], [("lGarbageCollectIfNecessary", "lib/vm.c")],
     "call-graph reachability from every built-in to the collector and the interpreter", A_IR)
prop("C04", "A value is only ever interpreted according to its own type",
     "Whatever values a program passes to built-ins or operators, the payload of a value is read as an integer, float or pointer only after its type has been established; a value of any other type is answered with an error instead. Methods found by lookup are only run on a receiver of the class they belong to.",
     INP, "all arguments of all types to every built-in, operator and method", "Tests pass well-typed arguments and a handful of wrong ones; there are about 20 types times every parameter of 156 built-ins.",
     ["lib/arithmetic.c", "lib/array.c", "lib/buffer.c", "lib/generic.c", "lib/vm.c", "lib/type-system.c", "bin/port.c", "bin/io.c"],
     [("req* type guards", "lib/nujel.h"), ("method tables", "lib/type-system.c")],
     "forward tag-set dataflow over all payload uses with interprocedural summaries",
     "Every payload use is an obligation; literals compiled by the assembler and the image are trusted to be well-formed. " + A_IR)
prop("C06", "Integer division and remainder never kill the process",
     "No integer division or remainder a program can perform, with any operands including zero and the smallest integer divided by -1, raises a processor trap: a zero divisor is reported as an exception (or excluded beforehand) and the interpreter keeps running.",
     INP, "all operand values of every division and remainder in the runtime", "Two of 2^128 operand pairs trap per operation; nothing else is affected.",
     ["lib/arithmetic.c", "lib/vm.c"], [("division guards", "lib/arithmetic.c"), ("lopRem", "lib/vm.c")],
     "guard-dominance analysis of every division instruction with value facts from dominating branches", A_IR)
prop("C07", "NaN and infinities never become values",
     "No operation yields a float value that is NaN or infinite: wherever a result, a decoded number or a stored image could be non-finite, an exception is raised instead, in the built-in functions and the virtual machine alike.",
     INP, "all operands of every operation that produces a float", "Overflow to infinity needs extreme operands; each operation has its own path.",
     ["lib/arithmetic.c", "lib/vm.c", "lib/nujel.h", "lib/generic.c", "lib/imageReader.c", "lib/reader.c"], [("lValFloat", "lib/nujel.h")],
     "finite-value dataflow: each float payload written is finite by construction or guarded against NaN and infinity on every path",
     "libm functions listed as finiteness-preserving are trusted (fabs, floor, sin, cos, cbrt, atan2, ...). " + A_IR)
prop("C09", "Errors surface as errors and are never stored, passed on or dropped",
     "An error raised while evaluating, reading source or loading an image always surfaces as an error: it is never stored as an ordinary value in a list, array, tree, variable or on the operand stack, never handed to another built-in as an argument, and never ignored in favour of a normal result. The reader's internal marker for a comment never becomes a value.",
     INP, "all failing sub-operations at every place that calls one", "Each call that may fail has its own error path, and most need a rare failure to be taken.",
     ["lib/vm.c", "lib/reader.c", "lib/imageReader.c", "lib/array.c", "lib/tree.c", "lib/generic.c", "lib/type-system.c"], [("exception tags", "lib/nujel.h"), ("throw handling", "lib/vm.c")],
     "forward tag-set dataflow of exception and comment tags into stores, arguments and results, plus an untested-exception path check",
     "Loading errors of the startup code end the process and are not followed. " + A_IR)
prop("C13", "Assembler, virtual machine and disassembler agree on the bytecode encoding",
     "Every instruction the assembler emits is one the virtual machine executes with exactly the operand bytes it was given: jumps land on their label and literals are the ones stored, whatever the distance or number of literals, and what cannot be encoded is refused. The disassembler shows every instruction with the length, name and operands the machine gives it.",
     INP, "all instructions, jump distances and literal indices", "Wide literals need more than 256 literals in one function and long jumps tens of kilobytes of code; each instruction has its own encoding.",
     ["stdlib/compiler/backend_bytecode/assembler.nuj", "stdlib/compiler/backend_bytecode/disassembler.nuj", "lib/vm.c", "lib/nujel-private.h"], [("assemble*", "stdlib/compiler/backend_bytecode/assembler.nuj"), ("disassemble", "stdlib/compiler/backend_bytecode/disassembler.nuj"), ("lBytecodeEval", "lib/vm.c")],
     "abstract interpretation of the assembler's templates and tables against path enumeration of the virtual machine's compiled instruction handlers",
     "Distances and indices are compared on representatives of every byte pattern, including both sides of each limit. " + A_IR)
prop("C25", "Compiled code keeps the value and closure stacks balanced",
     "Code the compiler produces for any form leaves exactly one value on the operand stack and the scopes as they were, on every path through conditions, loops, exception handlers and returns, and never takes an operand that was not pushed. Returning from a function or resuming in a handler restores the stack height of that function.",
     INP, "all forms built from the language's special forms, with arbitrary subforms", "An imbalance shows only when the unbalanced construct is nested where the surrounding code depends on the stack.",
     ["stdlib/compiler/backend_bytecode/compiler.nuj", "stdlib/compiler/backend_bytecode/assembler.nuj", "lib/vm.c", "lib/closure.c"], [("bytecompile*", "stdlib/compiler/backend_bytecode"), ("lBytecodeEval", "lib/vm.c")],
     "abstract interpretation of the compiler over forms of known shape, and stack-effect typing of the emitted code with effects read from the machine's handlers",
     "Forms of up to three arguments per construct; subforms are opaque and assumed balanced (induction). " + A_IR)
prop("C14", "Calls pass every argument to the parameter it belongs to",
     "However something is called - directly, with apply, as a method, or as an exception handler - each parameter of the function, macro or built-in receives the argument of its position, missing ones are nil, a rest parameter gets the remaining arguments in order, and methods are looked up on the first argument. The callee runs its own code in a new scope below the one it was created in, and a handler receives what was thrown.",
     INP, "all argument counts up to nine for every parameter count, and argument lists of any length", "There is separate code for every number of parameters, times three ways to call; the tests exercise few of them.",
     ["lib/vm.c", "lib/closure.c", "lib/type-system.c"], [("lopApply, lopApplyCollection, throwException", "lib/vm.c"), ("lClosureNewFunCall", "lib/closure.c"), ("native registration", "lib/closure.c")],
     "path-sensitive abstract interpretation of the compiled call handlers with symbolic stacks and argument lists; arity agreement of every native registration",
     "lTreeInsert is taken as binding its key to its value. " + A_IR)
prop("C23", "An operator means the same as instruction, as function and as constant",
     "Arithmetic, bit, comparison and list operators give the same result whether the compiler emits an instruction for them, they are called as functions (passed to apply, map or reduce), or the optimizer computes them beforehand: for the same operands either all raise an exception, or all yield a value of the same type with the same content.",
     INP, "all operand values of all types, including missing (nil) operands", "Each operator is implemented twice, with separate code per operand type combination; tests use literals, which the optimizer folds away.",
     ["lib/vm.c", "lib/arithmetic.c", "lib/core-operators.c", "stdlib/core/opcodes.nuj"], [("operator instructions", "lib/vm.c"), ("operator functions", "lib/arithmetic.c"), ("wrappers", "stdlib/core/opcodes.nuj")],
     "joint path-sensitive abstract interpretation of instruction handlers and native functions over the same symbolic operands (relational equivalence)",
     "Float payloads are finite (C07). Constant folding calls the function itself. Opaque library calls (fmod, pow) are taken as functions of their arguments. " + A_IR)
prop("C26", "The comparison operators describe one order",
     "For any two values a and b: a < b exactly when b > a, a <= b exactly when not a > b, a >= b exactly when not a < b, not= is the opposite of =, and = is symmetric. Of two numbers or two strings exactly one of <, = and > holds; integers and floats are compared with double precision, and texts byte by byte, a text before the longer ones that start with it. Values that cannot be compared are neither < nor >.",
     INP, "all pairs of values, including mixed integers and floats and extreme magnitudes", "Sorting, searching and loops over ranges rely on the order, and its corner cases (prefixes, equal floats, huge integers) are where hand-written comparisons fail.",
     ["lib/val.c", "lib/vm.c"], [("lValGreater, lValEqual", "lib/val.c"), ("comparison instructions", "lib/vm.c")],
     "joint path-sensitive abstract interpretation of the six comparison instructions on a pair of symbolic operands and the swapped pair",
     "Texts of up to two symbolic characters stand for longer ones (the loops treat every position alike). Transitivity across three values and integers beyond 2^53 against floats are not covered. Symbols are interned. " + A_IR)
prop("C05", "Built-ins stay within the data they are given",
     "Whatever index, offset or length a program passes, the built-in functions never read or write outside the elements of an array, buffer, buffer view, string or bytecode array: an index, offset or length that is out of range is reported as an exception or clamped, and every such object always has at least as many elements as its length promises.",
     INP, "all indices, offsets and lengths, including negative and huge ones", "An access slightly out of range usually goes unnoticed; each built-in has its own range check, with its own corner cases (negative offsets, wrap-around, partial elements).",
     ["lib/buffer.c", "lib/string.c", "lib/array.c", "lib/generic.c", "lib/allocator.c", "bin/port.c", "bin/io.c"], [("range checks", "lib/generic.c"), ("constructors", "lib/allocator.c")],
     "linear bounds analysis: dominating-branch facts, joins, inductive loop invariants and data structure invariants, with facts about parameters demanded from callers",
     "C strings and lists are shorter than 2^31; objects loaded from an image satisfy the invariants; the reader and the machine's own stacks are not covered. " + A_IR)
prop("C10", "Resources are released exactly once",
     "Every file, directory, process, socket and block of memory a built-in function acquires while it works is released exactly once, or handed on to a value that owns it, on every way out - success, error and failure of a later step alike. Nothing is used after its release, and a value that dies releases the memory it owns, and only that.",
     INP, "all ways through the functions that acquire resources, including failures of system calls", "A leak or a double release on an error path changes no result; the paths are taken only when a system call fails.",
     ["bin/io.c", "bin/misc.c", "bin/net.c", "lib/vm.c", "lib/reader.c", "lib/garbage-collection.c", "lib/imageReader.c", "lib/imageWriter.c"], [("lnfPopen, lnfDirectoryRead", "bin/io.c"), ("finalizers", "lib/garbage-collection.c")],
     "path-sensitive ownership typestate with interprocedural summaries, over both outcomes of every call that can fail",
     "Closing the file handles it opened is the program's task. " + A_IR)
prop("C11", "Failing allocations and system calls are noticed",
     "When memory runs out or a file, directory, process, socket or address cannot be had, the failure is noticed where it happens - reported, answered with nil or an exception, or ended with an out-of-memory exit - and the missing object is never accessed or made part of a value.",
     ["fault_sequences"], "the failing outcome of every such call, on every path", "The failing outcomes do not occur in tests.",
     ["lib/allocator.c", "lib/vm.c", "lib/reader.c", "lib/imageReader.c", "lib/imageWriter.c", "bin/io.c", "bin/port.c", "bin/misc.c", "bin/net.c"], [("allocators", "lib/allocator.c"), ("file functions", "bin/port.c")],
     "path-sensitive propagation of failed results (null pointers, -1, error codes) to accesses, calls and values",
     "Overcommitted memory that fails on first use is outside. " + A_IR)
prop("C17", "A tree keeps one value per symbol, ordered and balanced, and owns its nodes",
     "A tree associates each symbol with the value stored under it last: an insertion adds or replaces exactly that association, keeps every other one, and leaves the tree ordered and balanced; a lookup finds a symbol exactly when it is in the tree; length, keys and values account for every association once and in the same order; a copy is equal and independent, and no two objects (trees, scopes, metadata, method tables) share tree nodes, so changing one never changes or loses associations of another.",
     ["inputs", "histories"], "all sequences of insertions and lookups, in any symbol order, on trees of any size",
     "Which rotation an insertion needs depends on the order in which symbols were created and inserted, and sharing only shows after a rotation of the shared part.",
     ["lib/tree.c", "lib/closure.c", "lib/vm.c", "lib/type-system.c", "lib/imageReader.c"], [("lTreeInsert", "lib/tree.c"), ("lTreeRef", "lib/tree.c"), ("lTreeDup", "lib/tree.c")],
     "shape analysis of the tree functions by induction over opaque subtrees, and provenance analysis of every tree attached to an object",
     "Heights of opaque subtrees are represented by a few numbers (the code only compares and increments them). " + A_IR)
prop("C28", "Variables and methods are found in the innermost scope that has them",
     "Reading or assigning a variable uses the binding of the innermost enclosing scope that has one, whichever instruction or function does it, and raises an error if there is none; a definition binds in the current scope only; a scope opened by let or try lies below the current one. A method is found in the object itself, then its prototypes, then its type and the types that one is derived from. Nothing but the addressed binding changes.",
     ["inputs", "programs"], "all programs: every nesting of scopes and types, every set of bound symbols",
     "Each access has several implementations (short and long instruction, function) and the path through the scopes' trees depends on the order symbols were created in.",
     ["lib/closure.c", "lib/vm.c", "lib/type-system.c"], [("lGetClosureSym", "lib/closure.c"), ("lSetClosureSym", "lib/closure.c"), ("lopGetVal/lopSetVal", "lib/vm.c"), ("lMethodLookup", "lib/type-system.c")],
     "abstract interpretation of the lookup code over chains of scopes with opaque subtrees, compared with the specification case by case",
     "Chains of two scopes stand for all (the loops carry only the current scope). " + A_IR)
prop("C08", "What is immutable never changes",
     "A value that is immutable - a list cell, a string, a buffer, buffer view, array or tree created or read as immutable, the literals of compiled code - keeps its contents for as long as it lives, whichever built-in function or instruction it is given to: an operation that would change it raises an exception instead of changing it or silently doing nothing. A mutable alias of an immutable object is never handed out: views of an immutable buffer are immutable, copies share no memory with it, strings are always immutable, tree literals and the literals of code too; what is asked to be (im)mutable is.",
     ["inputs", "programs"], "all arguments of all built-in functions and instructions",
     "Every built-in function that writes has its own check; an omission shows only when that function is given an immutable value of that type, reached in that way (through a view, a generic function, an error path).",
     ["lib/buffer.c", "lib/generic.c", "lib/tree.c", "lib/vm.c", "lib/reader.c", "bin/io.c"], [("lnfBufferCopy, lnmBufferLengthSet", "lib/buffer.c"), ("lGenericSet", "lib/generic.c"), ("lBufferViewMutable", "lib/generic.c"), ("throw", "lib/vm.c")],
     "provenance analysis of every write in the compiled code: each store is traced to the object its address derives from, with all immutability flags set",
     "nreverse is documented to change the list it is given; array literals are mutable by design; the empty tree literal has no node to carry the flag. " + A_IR)
prop("C16", "A value written to an image is read back as the same value",
     "Deserializing a serialized value yields an equal value: same types, numbers, texts, symbols, elements, associations, code, scopes and views, whatever its size and however often the image had to grow; objects that were shared or cyclic stay shared or cyclic, immutable buffers and trees stay immutable, and the standard files, built-in functions and types are found again. A value that cannot be represented (another file, an image too big for its offsets) is refused as a whole, never written as something else.",
     ["inputs"], "all values, of any shape and size",
     "Offsets, lengths and numbers are stored in 1 to 8 bytes depending on magnitude, and pointers into the image go stale when it grows; tests use small values and one big image.",
     ["lib/imageWriter.c", "lib/imageReader.c", "lib/nujel-private.h"], [("ctxAdd*", "lib/imageWriter.c"), ("read*", "lib/imageReader.c"), ("writeImage, readImage", "lib/imageWriter.c")],
     "per-record round trip by abstract interpretation of writer and reader on opaque contents, with induction over references",
     "Offsets and lengths by representatives of every byte pattern and both sides of the limits; integers symbolically. lTreeInsert as in C17. The depth of recursion is not bounded. " + A_IR)
prop("C18", "Files, directories, processes and sockets: done as asked, failure shows",
     "What a program asks of the operating system is what happens: the file named is opened in the mode asked for (never overwriting an existing one with :error, keeping its content with :append, only for reading as input); reading and writing transfer exactly the bytes asked for, from and to the place asked for, each once and in order, and tell how far they got; seeking, listing directories, file information, the working directory, environment variables, connections, a command's output and exit code are reported as the system gave them. A request that fails has an outcome that differs from success, and no other built-in function changes anything outside the process.",
     ["inputs", "fault_sequences"], "all arguments, all answers of the operating system (failures, short transfers, signals)",
     "Failures and partial transfers of the operating system do not happen in tests; neither do unusual names, entries without = in the environment, or commands killed by a signal.",
     ["bin/io.c", "bin/port.c", "bin/net.c", "bin/environment.c", "bin/misc.c"], [("lnfFileReadAst, lnfFileWriteAst", "bin/port.c"), ("lnfPopen", "bin/io.c"), ("lnfSocketConect", "bin/net.c")],
     "path-sensitive abstract interpretation with the operating system's answers left open; effect analysis over the call graph",
     "The operating system's functions do what POSIX says; terminal settings (file/raw*) and use of a handle after closing it are outside. " + A_IR)
prop("C19", "A call returns to where it was made, on stacks with room for every function",
     "Whatever a function calls - functions, macros, apply, eval, exception handlers, however deeply nested or recursive - execution continues right after the call in the caller's own code and scope, with the caller's values as they were and one result added, or at the innermost try when something is thrown. The value and scope stacks always have room for everything the running code may push: no program, however deep its expressions, scopes or recursion, reads or writes outside of them, and growing them keeps their content.",
     ["inputs", "histories"], "all instructions, calls and returns, all code lengths and stack heights",
     "Tests recurse a few levels and nest a few scopes; the stacks start with 512 entries and heights were kept in 16 bits.",
     ["lib/vm.c", "lib/closure.c"], [("lBytecodeEval, lBytecodeEnsureSufficientStack", "lib/vm.c"), ("lClosure.sp", "lib/nujel-private.h")],
     "path-sensitive abstract interpretation of every instruction handler with symbolic stack sizes; linear capacity arguments over the length of the code entered",
     "Code comes from the compiler, whose stack discipline is C25; running out of memory ends the process; the C stack used by natives calling back is outside. The frames a return or an exception skips are followed up to 9 deep. " + A_IR)

prop("C12", "Built-ins change only what it is their task to change",
     "Calling a built-in function or method changes no object that already exists, no scope and no state of the runtime, except those whose task is to change something - names ending in !, nreverse, buffer/copy, :add-method, reading into a buffer, the literals that :bytecode-array turns immutable - and these change only that one argument; outside of files, processes, connections and the clock no built-in asks or tells the system anything. What is declared pure, and may therefore be run by the compiler in place of the program, changes nothing at all and depends on nothing but its arguments and what they hold: no time, no environment, no earlier calls, no state that anything changes while a program runs. What is declared foldable is pure and takes two arguments, since longer calls are nested in pairs.",
     ["inputs", "histories"], "all built-in functions and methods, all paths through everything they call",
     "Tests look at results, hardly ever at what became of the arguments or at the same call made twice in other circumstances; the compiler trusts the declarations without looking.",
     ["lib/arithmetic.c", "lib/array.c", "lib/buffer.c", "lib/core-operators.c", "lib/string.c", "lib/tree.c", "lib/type-system.c", "bin/io.c", "bin/port.c"], [("lAddNativeFunc*, lAddNativeMethod* and their flags", "lib/closure.c"), ("NFUNC_PURE, NFUNC_FOLD", "lib/nujel-private.h"), ("constant-fold", "stdlib/compiler/frontend/constant_folding.nuj"), ("lOperationsTree, lnmTree*", "lib/tree.c"), ("lnfBufferToString, lnfBufferCopy", "lib/buffer.c")],
     "interprocedural effect analysis: summaries of stores, calls and results over the call graph, offset-sensitive regions for parameters, globals and new objects; table of the built-ins that are to change something",
     "tree/new, image/serialize and image/deserialize are left out (C16 and C17 decide what they do); what the built-ins in bin/ do with the system is C18. Diagnostics on stderr, allocation and turning text into symbols do not count. " + A_IR)

prop("C20", "No missing object is accessed",
     "A reference that may be missing - the empty tree, the parent of the outermost scope, the parent of a type without one, the code of a scope that is not a function's, the result of a search that found nothing, what the collector left unset - is never followed, called or handed to a library function that needs it; a value whose type says it is an object (pair, tree, lambda, string, type, ...) always has that object, so nil is the only value for nothing; a lambda is only made of a scope that has code to run; and an exception that reaches the program always comes with its description.",
     ["inputs", "histories"], "all accesses through pointers, indirect calls, values made or handed on, results of natives; on every path",
     "Tests use trees that have entries, types that have parents and scopes that belong to functions; #@[] , :Nil's parent, the scope of a let or try, and failures inside natives are the unusual inputs.",
     ["lib/tree.c", "lib/type-system.c", "lib/core-operators.c", "lib/vm.c", "lib/closure.c", "lib/imageWriter.c", "lib/garbage-collection.c"], [("lnmTreeKeyAst and the other tree methods", "lib/tree.c"), ("lMethodLookup, lnmLambdaParent, lnmLambdaCode", "lib/type-system.c"), ("stackTrace, lBytecodeEval", "lib/vm.c"), ("lnfCurrentLambda", "lib/core-operators.c")],
     "whole-program nullness inference (least fixpoint over fields, results, parameters and globals) with path conditions; tag/payload pairing; exception-origin propagation",
     "The payload of a value is of the type its tag says (C04). Code of a function's scope is noted before the scope is used (C25). Sides of tree nodes that the heights imply are C17's. Results of allocations and system calls are C11's. Pointers kept in arrays of the runtime (stacks, heaps) are there when they were there as they were stored. " + A_IR)

prop("C22", "The reader never looks beyond the source text it was given",
     "Reading source text, however it ends - in the middle of a string, character, number, name, comment, quotation, special literal, list or dotted pair - looks at no byte before the text and at none behind the zero byte that ends it, and neither does making the excerpt that an error message shows; positions handed on within the reader are positions in the text being read. Names and buffer literals of any length stay within the memory they are collected in. Whoever calls the reader gives it a string of at least the length given, and the contents of every string, however it was made, are followed by a zero byte.",
     ["inputs"], "every access to the text in every function of the reader, every access to the reader's arrays and to memory allocated for a buffer literal, every call of the reader and every place that makes a string",
     "Every construct can be cut short at every character; a read one byte too far shows only where the memory behind the string happens to matter.",
     ["lib/reader.c", "lib/string.c"], [("lReadList, lReadValue, lParse*", "lib/reader.c"), ("lStringAdvance*", "lib/reader.c"), ("lValStringError", "lib/string.c")],
     "forward dataflow of positions relative to both ends of the text, refined by pointer comparisons and by tests of bytes that exclude the terminating zero; interprocedural fixpoint; affine proof that the byte behind the contents is set to zero where a string gets its contents",
     "Strings are shorter than 2^31. Strings that stay in a built-in image have behind them what the image writer put there. The memory the reader keeps for string literals is not part of this. " + A_IR)

# --- beyond static analysis here
prop("N01", "Printing a value and reading it back yields an equal value",
     "Whatever can be written as a literal - numbers, strings with any characters, symbols, lists, arrays, trees, buffers - is read back from its printed form as an equal value of the same type.",
     ["inputs"], "all printable values", "The tests print and read a few dozen values; floats and escape sequences have boundless variety.",
     ["lib/reader.c", "lib/val.c", "stdlib/string/printer.nuj", "lib/core-operators.c"], [("lReadValue", "lib/reader.c"), ("printing", "stdlib/string/printer.nuj")],
     "-", "-", na="The printer is written in Nujel on top of libc's float formatting, the reader parses digits with floating-point arithmetic: equality of the result depends on rounding of run-time quantities that no static argument in reach bounds. What is structural about it is covered: bounds (C05), errors inside literals (C09), payload types (C04).")
prop("N02", "Arithmetic gives the mathematically right result",
     "Integer and float operations return the mathematically right result (modulo 2^64, or the nearest double).",
     ["inputs"], "all operands", "Tests sample operands.", ["lib/arithmetic.c", "lib/vm.c"], [("arithmetic", "lib/arithmetic.c")],
     "-", "-", na="The oracle would be the C expression itself: there is no second description in the source to decide it against. What has one is decided: instruction against function (C23), traps (C06), non-finite results (C07), order (C26).")
prop("N03", "Sorting and the other list algorithms of the library compute what they promise",
     "list/sort returns a sorted permutation of its argument, and the other functional list algorithms of the standard library are correct for every list.",
     ["inputs"], "all lists", "Tests sample lists.", ["stdlib/collections"], [("sort", "stdlib/collections")],
     "-", "-", na="Functional correctness of unbounded recursive programs in a dynamically typed language needs inductive proof, not an analysis over the syntax or dataflow; no rule in reach separates right from wrong implementations without raising alarms on equivalent ones.")
prop("N04", "Hand-made bytecode and damaged images cannot crash the process",
     "Bytecode assembled by hand with :bytecode-array, and image files with arbitrary contents, are executed or loaded safely or refused.",
     ["inputs"], "all byte sequences", "Nothing tests them.", ["lib/vm.c", "lib/imageReader.c"], [("lBytecodeEval", "lib/vm.c"), ("readImage", "lib/imageReader.c")],
     "-", "-", na="The code does not promise it: operand bytes, literal indices and offsets are used unchecked by design, so the property does not hold and no small repair makes it hold. C09 and C11 cover errors and failing allocations while loading.")
prop("N05", "Deep recursion and deep data structures never overflow the C stack",
     "However deeply nested the data or source text is, the recursive C functions (reader, collector, image writer, tree functions) do not exhaust the C stack.",
     ["inputs"], "all nesting depths", "Tests nest a few levels.", ["lib/reader.c", "lib/garbage-collection.c", "lib/imageWriter.c"], [("lReadValue", "lib/reader.c"), ("lValGCMark", "lib/garbage-collection.c")],
     "-", "-", na="It does not hold (a million opening brackets end the process), the depth is a run-time quantity, and a bound would be a redesign, not a repair.")
prop("N06", "Every program that allocates within the limits is collected in time",
     "Collections start early enough that a program whose live data fits never runs out of heap slots, and late enough that collecting does not dominate.",
     ["programs", "histories"], "all allocation histories", "Depends on live data over time.", ["lib/allocator.c", "lib/garbage-collection.c"], [("lGarbageCollectIfNecessary", "lib/garbage-collection.c")],
     "-", "-", na="The amount of live data over time is a run-time quantity no static argument in reach bounds. That exhausted heaps ask for a collection is part of C02, that memory failures are noticed C11.")
