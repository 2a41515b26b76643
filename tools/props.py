ENG = "Sound with respect to the LLVM IR of the build configuration analysed (gcc/clang differences and non-Linux branches are outside); trusted: the IR front end, the kind/heap model of the primitives listed in engine/primitives.txt, and the stated assumptions in DESIGN.md."
prop("C01", "The garbage collector never frees a value that is still in use",
 "A garbage collection may happen at any allocation. Every value that a running script, built-in function, the compiler or the interpreter still uses afterwards survives it with its contents intact, whatever the timing of collections.",
 ["programs", "schedules"], "all programs, all placements of collections at allocation points",
 "A test run collects at particular allocations on a few paths, and a use of freed memory is usually silent; the property ranges over every path and every collection point.",
 ["src/vm", "src/optionals"], [("reallocate/collectGarbage", "src/vm/memory.c"), ("push/pop rooting in natives and handlers", "src/vm, src/optionals")],
 "interprocedural rooting dataflow (collection points x reachability typestate) over LLVM IR", ENG)
prop("C03", "Built-in functions never misread the type of an argument",
 "Whatever values a script passes to a built-in function or method, the function uses each one (and each element of a list, dictionary or set it was given) as a string, number, list or other type only after establishing that it has that type. A value of the wrong type is reported as an error and never reinterpreted as something else. A host object is treated as a particular library's object only after its identity has been checked.",
 ["inputs", "programs"], "all built-in functions and methods, all argument values of every type",
 "Tests call natives with a few wrong types; the property ranges over every (native, position, type) combination and every path inside the native.",
 ["src/vm/datatypes", "src/optionals", "src/vm/natives.c"], [("IS_*/AS_* checks in every native", "src/vm, src/optionals")],
 "path-sensitive kind dataflow over LLVM IR, interprocedural", ENG)
prop("C04", "Built-in functions never read arguments that were not passed",
 "For every number of arguments a script passes to a built-in function or method, the function reads only the arguments that were actually passed. A call with an unsupported number of arguments is reported as an error before any missing argument is read.",
 ["inputs", "programs"], "all built-in functions and methods, all argument counts 0..255",
 "Tests try few counts per native, and a read past the passed arguments usually still finds readable memory, so it is silent.",
 ["src/vm/datatypes", "src/optionals", "src/vm/natives.c"], [("argCount checks at native entry", "every native")],
 "interval dataflow of the argument count against argument slots over LLVM IR", ENG)
prop("C09", "Built-in functions report failure exactly when they raised an error",
 "On every path through every built-in function or method, the call yields a value to the script if and only if no runtime error was raised on that path. A raised error always aborts the call and is never followed by a normal result or by a second error, and an internal failure marker is never handed to a script as a value.",
 ["inputs", "programs"], "all built-in functions and methods, all paths",
 "Error paths of natives are mostly untested, and a missing return after an error corrupts the interpreter only later.",
 ["src/vm", "src/optionals"], [("runtimeError followed by return EMPTY_VAL", "every native"), ("callNativeMethod", "src/vm/vm.c")],
 "path-sensitive typestate (error raised / marker returned) over LLVM IR", ENG)
prop("C10", "Built-in functions leave the operand stack balanced",
 "On every path on which a built-in function or method returns a value, the interpreter's operand stack has exactly the depth it had when the function was entered, and the caller's operands are unchanged. Values that a function put there temporarily are always removed, and no more than those.",
 ["inputs", "programs"], "all built-in functions and methods, all paths that return normally",
 "An unbalanced path is visible only on the particular early return that misses a pop, and then as an unrelated later failure.",
 ["src/vm", "src/optionals"], [("push/pop pairs", "every native and helper"), ("callNativeMethod, callNative", "src/vm/vm.c")],
 "stack-depth dataflow over LLVM IR, interprocedural", ENG)
prop("C02", "A collection marks everything that a live object refers to",
 "Whenever the collector visits a live object, it also marks every object that this object refers to, whatever the kind of the object and however full, shrunken or wrapped around its storage is. Everything the interpreter and the compiler hold directly (operand stack, call frames, captured variables, modules, builtin tables, functions and classes being compiled) is marked before anything is freed. Only the intern table holds strings weakly, and it drops them before they are freed.",
 ["programs", "histories"], "all object kinds, all container states, all moments at which a collection can start",
 "A reference that is not traced matters only when it is the last one and a collection happens before its next use; each object kind and container state would need its own test.",
 ["src/vm/memory.c", "src/vm/value.c", "src/vm/table.c", "src/vm/compiler.c", "src/optionals"], [("blackenObject, collectGarbage, sweep", "src/vm/memory.c"), ("grayDict, graySet", "src/vm/value.c"), ("grayTable, tableRemoveWhite", "src/vm/table.c"), ("grayCompilerRoots", "src/vm/compiler.c"), ("grayQueue, grayStack", "src/optionals")],
 "trace-completeness analysis: references owned by each type (debug info) against marked references per path and per loop", ENG)
prop("C22", "Objects are completely initialised before the collector can see them",
 "A new object, compiler state or interpreter is never exposed to a collection or handed to other code while a part of it that the collector, the destructor or a container operation reads is still uninitialised. This holds on every path through its construction, including failing ones.",
 ["programs", "schedules"], "all allocation sites, all paths, all placements of collections",
 "Uninitialised memory usually happens to contain harmless values, and a collection has to fall between the allocation and the assignment.",
 ["src/vm/object.c", "src/vm/compiler.c", "src/vm/vm.c", "src/optionals"], [("newObject functions", "src/vm/object.c"), ("initCompiler", "src/vm/compiler.c"), ("dictuInitVM", "src/vm/vm.c")],
 "definite-initialisation dataflow up to collection points and returns over LLVM IR", ENG)

prop("C38", "Dictionaries, sets and attribute tables keep exactly the entries put into them",
 "A key that was inserted and not removed is found by every later lookup, whatever was inserted, removed and resized in between; a removed or never inserted key is never found, and every lookup ends. Iterating, printing, comparing, copying, serialising or marking a container visits every present entry exactly once and nothing else, and the reported size is the number of present entries.",
 ["histories", "inputs"], "all histories of insertions, removals, lookups and iterations, all hash values and table sizes",
 "Whether a probe sequence, a tombstone or a resize goes wrong depends on collisions and on the order of operations; tests sample a few small containers.",
 ["src/vm/table.c", "src/vm/value.c", "src/vm/object.c", "src/vm/datatypes", "src/optionals"], [("findEntry/findDictEntry/findSetEntry and the set/delete/resize functions", "src/vm/table.c, src/vm/value.c"), ("every loop over entries[]", "src")],
 "protocol rules of open addressing checked by path-sensitive dataflow (probe step and stop, tombstones, load, resize, counters, slot loops)", ENG)

prop("C31", "No division by zero kills the process",
 "Whatever numbers, lists or big integers a script passes, neither the interpreter nor a built-in function executes an integer division or remainder whose divisor is zero (or that divides the smallest integer by -1): such input gives an error, an error Result or a defined value, never a crash.",
 ["inputs", "programs"], "all integer divisions and remainders in the source, all values their divisors can take",
 "A zero divisor needs one particular argument or one particular history of a container (a capacity, an emptied list); the property ranges over all of them.",
 ["src/optionals", "src/vm"], [("gcd/lcm", "src/optionals/math.c"), ("random", "src/optionals/random.c"), ("queue capacity", "src/optionals/queue.c"), ("bigint_div_mod", "src/optionals/bigint/bigint.c")],
 "value-range dataflow at every integer division, with structure-field and parameter invariants checked at all their stores and call sites", ENG)

prop("C36", "Formatted output always matches its arguments",
 "Every message, error text and string that the interpreter, the compiler and the built-in functions format is produced from a fixed format text, never from script data, and every directive in it finds an argument of its own kind (text for text, a number of the right class and width, a pointer to the right type). So no program, source text or argument can make an error message or an output read memory it should not, print another object's bytes or write through a format directive.",
 ["inputs", "programs"], "all calls of the C formatting and scanning functions and of the interpreter's own message functions",
 "Most formatted texts are error messages that no test produces, and a wrong width or kind often prints the right thing by chance on one platform.",
 ["src/vm", "src/optionals", "src/cli"], [("runtimeError and its callers", "src/vm/vm.c"), ("log_* functions", "src/vm/error_lib/error.c"), ("errorAt", "src/vm/compiler.c"), ("printf, snprintf, sscanf calls", "src")],
 "format directives against promoted argument types recovered from debug information, at every call site", ENG)

prop("C37", "Native extensions and the interpreter agree on the public interface",
 "A native extension compiled against the public header src/include/dictu_ffi_include.h sees the same interpreter it is loaded into: each function it calls is the interpreter's function of that name with that signature, every value and object it reads or builds has the interpreter's layout, tags and constants, every macro of the header means the same on both sides, and an extension built for a different interface version or that fails to initialise is refused with an error.",
 ["programs", "inputs"], "all functions, structures, enumerations and macros of the public header",
 "The test suite loads one prebuilt library that uses four of the thirty-three functions; a disagreement appears only in an extension that uses the member or function concerned.",
 ["src/include/dictu_ffi_include.h", "src/optionals/ffi", "src/vm"], [("ffi_function_pointers, load", "src/optionals/ffi/ffi.c"), ("dictu_internal_ffi_init", "src/include/dictu_ffi_include.h"), ("object and value layouts", "src/vm/object.h, src/vm/value.h")],
 "cross-translation-unit comparison of table order, signatures, record layouts, enumerators and optimised macro bodies; constant propagation of the load handshake", ENG)

prop("C16", "Only immutable values become dictionary keys and set members",
 "Only nil, booleans, numbers and strings are ever stored as keys of a dictionary or members of a set, whichever way they get there (literals, subscripts, methods, set(), annotations, JSON, conversions, copies, native modules); any other value gives an error instead. Two keys are equal exactly when they are the same value, which is what their hash is computed from, so a key that was stored is found again under every later lookup.",
 ["inputs", "programs"], "all insertions into dictionaries and sets, all kinds of value, all paths",
 "A value without a hash, or an equality that disagrees with the hash, only shows up as an entry that cannot be found again after some history of the container.",
 ["src/vm/value.c", "src/vm/util.c", "src/vm/vm.c", "src/vm/datatypes", "src/vm/compiler.c", "src/optionals"], [("isValidKey", "src/vm/util.c"), ("valuesEqual, hashValue", "src/vm/value.c"), ("every call of dictSet and setInsert", "src")],
 "kind (type-state) dataflow over LLVM IR at every key insertion, with computed summaries of classifying functions; path-wise check of the equality function", ENG)

prop("C19", "Every source text is scanned inside its bounds, to its end",
 "Whatever bytes a script, an eval() string or an imported file consists of, the scanner reads it from start to end without ever looking past its terminator: it moves on only over characters it has seen, every step of a loop and every token consumes text, the end is reported exactly at the end, the text of each token is what was consumed for it, every newline is counted as exactly one line, and when the compiler goes back it goes back to the end of a token. So no text hangs the compiler, makes it read foreign memory, or shifts the line numbers of errors.",
 ["inputs"], "all source texts, all positions at which they may end",
 "Over-reads need a text that ends at one particular place inside a token, comment or escape; a test suite consists of complete programs.",
 ["src/vm/scanner.c", "src/vm/compiler.c"], [("scanToken, skipWhitespace, string, number", "src/vm/scanner.c"), ("rewindTo", "src/vm/compiler.c")],
 "typestate dataflow of the read position (characters known not to be the terminator, consumption, line balance) with preconditions propagated to all callees", ENG)
prop("C08", "Every memory block is released exactly once, as what it is",
 "Every block of memory a built-in function, the compiler or the interpreter obtains for its own use is released exactly once on every path: it is not still held when the function that owns it returns, not used or released after it was released, and not lost by overwriting the last pointer to it. It is released by the allocator family it came from and, where the interpreter accounts for memory, with the size it was obtained with; a block kept by an object is released when the object is destroyed or replaced.",
 ["inputs", "programs"], "all functions that obtain or release memory, all paths including every error path",
 "Leaks, wrong accounting and double releases on error paths stay silent in tests; the property ranges over every path and every owner.",
 ["src/vm", "src/optionals"], [("ALLOCATE/FREE/GROW_ARRAY and malloc/free", "src/vm/memory.c, every native"), ("freeObject and the abstract free functions", "src/vm/memory.c, src/optionals")],
 "path-sensitive ownership typestate with symbolic sizes and interprocedural summaries over LLVM IR", ENG)
prop("C11", "Files, sockets, processes and other handles are released exactly once",
 "Every operating system or library resource a script causes to be obtained (an open file, file descriptor, directory, socket, shared library, address list, HTTP handle or header list, database connection or prepared statement) is released exactly once: on every path, including error paths, the function that obtained it either releases it or hands it to an object whose destruction or close() releases it, and nothing uses it after it was released.",
 ["inputs", "programs"], "all functions that obtain or release such resources, all paths including every error path",
 "A handle that stays open on an error path is only noticed when the process runs out of them, and a handle closed twice closes somebody else's file.",
 ["src/vm/datatypes/files.c", "src/optionals", "src/vm/memory.c"], [("open/close pairs in natives", "src/optionals, src/vm"), ("freeObject and the abstract free functions", "src/vm/memory.c, src/optionals")],
 "path-sensitive ownership typestate with interprocedural summaries over LLVM IR", ENG)

prop("C26", "Compiled code is well-formed: balanced, fully patched and in step",
 "For every program that compiles without an error, every function's code is well-formed. Every expression form (each prefix and infix parse rule, for each token it is registered for) leaves exactly one value on the operand stack and every statement and declaration leaves none, so that each local variable lives in the slot the compiler assigned to it; all ways to reach a place in the code (falling through, forward jumps, backward jumps, break and continue) arrive with the same number of values and the same local variables. Every jump that is emitted is given a target, the distance written into it leads exactly to the place meant, and a backward jump goes to the start of an instruction. Every instruction is followed by exactly the operand bytes its handler in the interpreter reads, and whatever goes through compiled code from instruction to instruction (the search for the breaks of a loop) uses those lengths. Leaving a scope or a loop removes exactly the local variables declared in it, closing those a closure has captured; dropping compiled code again (constant folding) goes back to the start of an instruction. Every function ends in a return with a value, and every token with an operator precedence has a rule.",
 ["programs"], "all functions of the compiler, all paths through them, all parse rules and tokens, all instructions they emit",
 "A form that leaves one value too many or too few works in most places it is tried and shifts every later local variable of the function elsewhere; the combinations of nested constructs are endless, while the balance of each construct is a finite obligation.",
 ["src/vm/compiler.c", "src/vm/vm.c", "src/vm/chunk.c"], [("parsePrecedence and the parse rules", "src/vm/compiler.c"), ("emitJump, patchJump, emitLoop, endLoop, getArgCount", "src/vm/compiler.c"), ("endScope, breakStatement, continueStatement", "src/vm/compiler.c"), ("instruction handlers", "src/vm/vm.c")],
 "abstract interpretation of the compiler over LLVM IR: the code it emits is tracked as stack heights, pending operands and jump labels in symbolic form, with the instruction effects computed from the interpreter's handlers and assume-guarantee summaries for the recursive functions", ENG)
prop("C33", "Fixed-size tables and buffers are never overrun",
 "Whatever a script, a file, the network or the environment supplies, every index into an array whose size is fixed in the source (compiler tables for locals, upvalues, parameters, cases and imported names, hash states and digests, decoding tables, text buffers, the built-in module table), every offset from such an array and every length passed to a library call that fills or reads one lies inside the array, on every path, including those taken when a limit is reached or after a compile error has been reported.",
 ["inputs", "programs"], "all functions, all indexes, offsets and lengths on arrays of fixed size",
 "Limits such as the 256th local, the 255th parameter or a path of 300 characters are rarely tried, an overrun by one element is usually silent, and each table has its own limit check in another place.",
 ["src/vm", "src/optionals", "src/cli"], [("addLocal, addUpvalue, beginFunction, switchStatement, import statements", "src/vm/compiler.c"), ("sha256, bcrypt, base64", "src/optionals"), ("path buffers", "src/vm/util.c, src/optionals/system.c")],
 "whole-program interval dataflow over LLVM IR (ranges of parameters, results and structure members between functions, loop-counted members) against the array sizes in the types", ENG)
prop("C06", "The limits of the instruction format are enforced, never silently exceeded",
 "An operand in compiled code is one byte, and a jump two. A program that needs more (constants in a function, locals, captured variables, arguments, parameters, literal elements, destructured or imported names, values of a case, jump or loop distance) is rejected with a compile error; it is never compiled with a number that was cut to fit: wherever the compiler narrows a number to a byte, the number is in 0..255 (both halves of a jump: 0..65535) on every path on which no error was reported.",
 ["programs"], "all programs, all places where the compiler narrows a number to a byte",
 "A limit matters only in programs with hundreds of items or tens of thousands of instructions, which tests do not write for each construct; beyond it the code silently means something else.",
 ["src/vm/compiler.c"], [("makeConstant, emitLoop, patchJump, addLocal, addUpvalue, argumentList, beginFunction", "src/vm/compiler.c"), ("list, dict, switch, import and destructuring forms", "src/vm/compiler.c")],
 "whole-program interval dataflow over LLVM IR with paths that report a compile error cut off: obligations at every narrowing to a byte", ENG)
prop("C12", "A failed system or library call is never reported as success",
 "When a built-in function asks the operating system or a library for something (files, directories, processes, sockets, addresses, HTTP transfers, database statements, shared libraries, the terminal, random numbers, calendar conversions) and that call fails, the script can tell: on every path on which the call failed the built-in function raises an error, returns an error Result, or, where it has no Result, returns the value it documents as failure (false or nil) that it does not return when it works. A call whose result is not looked at counts as one that may have failed. Failures are recognised by what the call documents (negative number, null pointer, non-zero code, a code other than the two good ones). Left out are failures that are only a lack of memory, buffered writing and closing of files, and sleeping.",
 ["inputs", "fault_sequences"], "all built-in functions, all paths, all failures of each call",
 "Most failures (a full disk, a lost connection half-way through a body, a second row that cannot be computed, a process that is gone) do not happen in tests, and a lost error looks like a good result.",
 ["src/optionals", "src/vm/datatypes"], [("ERROR_RESULT, newResultError, newResultSuccess", "src/optionals/optionals.h, src/vm/vm.c, src/vm/datatypes/result.c"), ("natives that call the system", "src/optionals/{system,process,socket,io,path,sqlite,term,datetime}, src/optionals/http"), ("file methods", "src/vm/datatypes/files.c")],
 "path-sensitive dataflow over LLVM IR: the possible results of each fallible call are followed through tests, flags and helper functions to the value the built-in function returns", ENG)

NA = "the result is a value computed at run time from the data; no static argument in reach decides that it is the right one, and running it would be another technique"
prop("C24", "Expressions evaluate to the values the language defines",
 "For every program, arithmetic, comparison, logical, bitwise and string operators, precedence, short-circuit evaluation, ternaries, optional chaining and constant folding give the values and the order of side effects the language documentation defines.",
 ["programs"], "all programs", "The combinations of operators and operands are endless.", ["src/vm/vm.c", "src/vm/compiler.c"], [("run", "src/vm/vm.c"), ("parse rules, foldBinary", "src/vm/compiler.c")],
 na=NA + " (that the code is balanced, fully patched and in step is C26; that operands have the right type before use is C03)")
prop("C23", "list.sort() and the functional list methods compute what they document",
 "For every list, sort() leaves an ordered permutation of its elements, reverse() a reversed one, map/filter/reduce/find call the function on each element in order and return the documented result.",
 ["inputs"], "all lists and callbacks", "Tests sample a few short lists.", ["src/vm/datatypes/lists"], [("sortList, list.du", "src/vm/datatypes/lists")],
 na=NA)
prop("C25", "JSON and other codecs round-trip",
 "For every value that can be represented, JSON.parse(JSON.serialize(v)) equals v, Base64.decode(Base64.encode(s)) equals s, and bytes that are not valid input are rejected.",
 ["inputs"], "all values", "Tests sample a few values.", ["src/optionals/json.c", "src/optionals/base64.c"], [("stringifyJson, parseJson", "src/optionals/json.c"), ("encode, decode", "src/optionals/base64.c")],
 na=NA + " (memory safety, ownership and error reporting of the same code are C01, C08, C10, C33)")
prop("C27", "Hash, HMAC and bcrypt digests equal the standard algorithms",
 "For every text, Hashlib.sha256, hmac and bcrypt return the digests the standards define and bcryptVerify accepts exactly the password that was hashed.",
 ["inputs"], "all texts", "A wrong bit at one block length is missed by a few test vectors.", ["src/optionals/hashlib.c", "src/optionals/hashlib"], [("sha256, hmac, bcrypt", "src/optionals/hashlib")],
 na=NA + " (that their buffers are never overrun is C33)")
prop("C28", "String methods return the documented text",
 "For every string and argument, split, replace, find, strip, title, count, format and the other string methods return the text or position the documentation defines.",
 ["inputs"], "all strings and arguments", "Tests sample a few strings per method.", ["src/vm/datatypes/strings.c"], [("string methods", "src/vm/datatypes/strings.c")],
 na=NA)
prop("C32", "The interpreter terminates and stays in memory when the program does",
 "The interpreter itself never loops forever on a program whose own loops end, and its memory use is bounded by what the program can reach plus a constant factor.",
 ["programs"], "all programs", "Termination and space depend on the whole execution.", ["src/vm"], [("run", "src/vm/vm.c"), ("collectGarbage", "src/vm/memory.c")],
 na="termination and space bounds of an interpreter depend on the program it runs; only the parts that do not (the scanner makes progress: C19; everything obtained is released: C08) are decided")
