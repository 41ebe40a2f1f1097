"""Writes /verif/properties.jsonl from the table below."""
import json, os
L = "src/lib/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, obs, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs,
                          "hook_needed": hook}})

COMMON = "The 59 existing cases only drive the njsgen wrappers; "

p("C01", "Garbage collection is invisible and teardown releases everything",
  "Whenever a collection happens, at any allocation whatsoever, every value the program can still reach keeps its identity and contents, and the program's observable behaviour is the same as without that collection. Freeing the runtime after any program releases all the memory the runtime allocated.",
  ["schedules", "programs"], "every program and every placement of collections among its allocations",
  COMMON + "they fit in a few collections at whatever points the growth heuristic picks, so a value that is unrooted for a short time is almost never hit.",
  [L+"rjs_gc.c", L+"rjs_native_stack.c", L+"rjs_context.c", "include/ratjs/rjs_gc.h"],
  [("mark from roots, rescan when the mark stack overflows, sweep", L+"rjs_gc.c gc_run/gc_scan_things/gc_sweep"), ("scan function of every thing type", L+"*_op_gc_scan")],
  ["program output under forced collections", "AddressSanitizer on freed things", "'unfreed memory' report of rjs_runtime_free"],
  [("gc_thing_list", "all collectable things", L+"rjs_gc.c"), ("gc_mark_stack", "things to scan", L+"rjs_gc.c")],
  "collection at a chosen allocation (RJS_VERIF)")

p("C02", "Weak references and finalizers follow reachability exactly",
  "A WeakRef, WeakMap, WeakSet or FinalizationRegistry never keeps its target alive, and never loses a target that is still strongly reachable (a WeakMap value counts as reachable only while its key and the map are). After a collection, deref() and has()/get() agree with reachability, and each registered, not unregistered, unreachable target gets its registry's callback called with its held value exactly once, provided the registry itself is reachable.",
  ["histories"], "every object graph, every sequence of linking, unlinking, registering, unregistering and collecting",
  COMMON + "nothing in them uses weak references or collects on purpose.",
  [L+"rjs_weak_ref_opt.c", L+"rjs_weak_ref_object_inc.c", L+"rjs_finalization_registry_opt.c", L+"rjs_weak_map_object_inc.c", L+"rjs_weak_set_object_inc.c", L+"rjs_hash_object_inc.c"],
  [("clear weak references after marking", L+"rjs_weak_ref_opt.c rjs_solve_weak_refs"), ("queue callbacks for dead targets", L+"rjs_finalization_registry_opt.c rjs_solve_finalization_registry")],
  ["WeakRef.prototype.deref", "WeakMap/WeakSet has/get", "registry callbacks"])

p("C03", "Promises settle once and run each reaction once, in order",
  "A promise leaves the pending state at most once and keeps its value; each then/catch/finally reaction runs exactly once if and only if its promise settles, never synchronously, and all jobs (reactions, thenable resolutions) run in the order they were queued, whatever handlers do: resolve with promises, with thenables, throw, register more reactions or run the pending jobs re-entrantly. Promise.resolve/reject/all/allSettled/any/race settle their result once, with the outcome, order of results and timing prescribed by the ECMAScript 14th edition.",
  ["histories", "schedules"], "every sequence of creating, chaining, resolving, rejecting and combining promises, including from inside reactions",
  COMMON + "a handful of awaits never reorder, double-settle or nest jobs.",
  [L+"rjs_promise.c", L+"rjs_promise_object_inc.c", L+"rjs_job.c"],
  [("already-resolved flag shared by the resolving functions", L+"rjs_promise.c promise_resolve_nf/promise_reject_nf"), ("job queue", L+"rjs_job.c rjs_solve_jobs"), ("remaining-elements counters", L+"rjs_promise_object_inc.c")],
  ["order of handler calls", "settled values"], [("job_list", "FIFO of pending jobs", L+"rjs_job.c")])

p("C04", "await suspends and resumes in exactly the prescribed order",
  "An async function runs synchronously up to its first await, resumes exactly once per await with the awaited outcome (value or thrown reason) in job-queue order, runs its pending finally blocks, and settles its promise once with its completion. for-await-of over async or sync iterators awaits values and closes the iterator exactly when left early, in the order prescribed by the 14th edition.",
  ["programs", "schedules"], "every nesting of awaits, try/catch/finally, loops and concurrent async functions, awaiting values, promises and thenables",
  COMMON + "no case interleaves two async functions.",
  [L+"rjs_async_function_opt.c", L+"rjs_generator_opt.c", L+"rjs_iterator.c", L+"rjs_bc_call.c", L+"rjs_native_stack.c"],
  [("async context saved and resumed through promise reactions", L+"rjs_context.c rjs_async_context_push/rjs_context_restore, rjs_await"), ("async-from-sync iterator", L+"rjs_iterator.c")],
  ["interleaving of logged effects"])

p("C05", "Generators resume, delegate and finish as a state machine",
  "next, return and throw on a generator act on exactly its current state (not started, suspended, running, completed): they resume it at its yield with that completion, run the finally blocks it crosses, produce {value, done} records, and a completed generator stays completed; resuming a running generator throws a TypeError and changes nothing. yield* forwards next/return/throw to the inner iterator as the 14th edition prescribes.",
  ["histories", "programs"], "every generator body built from yields, yield*, try/catch/finally and loops, and every sequence of next/return/throw on it, re-entrant ones included",
  COMMON + "no case resumes a generator other than by for-of.",
  [L+"rjs_generator_opt.c", L+"rjs_generator_object_inc.c", L+"rjs_context.c", L+"rjs_bc_gen.c"],
  [("generator states", L+"rjs_generator_opt.c generator_validate/generator_resume/generator_resume_abrupt"), ("delegation", L+"rjs_generator_opt.c generator_iterator_yield_next")],
  ["results of next/return/throw", "logged effects of the body"])

p("C06", "Async generators serve queued requests strictly in order",
  "Requests (next, return, throw) made on an async generator, at any time, are answered exactly once each, in the order made, each through its own promise; the body runs one request at a time and never re-entrantly; return awaits its value, also on a generator that has not started or has completed.",
  ["histories", "schedules"], "every body and every interleaving of requests with job execution",
  COMMON + "async generators are not used at all.",
  [L+"rjs_generator_opt.c", L+"rjs_async_generator_object_inc.c"],
  [("request queue", L+"rjs_generator_opt.c async_generator_enqueue/rjs_async_generator_drain_queue/async_generator_await_return")],
  ["order and outcome of the request promises", "logged effects of the body"])

p("C07", "Abrupt completions unwind exactly the right blocks",
  "break, continue, return and throw transfer control to their target after running every finally block between, innermost first, exactly once; a finally block's own abrupt completion overrides the pending one; switch, labelled statements and loops enter and leave as the language prescribes, and leaving blocks restores the enclosing scopes.",
  ["programs"], "every nesting of try/catch/finally, loops, switch, labels and abrupt completions",
  COMMON + "try/finally with pending completions never occurs in them.",
  [L+"rjs_bc_gen.c", L+"rjs_bc_call.c", L+"rjs_native_stack.c"],
  [("try states on the native stack", L+"rjs_native_stack.c rjs_try_state_push"), ("code generation of finally and jumps", L+"rjs_bc_gen.c")],
  ["sequence of logged effects", "completion of the function"])

p("C08", "Iterator consumers step and close iterators exactly as required",
  "for-of, array destructuring (declarations, assignments, parameters), spread, Array.from, the Map/Set/WeakMap/WeakSet/Object.fromEntries consumers and yield* call next the prescribed number of times, and call return exactly once if and only if they leave before the iterator is done and the iterator itself did not fail; errors from return and from the body take precedence as prescribed.",
  ["programs", "fault_sequences"], "every consumer, every iterator length, and a failure at any step of the iterator, of value access, of the consumer's target or of return",
  COMMON + "only well-behaved array iteration occurs.",
  [L+"rjs_iterator.c", L+"rjs_native_stack.c", L+"rjs_bc_gen.c", L+"rjs_hash_object_inc.c", L+"rjs_array_object_inc.c"],
  [("iterator close", L+"rjs_iterator.c rjs_iterator_close"), ("iterator and destructuring states", L+"rjs_native_stack.c rjs_iter_state_step/rjs_state_deinit")],
  ["call log of the iterator", "completion of the consumer"])

p("C09", "Identifiers resolve lexically, with dead zones and fresh loop bindings",
  "Every reference reads or writes the binding of the innermost enclosing scope that declares it; using let, const or class bindings before initialization throws ReferenceError, writing a const throws TypeError, and each iteration of a let loop has its own bindings, which closures keep. Parameters, default-value scope, function hoisting, catch parameters, with, named function expressions, direct and indirect eval all obey the language's scoping rules.",
  ["programs"], "every nesting of scopes and every placement of declarations, closures, reads and writes",
  COMMON + "shadowing and dead zones are not exercised.",
  [L+"rjs_parser.c", L+"rjs_bc_gen.c", L+"rjs_decl_env.c", L+"rjs_object_env.c", L+"rjs_function_env.c", L+"rjs_eval_opt.c"],
  [("declaration instantiation", L+"rjs_code_gen_inc.c, rjs_script.c"), ("binding initialized flag", L+"rjs_decl_env.c")],
  ["values and errors of references"])

p("C10", "Global declarations across scripts are checked, then made atomically",
  "Each script's top-level declarations are checked against all earlier scripts' lexical and var names and the global object before anything is created: on a conflict the script throws the prescribed error and leaves no binding behind. Otherwise var and function declarations become global object properties with the prescribed attributes, lexical ones do not, and eval-declared names are deletable.",
  ["histories", "configurations"], "every sequence of scripts, evals and global object mutations (non-extensible, non-configurable, accessor properties)",
  COMMON + "they load one module and no second script.",
  [L+"rjs_global_env.c", L+"rjs_script.c", L+"rjs_eval_opt.c"],
  [("has/can declare checks", L+"rjs_global_env.c rjs_env_can_declare_global_var etc."), ("script_declaration_instantiation", L+"rjs_script.c")],
  ["script errors", "global object property descriptors", "typeof of names from later scripts"])

p("C11", "Object properties obey the essential internal-method invariants",
  "Defining, setting, deleting and reading own or inherited properties, and preventing extensions, sealing and freezing, follow the ordinary-object algorithms: a non-configurable property never changes against its attributes, a non-extensible object never gains a property or prototype, setters and getters on the prototype chain are honoured, and own keys are listed integers ascending, then strings, then symbols, in creation order. A failed operation changes nothing and throws in strict code.",
  ["histories", "inputs"], "every sequence of property operations with every partial descriptor",
  COMMON + "property attributes are never varied.",
  [L+"rjs_object.c", L+"rjs_operation.c", L+"rjs_object_object_inc.c", L+"rjs_reflect_object_inc.c"],
  [("ValidateAndApplyPropertyDescriptor", L+"rjs_object.c"), ("ordinary set", L+"rjs_object.c"), ("integrity levels", L+"rjs_operation.c")],
  ["Reflect.* results", "property descriptors", "Reflect.ownKeys"])

p("C12", "An array's length and indices always agree",
  "Every array's length is an integer greater than every index it has; writing an index at or past length extends it, setting length deletes the elements past it from the end and stops at a non-deletable one, a non-writable length forbids both, and an invalid length throws RangeError and changes nothing.",
  ["histories", "inputs"], "every sequence of index and length definitions, assignments and deletions with every attribute combination",
  COMMON + "arrays are only appended to.",
  [L+"rjs_array.c", L+"rjs_object.c"],
  [("array define own property, set length", L+"rjs_array.c array_set_length/array_set_item/array_op_define_own_property")],
  ["length", "descriptors of indices", "thrown errors"])

p("C13", "Array built-ins behave as the prescribed sequence operations",
  "push, pop, shift, unshift, splice, slice, concat, reverse, fill, copyWithin, indexOf, lastIndexOf, includes, at, find*, flat, flatMap, map, filter, reduce*, every, some, forEach, join, with, toReversed, toSpliced, keys/values/entries produce exactly the results, and leave exactly the array (holes included), prescribed by the 14th edition, for every relative index, hole pattern and mutation made by callbacks.",
  ["inputs", "histories"], "every array over a small alphabet with holes, every argument combination including negative, out of range and missing",
  COMMON + "few array methods and no holes occur.",
  [L+"rjs_array_object_inc.c"], [("generic array algorithms", L+"rjs_array_object_inc.c")],
  ["returned values and resulting arrays"])

p("C14", "Sorting is a stable permutation ordered by the comparator",
  "Array.prototype.sort and toSorted and their typed-array counterparts return a permutation of the elements ordered by the comparator (by string, or numerically for typed arrays, when absent), equal elements keeping their order, undefined after all others and holes last; a throwing comparator propagates and loses no element, and an inconsistent comparator neither crashes nor changes the multiset.",
  ["inputs", "fault_sequences"], "every array and every comparator, consistent or not, throwing at any call",
  COMMON + "nothing is sorted.",
  [L+"rjs_sort.c", L+"rjs_array_object_inc.c", L+"rjs_typed_array_object_inc.c"], [("merge sort", L+"rjs_sort.c")],
  ["resulting order"])

p("C15", "Map and Set keep insertion order, even while iterated",
  "Map and Set behave as insertion-ordered tables keyed by SameValueZero (-0 is 0, NaN equals NaN): get, has, set, add, delete, clear and size agree with the history of operations. Iterators and forEach visit each live entry exactly once in insertion order, including entries added during the iteration, skipping those deleted before being reached, and a finished iterator stays finished.",
  ["histories"], "every sequence of insertions, deletions, clears and steps of any number of live iterators",
  COMMON + "maps are filled once and never mutated while iterated.",
  [L+"rjs_hash_object_inc.c", L+"rjs_map_object_inc.c", L+"rjs_set_object_inc.c", L+"rjs_hash.c"],
  [("entry list plus hash, iterators registered with the table", L+"rjs_hash_object_inc.c hash_add/hash_delete/hash_clear/hash_iter_new")],
  ["method results", "iteration results"])

p("C16", "Proxies forward each operation and enforce every invariant",
  "Each internal method of a Proxy calls the corresponding trap with the prescribed arguments, or acts on the target when there is none, and throws TypeError exactly when the trap's result contradicts the target (non-configurable or non-writable properties, non-extensible targets, missing or duplicate keys) or the proxy is revoked.",
  ["inputs", "configurations"], "every target state, trap result and operation, including proxies of proxies and revocation at any time",
  COMMON + "no Proxy is created.",
  [L+"rjs_proxy_object_opt.c", L+"rjs_proxy_object_inc.c"], [("trap calls and invariant checks", L+"rjs_proxy_object_opt.c proxy_object_op_*")],
  ["results and errors of Reflect operations on proxies", "trap call log"])

p("C17", "Mapped arguments objects alias parameters exactly while mapped",
  "In a sloppy function with simple parameters each passed argument and its parameter are one cell: writing either changes the other, until the element is deleted, made an accessor or made non-writable, after which they are independent. In strict functions or with non-simple parameters they are independent from the start.",
  ["histories"], "every sequence of writes, defineProperty, deletes and freezes on arguments and parameters",
  COMMON + "arguments is not used.",
  [L+"rjs_arguments_object.c", L+"rjs_bc_gen.c"], [("parameter map", L+"rjs_arguments_object.c arguments_object_op_define_own_property etc.")],
  ["values of parameters and of arguments elements, descriptors"])

p("C18", "Binary views read and write exactly their bytes",
  "Every typed array and DataView over one buffer reads and writes exactly the bytes of its range, with the prescribed integer conversion (modulo, clamped) and byte order; an access outside the view, or on a detached buffer, reads undefined or throws as prescribed and never touches memory. Constructors, set, subarray, slice, copyWithin, fill and the other typed-array methods behave as the prescribed operations on the shared bytes, overlapping ranges included.",
  ["histories", "inputs"], "every arrangement of views over a buffer and every sequence of accesses, bulk operations and detachment",
  COMMON + "typed arrays are filled by C functions and read element by element.",
  [L+"rjs_int_indexed_object_opt.c", L+"rjs_typed_array_opt.c", L+"rjs_typed_array_object_inc.c", L+"rjs_array_buffer_opt.c", L+"rjs_array_buffer_object_inc.c", L+"rjs_data_view_object_inc.c"],
  [("integer-indexed exotic object", L+"rjs_int_indexed_object_opt.c"), ("raw get/set", L+"rjs_array_buffer_opt.c")],
  ["bytes of the buffer", "values read", "errors"])

p("C19", "Atomics are atomic and wait/notify loses no wakeup",
  "Atomics operations from any number of agents on a shared buffer take effect one at a time and return the prescribed old value. Atomics.wait blocks only if the cell holds the expected value, decided atomically with queueing; notify wakes exactly the min(count, waiting) longest-waiting agents on that cell and returns that number, a woken agent returns 'ok', an unwoken one only 'timed-out' after its timeout, and no agent is woken twice or by nothing.",
  ["schedules"], "every interleaving of agents",
  COMMON + "they are single-threaded.",
  [L+"rjs_atomics_object_inc.c", L+"rjs_data_block_opt.c", L+"rjs_array_buffer_opt.c"],
  [("data block mutex", L+"rjs_data_block_opt.c rjs_data_block_lock"), ("waiter lists", L+"rjs_data_block_opt.c rjs_add_waiter/rjs_notify_waiter")],
  ["results of wait and notify in each agent", "final memory"], [("waiter_lists", "waiting agents per cell, FIFO", L+"rjs_data_block_opt.c")])

p("C20", "Modules load once, link completely and evaluate in dependency order",
  "Each module of a graph, cyclic or not, is loaded and evaluated at most once, after the modules it imports (cycles excepted), in import order, asynchronous (top-level await) ones included; an evaluation error is remembered and reported to every importer. Imports are live views of the exporter's bindings, resolve through export-from and export *, unresolvable or ambiguous imports fail linking before anything runs, and namespace objects list exactly the exported names in order.",
  ["configurations", "schedules"], "every module graph: cycles, diamonds, re-exports, top-level await, throwing modules, dynamic imports in any order",
  COMMON + "they import a flat set of modules.",
  [L+"rjs_module_opt.c", L+"rjs_module_env_opt.c", L+"rjs_module_ns_object_opt.c", "src/exe/rjs_main.c"],
  [("link and evaluation depth-first search", L+"rjs_module_opt.c inner_module_link/inner_module_evaluation"), ("async evaluation", L+"rjs_module_opt.c execute_async_module/gather_available_ancestors"), ("export resolution", L+"rjs_module_opt.c resolve_export")],
  ["order of module effects", "import() outcomes", "namespace contents"])

p("C21", "Classes construct, brand and initialise in the prescribed order",
  "Class evaluation and construction run heritage, computed keys, static blocks, static and instance fields, private methods and constructors in the prescribed order; this is usable in a derived constructor exactly after super() returns, once. A private name is accessible exactly on objects branded by that class evaluation, #x in o agrees, and any other access throws TypeError, as do adding a private element twice, writing a private method and reading a setter-only accessor.",
  ["programs", "histories"], "every class hierarchy built from fields, accessors, methods, private elements, static blocks, with constructors that call super, return objects or throw",
  COMMON + "only simple base classes occur.",
  [L+"rjs_native_stack.c", L+"rjs_private_name_opt.c", L+"rjs_script_func_object.c", L+"rjs_function_env.c", L+"rjs_parser.c"],
  [("class element states", L+"rjs_native_stack.c rjs_class_state_*"), ("private names", L+"rjs_private_name_opt.c")],
  ["logged order", "results and errors of private access and construction"])

p("C22", "Regular expressions find the prescribed match and captures",
  "RegExp matching returns the first match in the specified backtracking order (leftmost, greedy or lazy, alternatives in order) with exactly the prescribed captures, for groups, named groups, backreferences, quantifiers, classes, anchors, lookaheads, lookbehinds and the i, m, s, g, y, d flags. exec, test, match, matchAll, replace, search and split move lastIndex and return results as prescribed.",
  ["inputs"], "every pattern of the grammar, every input and every lastIndex",
  COMMON + "njsgen uses a few fixed patterns.",
  [L+"rjs_regexp.c", L+"rjs_regexp_object_inc.c", L+"rjs_string_object_inc.c"], [("backtracking matcher", L+"rjs_regexp.c"), ("RegExp methods", L+"rjs_regexp_object_inc.c")],
  ["match arrays, indices, lastIndex, replaced strings"])

p("C23", "BigInt arithmetic is exact",
  "BigInt +, -, *, /, %, **, unary minus, comparison, shifts, bitwise operations, asIntN/asUintN, parsing and printing give the mathematically exact integer (truncated division, two's-complement bitwise) for operands of every sign and size; division by zero and negative exponents throw RangeError.",
  ["inputs"], "all operand values of any length, in particular at digit-size boundaries",
  COMMON + "they use a few 64-bit constants.",
  [L+"rjs_big_int_internal_opt.c", L+"rjs_big_int_object_inc.c"], [("digit-array arithmetic", L+"rjs_big_int_internal_opt.c")],
  ["printed results"])

p("C24", "File and directory objects behave as positioned byte streams",
  "File objects opened in each documented mode read, write, seek, tell and append as a byte array with a position; getChar/getString/read never return bytes that are not in the file, writes land exactly at the position (at the end in append mode), and operations on a closed file, with ranges outside the buffer or on missing files fail with an exception and change nothing. loadString/storeString/appendString/loadData/storeData/appendData and the directory, rename, unlink and mkdir functions agree with the file system.",
  ["histories", "fault_sequences"], "every sequence of file operations, with every argument at and past the boundaries",
  COMMON + "they only read source files.",
  [L+"rjs_extension_opt.c", "doc/extension.md"], [("File native object", L+"rjs_extension_opt.c")],
  ["return values, thrown errors, bytes of the files"])

p("C25", "Native structures seen from scripts are their C memory",
  "A generated native structure, union, array or pointer object reads and writes exactly the C memory of its member with the C conversion of its type, nested members and array elements alias the memory of their parent and keep it alive, assignment copies, and out-of-range indices never touch memory outside the object.",
  ["histories", "inputs"], "every sequence of member reads, writes, nested accesses, copies and collections",
  COMMON + "each member is set and read once in a fresh object.",
  [L+"rjs_ctype_opt.c", "module/njsgen/njs-generator.js", "include/ratjs/rjs_ctype.h"], [("C pointer objects and their cache", L+"rjs_ctype_opt.c")],
  ["member values, C-side view of the memory"])

p("C26", "for-in visits each enumerable string key once, live",
  "for-in visits the enumerable string keys of an object and its prototypes, own keys first in property order, each name at most once and never one shadowed by a nearer property (enumerable or not); a property deleted before being reached is not visited. Object.keys, values, entries, assign and spread list the own enumerable properties in property order.",
  ["histories", "configurations"], "every prototype chain, every attribute assignment and every deletion or addition during the loop",
  COMMON + "only plain literals are enumerated.",
  [L+"rjs_for_in_iterator.c", L+"rjs_object.c", L+"rjs_object_object_inc.c"], [("visited-keys set", L+"rjs_for_in_iterator.c for_in_iterator_proto_next")],
  ["sequence of visited keys"])

p("C27", "Operands are evaluated left to right with the prescribed conversions",
  "In every expression the observable steps (operand evaluation, property access, getter and setter calls, valueOf/toString/@@toPrimitive conversions, calls) happen exactly once each in the prescribed order, short-circuit, optional-chaining and conditional operators evaluate only what they must, assignment and compound forms evaluate their target once and before their value, and an exception at any step suppresses exactly the later ones.",
  ["programs", "fault_sequences"], "every expression over the operators, with an exception at any step",
  COMMON + "operands have no side effects.",
  [L+"rjs_bc_gen.c", L+"rjs_operation.c", "include/ratjs/rjs_operation.h", L+"rjs_value.c"], [("expression code generation", L+"rjs_bc_gen.c"), ("conversions", L+"rjs_operation.c")],
  ["log of observable steps, result"])

p("C28", "A script with an early error never runs any of its code",
  "Duplicate or conflicting declarations, misplaced break, continue, return, super, new.target, yield or await, undefined labels, invalid assignment targets, illegal strict-mode constructs and undeclared private names are rejected with SyntaxError before any part of the script runs, and programs without an early error are accepted.",
  ["programs"], "every nesting of scopes, functions, labels and declarations",
  COMMON + "all sources in them are valid.",
  [L+"rjs_parser.c"], [("declaration and label checks", L+"rjs_parser.c")],
  ["SyntaxError or first effect of the script"])

p("C29", "Realms and runtimes are isolated from one another",
  "Each realm has its own intrinsics, global object and global lexical scope: code runs in the realm of its function, errors thrown by built-ins and objects created by them come from that function's realm, and mutating one realm's intrinsics or globals is invisible in another, while registered symbols are shared. Independent runtimes in different threads do not influence each other.",
  ["configurations", "schedules"], "every way of passing functions, constructors and values between realms, and concurrent runtimes",
  COMMON + "one realm and one runtime exist.",
  [L+"rjs_realm.c", L+"rjs_context.c", L+"rjs_function.c", L+"rjs_runtime.c"], [("realm of the running context", L+"rjs_context.c"), ("GetPrototypeFromConstructor / GetFunctionRealm", L+"rjs_object.c, rjs_function.c")],
  ["prototype identity of results and errors"])

p("C30", "String built-ins are the prescribed operations on code units",
  "Strings are immutable sequences of UTF-16 code units, and slice, substring, at, charAt, indexOf, lastIndexOf, includes, startsWith, endsWith, padStart/End, repeat, split, replace(All), trim*, concat, codePointAt, fromCodePoint, iteration, isWellFormed, toWellFormed, comparison and concatenation give exactly the prescribed result for every argument, however the string was built.",
  ["inputs"], "every string (lone surrogates included) and argument combination",
  COMMON + "few string methods are used, on ASCII.",
  [L+"rjs_string.c", L+"rjs_string_object_inc.c"], [("string representation and operations", L+"rjs_string.c")],
  ["returned strings"])

p("C31", "Date arithmetic follows the proleptic Gregorian calendar exactly",
  "A Date is an integral time value within ±8.64e15 ms or invalid; Date.UTC, the constructor, every getUTC*/setUTC* and (in UTC) local counterpart, ISO parsing and toISOString/toJSON convert between fields and time value exactly as prescribed, with field overflow carried in either direction.",
  ["inputs", "histories"], "every time value and every sequence of setters with in- and out-of-range fields",
  COMMON + "Date is not used.",
  [L+"rjs_date_object_inc.c"], [("day/time arithmetic", L+"rjs_date_object_inc.c")],
  ["fields, time values, strings"])

p("C32", "JSON.parse and JSON.stringify follow the grammar and walk order",
  "JSON.parse accepts exactly the JSON grammar and builds the denoted value; JSON.stringify produces the prescribed text, omitting or replacing unserialisable values, honouring toJSON, replacer function or list, and indentation, visiting properties in order; both call their callbacks with the prescribed holder, key and value, and cyclic structures throw TypeError.",
  ["inputs", "histories"], "every text and value, with callbacks that mutate what is being visited",
  COMMON + "only well-formed configuration files are parsed.",
  [L+"rjs_json_opt.c", L+"rjs_json_object_inc.c"], [("parser and serializer", L+"rjs_json_opt.c")],
  ["results, errors, callback log"])

p("C33", "The option, JSON-pointer and JSON-schema modules follow their contracts",
  "OptionParser calls back each option once, in order, with its canonical name and converted argument, for long, abbreviated, =value and separate-argument forms, and rejects unknown, ambiguous or malformed options with TypeError. JSON pointers resolve per RFC 6901, and schema validation accepts exactly the documents the supported keywords allow.",
  ["inputs"], "every option table and argument list, pointer and document, schema and document",
  COMMON + "njsgen passes three fixed options and one schema.",
  ["module/option.js", "module/json-pointer.js", "module/json-schema.js", "module/json-manager.js"], [("option matching", "module/option.js parse"), ("pointer walk", "module/json-pointer.js"), ("keyword checks", "module/json-schema.js")],
  ["callback log, resolved values, validation results"])

p("C34", "Symbols and template objects have the prescribed identity",
  "Symbol() values are unique; Symbol.for returns the same symbol for the same key everywhere and Symbol.keyFor inverts it. A tagged template passes the same frozen strings object (with raw strings) at every evaluation of one site and different ones for different sites, with substitutions evaluated in order.",
  ["histories", "configurations"], "every sequence of registrations and evaluations, across functions, realms and collections",
  COMMON + "neither is used.",
  [L+"rjs_symbol.c", L+"rjs_symbol_object_inc.c", L+"rjs_template.c"], [("symbol registry", L+"rjs_symbol.c"), ("template cache", L+"rjs_template.c")],
  ["identity and contents"])

p("C35", "Calls bind this, arguments and new.target as prescribed",
  "Ordinary, method, bound, arrow, constructor, call/apply/Reflect.apply/Reflect.construct and getter/setter invocations receive the prescribed this (sloppy coercion included), arguments and new.target; bind composes and fixes its arguments; constructing yields the prescribed object and prototype, and calling a non-callable or constructing a non-constructor throws TypeError.",
  ["programs", "configurations"], "every composition of the call forms with every kind of function",
  COMMON + "bound functions, Reflect.construct and sloppy this do not occur.",
  [L+"rjs_bound_func_object_opt.c", L+"rjs_function_object_inc.c", L+"rjs_script_func_object.c", L+"rjs_reflect_object_inc.c"], [("bound function internal methods", L+"rjs_bound_func_object_opt.c"), ("this binding", L+"rjs_script_func_object.c")],
  ["received this, arguments, new.target"])

p("C36", "Number conversions and integer operators wrap and truncate exactly",
  "ToInt32/ToUint32-based operators (~ & | ^ << >> >>>), ToLength, ToIndex and ToIntegerOrInfinity clamping, integer-valued +, -, *, %, ** and comparison on integral Numbers of any representation, ++/--, parseInt and Number.prototype.toString with a radix give the exactly prescribed integer result wherever operands and result are integers below 2^53, -0, NaN and the infinities included.",
  ["inputs"], "all integral operands below 2^53 and the special values",
  COMMON + "a few small constants occur.",
  [L+"rjs_operation.c", "include/ratjs/rjs_operation.h", L+"rjs_number.c", L+"rjs_strtoi.c"], [("number fast paths and conversions", "include/ratjs/rjs_operation.h, " + L+"rjs_number.c")],
  ["results"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
