prop("C01", "Garbage collection is transparent to programs",
 "Whatever moments the collector runs at, a program that does not use weak references produces exactly the same sequence of observable effects, result and errors as when it never runs. No object that the program can still reach, directly or through a suspended generator, async function, pending job, environment, iterator or built-in operation in progress, is ever freed or altered by a collection.",
 ["schedules", "programs"],
 "every program and every set of allocation points at which a collection happens, including in the middle of any built-in operation, while generators and async functions are suspended and while jobs are pending",
 "The tests run short programs whose heap stays below the growth trigger, so they run with practically no collection; a missing root shows only when a collection falls between two particular allocations.",
 ["src/lib/rjs_gc.c", "src/lib/rjs_context.c", "src/lib/rjs_native_stack.c", "src/lib/rjs_object.c", "src/lib/rjs_generator_opt.c", "src/lib/rjs_async_function_opt.c", "src/lib/rjs_promise.c", "src/lib/rjs_job.c"],
 [("mark and sweep from the root set", "src/lib/rjs_gc.c gc_scan_root/gc_scan_things"), ("per-object scan functions", "op_gc_scan in every src/lib/*_opt.c and *_inc.c"), ("values rooted on the native stack", "src/lib/rjs_native_stack.c")],
 ["log of the program's effects", "AddressSanitizer report", "live allocations after teardown"],
 TECH % "collection points (each allocation is a point), compared with the same program run without collections",
 "Random and exhaustive-per-program collection schedules over a hand-written corpus that covers the built-ins and over generated programs; sampled, not exhaustive.")

prop("C02", "A runtime can be torn down at any point without leaks or memory errors",
 "A runtime can be destroyed after any prefix of a program's execution: with jobs pending, promises unsettled, generators and async functions suspended at any point, iterations unfinished and errors pending. Destruction frees every block, file, directory and converter obtained during the run and touches no freed memory.",
 ["crash_points", "programs", "schedules"],
 "every program, every point between two steps of the job loop and every failing host call at which the run is cut short and the runtime destroyed",
 "The tests always run to completion and never look at what is still allocated at exit.",
 ["src/lib/rjs_runtime.c", "src/lib/rjs_gc.c", "src/lib/rjs_generator_opt.c", "src/lib/rjs_job.c", "src/lib/rjs_context.c"],
 [("runtime destruction", "src/lib/rjs_runtime.c rjs_runtime_free"), ("op_gc_free of every object", "src/lib/*_opt.c"), ("release of suspended contexts", "src/lib/rjs_generator_opt.c")],
 ["wrapped allocator and stdio counters after rjs_runtime_free", "AddressSanitizer report"],
 TECH % "the point at which the run is cut and the host-call failures before it",
 "Seeded choice of cut point and faults over corpus and generated programs; every allocation and stdio resource is counted by wrapped allocators.")

prop("C03", "Weak references and finalization follow reachability",
 "A weak reference yields its target for as long as the target is strongly reachable and at least until the end of the job in which it was created or dereferenced; after its target was collected it yields undefined for ever. Each registration with a finalization registry has its callback called at most once, with its held value, only after its target became unreachable and only as a job of its own, never after being unregistered, and a registration whose target is dead and whose registry is alive is called after a collection; neither the registration, its held value nor its unregister token keeps the target alive.",
 ["histories", "schedules"],
 "every history of creating, linking, dropping, dereferencing, registering and unregistering objects, every placement of collections and job-loop turns in it",
 "The tests never collect between the steps, so no weak reference is ever cleared in them and no callback is ever called.",
 ["src/lib/rjs_weak_ref_opt.c", "src/lib/rjs_finalization_registry_opt.c", "src/lib/rjs_gc.c", "src/lib/rjs_job.c"],
 [("clearing of weak references whose base is unmarked", "src/lib/rjs_weak_ref_opt.c rjs_gc_scan_weak_refs/rjs_solve_weak_refs"), ("kept targets", "src/lib/rjs_weak_ref_opt.c rjs_weak_ref_keep"), ("queueing of cleanup callbacks", "src/lib/rjs_finalization_registry_opt.c rjs_solve_finalization_registry")],
 ["WeakRef.prototype.deref results", "order and arguments of cleanup callbacks", "AddressSanitizer report"],
 TECH % "object-graph histories and collection points, against an executable reachability model",
 "Histories of up to some dozens of operations with collections injected anywhere; a small model in Python decides what may and what must be observed.")

prop("C04", "Weak maps and weak sets lose exactly the dead keys",
 "A weak map entry is found with its value for as long as both the map and the key are reachable without going through that entry's own value, and values reachable only through live entries, in chains of any length over several maps and in cycles, stay intact. Entries whose key is unreachable, even when the key is reachable from its own value, keep neither key nor value alive.",
 ["histories", "schedules"],
 "every history of insertions, deletions, look-ups and dropped references over several weak maps, weak sets and objects, every placement of collections in it",
 "The tests do not collect between inserting and looking up, and the fix-point over dependent entries needs chains that no sample contains.",
 ["src/lib/rjs_weak_ref_opt.c", "src/lib/rjs_weak_map_object_inc.c", "src/lib/rjs_weak_set_object_inc.c", "src/lib/rjs_gc.c"],
 [("fix-point over weak map entries", "src/lib/rjs_weak_ref_opt.c rjs_gc_scan_weak_refs"), ("removal of dead entries", "src/lib/rjs_weak_ref_opt.c rjs_solve_weak_refs")],
 ["get/has/delete results", "weak references to keys and values", "AddressSanitizer report"],
 TECH % "object-graph histories and collection points, against an executable ephemeron reachability model",
 "As for weak references; the model computes ephemeron reachability at each collection.")

prop("C05", "Promises settle once and their jobs run in first-in first-out order",
 "A promise is settled at most once, and for every order in which the host settles external promises, reactions, thenable adoption and the all, allSettled, any and race combinators run exactly the callbacks the language standard prescribes, exactly once, with the prescribed values and in the prescribed order. Jobs run one at a time in the order they were queued, also when a job itself drives the job queue or a job or a callback throws.",
 ["schedules", "histories", "fault_sequences"],
 "every order of settling external promises, every nesting of reactions, thenables and combinators, every host callback that throws at any of its calls",
 "The tests settle their few promises in one fixed order; the ordering rules concern all interleavings of settlement and reaction.",
 ["src/lib/rjs_promise.c", "src/lib/rjs_promise_object_inc.c", "src/lib/rjs_job.c"],
 [("job queue", "src/lib/rjs_job.c rjs_job_enqueue/rjs_solve_jobs"), ("settlement and reactions", "src/lib/rjs_promise.c"), ("combinators", "src/lib/rjs_promise_object_inc.c")],
 ["log order of callbacks", "values and reasons", "job queue behaviour when driven from inside a job"],
 TECH % "settlement orders and failing callbacks, compared with an independent implementation and with a small job-queue model",
 "Generated promise networks with host-settled promises in seeded order, faults thrown by the n-th callback; Node 22 is the executable reference for the order of effects.")

prop("C06", "Async functions and async generators resume exactly as specified",
 "For every order in which awaited promises settle and every mix of next, throw and return requests, async functions, async arrow functions, async generators, for-await loops and delegating yields take exactly the steps the language standard prescribes: each resumption continues the right activation once, with the right value or error, finally blocks and iterator closing run exactly once, and queued requests are answered in order. An async activation always settles its promise when everything it awaits settles.",
 ["schedules", "programs", "fault_sequences"],
 "every program over these constructs, every settlement order and outcome, every host call that throws at any of its calls",
 "The tests contain a handful of async programs with one settlement order each; suspension inside nested constructs combined with rejection, return and throwing callbacks is not reached.",
 ["src/lib/rjs_async_function_opt.c", "src/lib/rjs_async_generator_object_inc.c", "src/lib/rjs_generator_opt.c", "src/lib/rjs_context.c", "src/lib/rjs_bc_call.c", "src/lib/rjs_code_gen_inc.c"],
 [("await and resumption", "src/lib/rjs_async_function_opt.c"), ("request queue of async generators", "src/lib/rjs_generator_opt.c"), ("saving and restoring of an activation", "src/lib/rjs_context.c")],
 ["log order of effects", "settlement values"],
 TECH % "settlement orders, resumption requests and failing host calls, compared with an independent implementation",
 "Generated programs over all suspending constructs; Node 22 is the executable reference.")

prop("C07", "Generators suspend and resume without disturbing any other activation",
 "A generator resumed by any interleaving of next, throw and return calls from any number of clients continues exactly where it stopped with its own variables, pending finally blocks, open iterations and half-evaluated expressions intact, and leaves those of the caller intact. Abrupt completion runs each enclosing finally block and closes each open iterator exactly once, innermost first; a finished generator stays finished and a running one rejects re-entry.",
 ["schedules", "programs", "fault_sequences"],
 "every program of interleaved generators, every interleaving of their resumptions, every host call that throws at any of its calls",
 "The tests drive one generator at a time with a fixed sequence of calls.",
 ["src/lib/rjs_generator_opt.c", "src/lib/rjs_generator_object_inc.c", "src/lib/rjs_context.c", "src/lib/rjs_bc_call.c"],
 [("saving and restoring of an activation", "src/lib/rjs_context.c"), ("generator state machine", "src/lib/rjs_generator_opt.c"), ("finally and iterator unwinding", "src/lib/rjs_bc_call.c")],
 ["log order of effects", "iterator results and errors"],
 TECH % "interleavings of resumptions and failing host calls, compared with an independent implementation",
 "Generated generator programs with seeded resumption sequences; Node 22 is the executable reference.")

prop("C08", "Modules link, evaluate and load consistently in every order of answers",
 "For every module graph, including cycles, star exports, namespaces, JSON modules and top-level await, and for every order in which the host answers load requests and awaited promises settle: each module is evaluated at most once and only after all it imports (cycles aside), bindings are live and resolve to exactly the declaration the standard prescribes, ambiguous or missing names are link errors before anything of that graph runs, and every dynamic import settles exactly once, with the same error on each import of a failed module. A failed load rejects exactly the imports that depend on it.",
 ["schedules", "programs", "fault_sequences"],
 "every module graph, every order of answers to load requests, every settlement order of awaited promises, every module that fails to load, to link or to evaluate",
 "The tests import one or two modules that load at once; cycles with awaits, overlapping imports of shared subgraphs and loads that fail or are answered late are not reached.",
 ["src/lib/rjs_module_opt.c", "src/lib/rjs_module_env_opt.c", "src/lib/rjs_module_ns_object_opt.c", "src/lib/rjs_async_function_opt.c"],
 [("loading of a graph", "src/lib/rjs_module_opt.c rjs_load_requested_modules and the host's load hooks"), ("linking and name resolution", "src/lib/rjs_module_opt.c inner_module_linking/module_resolve_export"), ("evaluation with top-level await", "src/lib/rjs_module_opt.c inner_module_evaluation/async module completion")],
 ["log order of module bodies", "settlement of import promises", "keys and values of namespaces", "errors"],
 TECH % "the order of load answers, load failures and settlement of awaited promises over generated module graphs, compared with an independent implementation, a small name-resolution model and history invariants",
 "Graphs of up to about ten modules; Node 22's vm.SourceTextModule is the executable reference where loads all succeed, an own model of export resolution and order invariants decide the rest.")

prop("C09", "A long-lived runtime does not grow when its work does not",
 "Running the same work again and again in one runtime, with a collection after each round, reaches a steady state: the number of live memory blocks, open files, directories and converters does not keep growing from round to round, also when host calls fail during the rounds.",
 ["histories", "programs", "fault_sequences"],
 "every program that leaves no reachable data behind, any number of rounds, every failing host call in them",
 "A test process runs its program once and exits, so anything that is retained until the runtime ends is invisible to it.",
 ["src/lib/rjs_gc.c", "src/lib/rjs_object.c", "src/lib/rjs_job.c", "src/lib/rjs_context.c", "src/lib/rjs_dtoa.c", "src/lib/rjs_realm.c"],
 [("freeing of unmarked things", "src/lib/rjs_gc.c"), ("release on error paths", "native stack state restore in every built-in")],
 ["live block counts after each round's collection"],
 TECH % "programs, rounds and failing host calls, with exact counters of live resources after each round",
 "Each program is run 8 times in one runtime; a case is reported only when growth continues over 40 rounds.")

prop("C10", "An error thrown by any host or user call unwinds cleanly and is reported",
 "When any getter, setter, callback, iterator step, proxy trap, comparator or conversion that a built-in or a language construct calls throws, exactly that error reaches the program, the effects up to that point are those the standard prescribes, open iterators are closed as prescribed, no further user code runs on behalf of the operation, and the engine remains usable. Nothing is leaked, no memory error occurs and no error is lost or appears out of nowhere.",
 ["fault_sequences", "programs"],
 "every built-in operation and language construct that calls user code, every call in it that throws, alone or in sequence",
 "The tests exercise successful calls; the error path after the n-th callback of each operation is not run.",
 ["src/lib/rjs_array_object_inc.c", "src/lib/rjs_iterator.c", "src/lib/rjs_bc_call.c", "src/lib/rjs_proxy_object_opt.c", "src/lib/rjs_error.c", "src/lib/rjs_native_stack.c"],
 [("propagation of RJS_ERR with the pending error", "src/lib/rjs_error.c"), ("iterator closing", "src/lib/rjs_iterator.c"), ("handler and finally unwinding", "src/lib/rjs_bc_call.c")],
 ["log of effects and errors", "live allocations after teardown", "AddressSanitizer report"],
 TECH % "which user calls throw, compared with an independent implementation running with the same faults",
 "One to four calls fail per run over a corpus covering the built-ins and generated programs; Node 22 with the same fault points is the reference.")

prop("C11", "Detaching a buffer at any moment never exposes freed memory",
 "A buffer may be detached by any callback, conversion, getter or species constructor that runs inside an operation on it. From that moment every typed array and data view on it has length zero and no elements, the operation in progress either throws or carries on exactly as the standard prescribes, and no operation reads or writes the released memory, writes into another buffer, or loses an error.",
 ["schedules", "programs"],
 "every operation of array buffers, typed arrays, data views and atomics, every user call made inside it at which any of the buffers is detached, every placement of collections",
 "The tests never detach a buffer inside an operation; each operation has several such moments and each needs its own check.",
 ["src/lib/rjs_array_buffer_opt.c", "src/lib/rjs_array_buffer_object_inc.c", "src/lib/rjs_typed_array_object_inc.c", "src/lib/rjs_int_indexed_object_opt.c", "src/lib/rjs_data_view_object_inc.c", "src/lib/rjs_atomics_object_inc.c"],
 [("detaching", "src/lib/rjs_array_buffer_opt.c rjs_detach_array_buffer"), ("validity checks after user calls", "src/lib/rjs_typed_array_object_inc.c"), ("element access", "src/lib/rjs_int_indexed_object_opt.c")],
 ["log of effects, results, errors and buffer contents", "AddressSanitizer report"],
 TECH % "the user call at which a buffer is detached, compared with an independent implementation detaching at the same call",
 "Generated programs over all operations of these objects; one to four detachments per run at chosen user calls; Node 22 is the executable reference.")

prop("C12", "Changing a collection while it is being walked follows the standard",
 "Callbacks, comparators, getters, conversions and iterator steps may add, remove, replace or reconfigure elements of the very array, map, set or object that the operation in progress walks over. The operation then visits exactly the elements the standard prescribes, reads and writes each property exactly as often and in the order prescribed, and leaves exactly the prescribed contents; iterators stay valid through deletion, clearing and rehashing, and an exhausted iterator stays exhausted.",
 ["schedules", "programs", "fault_sequences"],
 "every walking operation of arrays, maps, sets, objects, regular expressions and JSON, every user call made inside it, every change made at that call",
 "The tests walk over collections that nobody changes; what happens depends on the pair of operation and change and on the moment between them.",
 ["src/lib/rjs_array_object_inc.c", "src/lib/rjs_array.c", "src/lib/rjs_hash_object_inc.c", "src/lib/rjs_map_object_inc.c", "src/lib/rjs_set_object_inc.c", "src/lib/rjs_json_opt.c", "src/lib/rjs_regexp_object_inc.c", "src/lib/rjs_object.c"],
 [("array methods", "src/lib/rjs_array_object_inc.c"), ("hash iterators surviving deletion", "src/lib/rjs_hash_object_inc.c"), ("property enumeration", "src/lib/rjs_native_stack.c")],
 ["log of user calls with their arguments", "contents, attributes and order of properties after each operation", "AddressSanitizer report"],
 TECH % "the user calls at which a collection changes and the change made there, compared with an independent implementation making the same changes at the same calls",
 "Generated programs with up to six operations and six different changes at up to five user calls each; Node 22 is the executable reference.")

prop("C13", "Operations of several agents on shared memory are linearizable",
 "However the agents that share a buffer are scheduled, every atomic operation on it takes effect as a whole at one moment between its call and its return, on every integer element type and at every alignment, all agents see these effects in one order, and plain integer element accesses of up to four bytes, fills and copies never observe or produce a torn element. No update is lost, no access reaches outside the buffer, and agents never deadlock.",
 ["schedules", "programs", "histories"],
 "every mix of operations of up to four agents on overlapping elements of one shared buffer, every interleaving at the granularity of single memory accesses",
 "The tests run one agent; a lost or torn update needs another agent to be scheduled between two particular memory accesses.",
 ["src/lib/rjs_atomics_object_inc.c", "src/lib/rjs_data_block_opt.c", "src/lib/rjs_array_buffer_opt.c", "src/lib/rjs_int_indexed_object_opt.c"],
 [("read-modify-write operations", "src/lib/rjs_atomics_object_inc.c"), ("locking of shared data blocks", "src/lib/rjs_data_block_opt.c rjs_data_block_lock"), ("raw element access", "src/lib/rjs_array_buffer_opt.c rjs_get_value_from_buffer")],
 ["invocation and return of each operation with its result", "data races on and off the buffer", "final bytes"],
 TECH % "interleavings of several agents at every shared memory access, judged by a linearizability search over the recorded history and a happens-before race detector",
 "Two to four agents with up to seven operations each on one or two 8-byte words; switches are seeded at every access to memory that two agents use.")

prop("C14", "Atomics.wait and Atomics.notify lose no wake-up and invent none",
 "An agent sleeps in Atomics.wait only if the element still holds the expected value, and from then on until it is notified or its time-out has fully passed: it reports \"ok\" exactly when a notify counted it, \"timed-out\" only when none did and the requested time has elapsed, and \"not-equal\" without sleeping. Notify wakes the longest waiting agents of exactly that location, at most as many as asked for, and returns how many. Spurious wake-ups, wall-clock changes and slow scheduling change none of this, and every wait with a finite time-out returns.",
 ["schedules", "programs", "histories", "fault_sequences"],
 "every mix of waits, notifies and stores of up to five agents on the same and on overlapping locations, every interleaving, time-out expiry moment, spurious wake-up and jump of the wall clock",
 "The tests run one agent and never wait; races between notify, time-out and wake-up need a particular schedule.",
 ["src/lib/rjs_atomics_object_inc.c", "src/lib/rjs_data_block_opt.c"],
 [("wait and notify", "src/lib/rjs_atomics_object_inc.c Atomics_wait/Atomics_notify"), ("waiter queues", "src/lib/rjs_data_block_opt.c rjs_add_waiter/rjs_notify_waiter")],
 ["results of wait and notify", "simulated time spent in each wait", "agents asleep at the end"],
 TECH % "interleavings of agents, time-out expiry, spurious wake-ups and wall-clock jumps, judged by a search for an order explained by a first-in-first-out queue model",
 "Two to five agents with up to six operations each; simulated clocks and condition variables.")

prop("C15", "Runtimes in one process are independent; shared buffers outlive creators",
 "Any number of runtimes may be created, used and destroyed concurrently in one process, also at once when the process starts. What a program computes never depends on what other runtimes do at the same time, except through buffers it shares with them; a shared buffer and its content stay valid for as long as any runtime or the host refers to it, whichever runtime created it and in whatever order the references are dropped, and it is freed exactly when the last reference goes. No data race, use of freed memory, leak or deadlock occurs.",
 ["schedules", "programs", "histories"],
 "every set of programs of up to four runtimes handing buffers to each other, every interleaving, every order of runtime creation and destruction and of dropped references",
 "The tests use one runtime on one thread per process.",
 ["src/lib/rjs_runtime.c", "src/lib/rjs_data_block_opt.c", "src/lib/rjs_dtoa.c", "src/lib/rjs_log.c"],
 [("one-time initialization", "src/lib/rjs_runtime.c rjs_runtime_new"), ("reference counts of data blocks", "src/lib/rjs_data_block_opt.c rjs_data_block_ref/unref"), ("global tables of number conversion", "src/lib/rjs_dtoa.c")],
 ["log of each agent", "allocator counters", "data races, accesses to freed memory"],
 TECH % "interleavings of several runtimes at every shared memory access and lock, compared with the same programs run one after another",
 "Two to four agents, up to three runtimes in succession each, cold and warm process start.")

prop("C16", "File and directory operations report every failure and lose no data",
 "Every operation of the File, Dir and FileState extension objects either has exactly the effect its documentation gives on the file system and on the stream's position, and returns the described value, or throws an error (or returns its documented failure value) and leaves the stream usable as documented; this holds for every sequence of operations, short reads and writes, and errors of open, read, write, seek, close, directory and path calls and full disks. No error is taken for the end of a file or directory, no failed write is reported as a success, data written before a close that succeeded can be read back unchanged in every supported encoding, an operation on a closed file or directory throws, and every file and directory handle is released at the latest when the runtime is destroyed.",
 ["histories", "fault_sequences"],
 "every sequence of operations on several files and directories, every placement of I/O errors, short transfers, full disks and collections in it, every stream buffer size",
 "The tests do not use the extension objects and never make a system call fail.",
 ["src/lib/rjs_extension_opt.c", "src/lib/rjs_string.c", "src/lib/rjs_conv.c"],
 [("File, Dir and FileState methods", "src/lib/rjs_extension_opt.c"), ("whole-file loading and storing", "src/lib/rjs_extension_opt.c File.loadString/storeString/loadData/storeData"), ("character conversion", "src/lib/rjs_conv.c")],
 ["return values and errors of the operations", "contents of the file system afterwards", "open handles after teardown"],
 TECH % "operation histories and I/O faults, against an executable model of the file system and its streams",
 "Histories of up to some dozens of operations on an in-memory file system with injected errors; after a fault whose effect POSIX leaves open, the model accepts every permitted outcome.")

prop("C17", "Source files are loaded completely or not at all, whatever the I/O does",
 "The command line program runs exactly the text of the files it is given: included scripts (-i), preloaded modules (-l), the program as module, as script (-s) or as text (-e), and every module they import statically or dynamically, from the importing file's directory or the module directories (-m, addModuleDirectory). How the bytes arrive, in reads and buffers of any size and split inside characters, makes no difference. Each file is loaded once and shared, evaluated once in dependency order, and a file that cannot be found, opened, read or parsed fails as a whole: nothing of a static module graph it belongs to is run, a dynamic import of it rejects with an error, and later imports of other files are not affected. The exit code is what main returns (a number, or a promise's value), 0 without one, and 1 after an uncaught error; all memory and handles are released at exit.",
 ["fault_sequences", "inputs", "schedules"],
 "every module graph and option list, every placement of open, read, close and path-resolution errors and short reads, every stream buffer size, every placement of collections",
 "The tests load small files from a disk that never fails and never returns less than was asked for.",
 ["src/exe/rjs_main.c", "src/lib/rjs_input.c", "src/lib/rjs_conv.c", "src/lib/rjs_module_opt.c", "src/lib/rjs_string.c"],
 [("option handling, module lookup and loading", "src/exe/rjs_main.c"), ("file input", "src/lib/rjs_input.c"), ("loading of requested modules", "src/lib/rjs_module_opt.c rjs_module_load_requested")],
 ["standard output", "exit code", "live allocations and handles at exit"],
 TECH % "command lines, module graphs, I/O faults, read sizes and collection points, against an executable model of loading and evaluation",
 "Generated command lines over up to ten files on an in-memory file system; the model decides which outputs the faults that hit each file permit.")

prop("C18", "A refused or absurdly large memory request is reported and harms nothing",
 "When the system refuses memory for data whose size the program chooses (strings, array buffers, regular expression and number results), or when a program asks for sizes, counts or positions no memory could hold, the operation throws an error of the kind the standard provides for it and everything else stays as it was: values computed before and after are exactly those of an execution with unlimited memory, nothing is read or written out of bounds, nothing is leaked, and the runtime remains usable. Where the engine cannot go on it ends the process in an orderly way; it never continues with a missing block.",
 ["fault_sequences", "inputs", "histories"],
 "every program of string, buffer and array operations, every choice of refused requests above a size, every size, count and position argument up to beyond 2^64",
 "Memory is never refused while the tests run, and none of them asks for impossible sizes.",
 ["src/lib/rjs_mem.c", "src/lib/rjs_string.c", "src/lib/rjs_string_object_inc.c", "src/lib/rjs_uchar_buffer.c", "src/lib/rjs_data_block_opt.c", "src/lib/rjs_array_buffer_opt.c", "src/lib/rjs_typed_array_object_inc.c"],
 [("allocation", "src/lib/rjs_mem.c"), ("string building", "src/lib/rjs_string.c"), ("buffer allocation", "src/lib/rjs_data_block_opt.c"), ("typed array search and fill", "src/lib/rjs_typed_array_object_inc.c")],
 ["result or error of every operation", "live allocations at exit"],
 TECH % "programs and refused memory requests, each operation compared with the reference execution in which nothing is refused",
 "Requests above 30-100 KB are refused at seeded points; an operation during which one was refused may throw, every other must give the reference's result.")

prop("C19", "A name means the binding the standard gives it, whatever happened before",
 "Every read, write, typeof, call and delete of a name finds exactly the binding the scoping rules of the standard give at that moment, also when direct eval declares or deletes variables and functions, when with objects and the global object gain and lose properties, when the same code runs again in other surroundings, when closures and suspended generators outlive or predate these changes, and when calls fail or collections happen in between. What was looked up or cached earlier never shows.",
 ["programs", "histories", "fault_sequences", "schedules"],
 "every nesting of scopes, every order of declarations, deletions, accesses and re-entries, every failing call and placement of collections",
 "The tests run each piece of code once in one surrounding; a stale cached binding needs the same code to meet two.",
 ["src/lib/rjs_environment.c", "src/lib/rjs_decl_env.c", "src/lib/rjs_global_env.c", "src/lib/rjs_object_env.c", "src/lib/rjs_eval_opt.c", "src/lib/rjs_operation.c"],
 [("resolution and its cache", "src/lib/rjs_operation.c rjs_resolve_binding"), ("binding lookup by cached index", "src/lib/rjs_decl_env.c rjs_decl_env_lookup_binding"), ("declarations of eval", "src/lib/rjs_eval_opt.c")],
 ["log of every access", "error kinds", "live allocations at exit"],
 TECH % "programs, failing calls and collection points, every access compared with an independent implementation running the same history",
 "Generated sloppy and strict programs over a few names; assignment to constants and Annex B catch-parameter variables are left out.")

prop("C20", "Every object stays one consistent map of properties, whatever has happened",
 "After any history of reads, writes, definitions, deletions, length changes, array methods, prototype changes, sealing and freezing, each object (plain, array, sparse array, subclass, arguments, String object, typed array, proxy with or without lying traps) has exactly the keys, in the order, with the values and attributes, that the standard gives for that history, and each operation has the result or error it prescribes: the invariants of non-extensible objects, non-configurable properties and array lengths hold always, also when a conversion, accessor or trap in the middle of an operation throws or changes the object, and however the storage is converted between dense and sparse on the way.",
 ["histories", "fault_sequences", "programs"],
 "every sequence of property operations over objects of every storage kind, every failing user call inside them and placement of collections",
 "The tests look at single operations on fresh objects; storage conversions and stale attributes show after particular sequences only.",
 ["src/lib/rjs_object.c", "src/lib/rjs_array.c", "src/lib/rjs_primitive_object.c", "src/lib/rjs_proxy_object_opt.c", "src/lib/rjs_int_indexed_object_opt.c", "src/lib/rjs_array_object_inc.c", "src/lib/rjs_operation.c"],
 [("property storage", "src/lib/rjs_object.c prop_array_fixup"), ("validation of definitions", "src/lib/rjs_object.c validate_and_apply_property"), ("array length", "src/lib/rjs_array.c array_set_length"), ("proxy invariants", "src/lib/rjs_proxy_object_opt.c")],
 ["result of every operation", "whole state of objects (keys in order, descriptors)", "trap calls", "error kinds", "live allocations at exit"],
 TECH % "histories of property operations, failing calls and collection points, results and states compared with an independent implementation running the same history",
 "Histories of 6-40 operations on 1-3 objects; places where the reference deviates from the standard (frozen or sealed element kinds, mapped arguments, typed arrays as prototypes) are left out.")

PURE = "a pure function of its input: no schedule, clock, I/O, fault or interleaving can change the outcome, so there is nothing for a simulator to decide; "
prop("C40", "Source text is parsed and compiled to the meaning the standard gives it",
 "Every syntactically valid program is accepted and every straight-line evaluation of it has the meaning the language standard prescribes; every invalid one is rejected with an early error before any of it runs.",
 ["programs"], "every source text", "The tests sample a few programs.",
 ["src/lib/rjs_parser.c", "src/lib/rjs_code_gen_inc.c", "src/lib/rjs_lex.c"], [("parser and code generator", "src/lib/rjs_parser.c")], ["evaluation result"],
 na=PURE + "the parts of evaluation that meet suspension, faults or collections are claimed as other properties")
prop("C41", "Number and text conversions are exact",
 "Converting a number to text and back in any radix or format, and parsing any numeric text, gives exactly the value the language standard prescribes.",
 ["inputs"], "every number and numeric text", "The tests sample a few values.",
 ["src/lib/rjs_dtoa.c", "src/lib/rjs_number_object_inc.c", "src/lib/rjs_big_int_internal_opt.c"], [("shortest conversion", "src/lib/rjs_dtoa.c")], ["string and number results"],
 na=PURE + "differential or property-based testing is the right family")
prop("C42", "Regular expressions match what the standard says",
 "For every pattern, flag set and subject, matching returns exactly the match, captures and last index that the standard prescribes.",
 ["inputs"], "every pattern and subject", "The tests sample a few patterns.",
 ["src/lib/rjs_regexp.c", "src/lib/rjs_regexp_object_inc.c"], [("backtracking matcher", "src/lib/rjs_regexp.c")], ["match results"],
 na=PURE + "differential or property-based testing is the right family")
prop("C43", "JSON text and values convert into each other faithfully",
 "Parsing accepts exactly the JSON grammar and yields the described value; serialising any value and parsing it again yields an equal value.",
 ["inputs"], "every JSON text and value", "The tests sample a few values.",
 ["src/lib/rjs_json_opt.c"], [("parser and serialiser", "src/lib/rjs_json_opt.c")], ["values and text"],
 na=PURE + "the calls JSON makes back into user code are covered by C10")
prop("C44", "Generated native bindings convert every C type correctly",
 "For every C header accepted by the binding generator, the generated module converts arguments, results, structures, arrays and enumerations between C and the script without loss.",
 ["programs", "inputs"], "every header and value", "The 59 tests are exactly a sample of this property.",
 ["module/njsgen", "njs/njsgen_test.json", "src/lib/rjs_native_object.c"], [("code generator", "module/njsgen")], ["values seen on both sides"],
 na=PURE + "the existing tests sample it; there is no schedule or fault in it")
