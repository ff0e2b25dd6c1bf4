# What each check runs: worlds (name, weight, options) and what the evidence says about it.
PROPS = {
 "C03": {"worlds": [("map", 1, ())], "level": "exploration",
         "rule": "runs in which an allocation failed inside an operation or several holders shared a map, counted once per distinct sequence of (operation, outcome, holders)",
         "real": ["handlebars_map.c", "handlebars_string.c", "handlebars_value.c (iteration)"], "stub": ["allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)"]},
 "C01": {"worlds": [("session", 1, ("oom=1",))], "level": "exploration",
         "rule": "runs in which an allocation failed inside an operation or an operation failed on its input, counted once per distinct sequence of (operation, fault kind, error message)",
         "real": ["lexer", "parser", "whitespace control", "compiler", "serializer", "printers", "VM", "helpers", "JSON and YAML input", "values, strings, maps, stacks", "talloc"], "stub": ["allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)", "helpers, logger and user data provider (harness)"]},
 "C02": {"worlds": [("session", 1, ())], "level": "exploration",
         "rule": "runs in which at least one operation of the history failed (allocation, helper, data provider or input), counted once per distinct sequence of (operation, fault kind, error message)",
         "real": ["lexer", "parser", "whitespace control", "compiler", "serializer", "printers", "VM", "helpers", "JSON and YAML input", "values, strings, maps, stacks", "talloc"], "stub": ["allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)", "helpers, logger and user data provider (harness)"]},
 "C16": {"worlds": [("render", 1, ("providers=1",))], "level": "exploration",
         "rule": "runs in which a provider access or a helper call failed, a helper ran or the render failed, counted once per distinct sequence of (error, number of calls, output)",
         "real": ["lexer", "parser", "compiler", "serializer", "VM", "built-in helpers", "JSON provider", "YAML conversion", "values"], "stub": ["user-defined data provider (harness, fails at the chosen access)", "helpers and logger (harness)"]},
 "C17": {"worlds": [("render", 1, ())], "level": "exploration",
         "rule": "runs in which a helper ran, a call failed or the render failed, counted once per distinct sequence of (error, number of calls, output)",
         "real": ["lexer", "parser", "compiler", "serializer", "VM", "built-in helpers", "values", "partials"], "stub": ["helpers, function values and logger (harness, fail at the chosen call)"]},
 "C19": {"worlds": [("render", 1, ("delims=1",))], "level": "exploration",
         "rule": "runs in which a helper or lambda ran, a call failed or the render failed, counted once per distinct sequence of (error, number of calls, output)",
         "real": ["handlebars_delimiters.c", "lexer", "parser", "AST printer (template text)", "compiler", "serializer", "VM", "built-in helpers", "values", "partials"], "stub": ["helpers, lambdas and logger (harness, fail at the chosen call)"]},
 "C20": {"worlds": [("locate", 1, ())], "level": "exploration",
         "rule": "runs in which an error with or without a place was due or an allocation failed, counted once per distinct sequence of (error, has a place, message)",
         "real": ["lexer", "parser", "whitespace control", "compiler", "serializer", "VM", "built-in helpers", "error texts"], "stub": ["allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)", "helpers and logger (harness, fail at the chosen call)"]},
 "C04": {"worlds": [("values", 1, ())], "level": "exploration",
         "rule": "runs in which an operation failed or several tracked objects were involved, counted once per distinct sequence of (operation, operand types, outcome)",
         "real": ["handlebars_value.c", "handlebars_stack.c", "handlebars_map.c", "handlebars_string.c", "handlebars_closure.c", "handlebars_ptr.c"], "stub": ["allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)", "user objects and pointers (harness, tracked)"]},
 "C05": {"worlds": [("strings", 1, ())], "level": "exploration",
         "rule": "runs in which an allocation failed inside an operation or several holders were involved, counted once per distinct sequence of (operation, outcome, holders, moved or in place)",
         "real": ["handlebars_string.c", "handlebars_value.c (text of a value)", "talloc"], "stub": ["allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)"]},
 "C06": {"worlds": [("values", 1, ("focus=life",)), ("render", 1, ("life=1",))], "level": "exploration",
         "rule": "runs in which an operation or call failed or several tracked objects were involved, counted once per distinct sequence of (operation, operand types, outcome) or of (error, number of calls, output)",
         "real": ["handlebars_value.c", "handlebars_stack.c", "handlebars_map.c", "handlebars_closure.c", "handlebars_ptr.c", "lexer", "parser", "compiler", "VM", "built-in helpers"], "stub": ["allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)", "user objects and pointers (harness, tracked)", "helpers (harness, fail at the chosen call)"]},
 "C07": {"worlds": [("cache", 1, ("kind=simple",))], "level": "exploration",
         "rule": "runs in which a fault was injected, an entry was evicted or expired, or the cache was reopened, counted once per distinct sequence of (operation, outcome)",
         "real": ["handlebars_cache.c", "handlebars_cache_simple.c", "handlebars_map.c", "lexer", "parser", "compiler", "serializer", "VM"], "stub": ["clock (simulated)", "allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)"]},
 "C08": {"worlds": [("cache", 1, ("kind=mmap",))], "level": "exploration",
         "rule": "runs in which a fault was injected, the segment was reset or the cache was reopened, counted once per distinct sequence of (operation, outcome)",
         "real": ["handlebars_cache.c", "handlebars_cache_mmap.c", "real shared memory and page protection", "lexer", "parser", "compiler", "serializer", "VM"], "stub": ["clock and usleep (simulated)", "mprotect (failure injection in front of the real call)"]},
 "C10": {"worlds": [("cache", 1, ("kind=lmdb",))], "level": "exploration",
         "rule": "runs in which a fault was injected, a process was killed, a record was damaged, an entry was collected or the cache was reopened, counted once per distinct sequence of (operation, outcome)",
         "real": ["handlebars_cache.c", "handlebars_cache_lmdb.c", "LMDB on a real file", "real processes and SIGKILL", "lexer", "parser", "compiler", "serializer", "VM"], "stub": ["clock (simulated)", "LMDB calls (failure injection in front of the real calls)", "allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)"]},
 "C18": {"worlds": [("limits", 1, ())], "batch": 40, "level": "exploration",
         "rule": "runs in which a limit was reached or an allocation or helper failed, counted once per distinct sequence of (operation, size, error, limit reached)",
         "real": ["lexer", "parser", "compiler", "serializer", "handlebars_vm.c", "handlebars_stack.c", "handlebars_helpers.c", "AST printer"], "stub": ["allocator (failure injection in front of talloc)", "helpers and data provider (harness)"],
         "assumptions": ["a stack of 8 MB (64 MB for the instrumented simulator)"]},
 "C09": {"worlds": [("mmapc", 1, ())], "variant": "tsim", "batch": 2000, "level": "exploration",
         "rule": "runs in which the scheduler switched between tasks, a task was stalled or killed or mprotect failed, counted once per distinct sequence of (operation, task, outcome) with number of switches",
         "real": ["handlebars_cache.c", "handlebars_cache_mmap.c", "handlebars_opcode_serializer.c", "VM (executing the modules found)"], "stub": ["thread and process scheduling (seeded scheduler, switch points at every access)", "spinlock, usleep, sched_yield", "per-process page protection (simulated at every access)", "clock (simulated)"],
         "assumptions": ["sequentially consistent memory"]},
 "C11": {"worlds": [("cached", 2, ("kind=simple",)), ("cached", 2, ("kind=mmap",)), ("cached", 1, ("kind=lmdb",))], "level": "exploration",
         "rule": "runs in which a fault was injected, a helper ran in the middle of a render, or an entry was evicted or expired, counted once per distinct sequence of (operation, outcome)",
         "real": ["handlebars_vm.c", "handlebars_cache.c", "handlebars_cache_simple.c", "handlebars_cache_mmap.c", "handlebars_cache_lmdb.c", "LMDB on a real file", "real shared memory and page protection", "lexer", "parser", "compiler", "serializer"], "stub": ["clock and usleep (simulated)", "LMDB calls and mprotect (failure injection in front of the real calls)", "allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)", "helpers (harness)"]},
 "C14": {"worlds": [("threads", 1, ())], "variant": "tsim", "batch": 100, "level": "exploration",
         "rule": "runs in which the scheduler switched between threads or an operation failed by injection, counted once per distinct sequence of (operation, fault, failed) with number of switches",
         "real": ["lexer", "parser", "compiler", "serializer", "printers", "VM", "helpers", "JSON and YAML input", "values, strings, maps, stacks", "caches of each thread", "talloc"], "stub": ["thread scheduling (seeded scheduler)", "allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)", "helpers, logger and user data provider (harness)"],
         "assumptions": ["sequentially consistent memory"]},
 "C12": {"worlds": [("loader", 1, ())], "level": "exploration",
         "rule": "runs in which opening, seeking or reading a file failed or was short, an allocation or helper failed, counted once per distinct sequence of (error, files opened, fault, partials loaded)",
         "real": ["handlebars_partial_loader.c", "real files", "lexer", "parser", "compiler", "VM", "maps and iteration of the loader"], "stub": ["fopen/fclose (failure injection in front of the real calls, stdio streams whose reads and seeks fail)", "allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)", "helpers (harness, fail at the chosen call)"]},
 "C13": {"worlds": [("cli", 1, ())], "level": "exploration",
         "rule": "runs in which a read, write or allocation failed, counted once per distinct sequence of (mode, exit status, fault kind, output)",
         "real": ["bin/handlebarsc.c", "handlebars_partial_loader.c", "lexer", "parser", "printers", "compiler", "serializer", "VM", "JSON and YAML input", "stdio", "getopt", "real files"], "stub": ["standard streams and files (stdio streams whose reads, writes, seeks and opens fail)", "allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)", "process start and exit (the program's variables are reset, exit() returns to the simulator)"]},
 "C15": {"worlds": [("module", 1, ())], "batch": 500, "level": "exploration",
         "rule": "runs in which the store damaged, tore, lost or misplaced a module, or a module was executed where it lies, counted once per distinct sequence of (module, outcome, fault kind, modules loaded)",
         "real": ["handlebars_opcode_serializer.c", "lexer", "parser", "compiler", "VM executing modules in read-only pages"], "stub": ["store of modules (simulated: torn, lost and misplaced writes, flipped, zeroed, cut and added bytes)", "allocator (failure injection in front of talloc and of the allocation calls of libyaml, LMDB and json-c's parser)", "helpers (harness, fail at the chosen call)", "clock (simulated)"]},
}
