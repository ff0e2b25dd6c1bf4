# Text of the properties and of the manifest entries; gen.py writes properties.jsonl and MANIFEST.json from it.
TECH = "deterministic simulation with fault injection: "
HOOKS = None
NOTES = ("All seams are link-time (--wrap) or the function pointers / callback interfaces the library already has; /repo carries no hooks, only fix: commits. "
         "One seed is one repeatable run; see DESIGN.md.")
NOT_APPLICABLE = {}
PROPERTIES = []


def P(id, title, statement, over, text, why, files, mechanism, observe, technique, level_note, state=(), hook=None):
    PROPERTIES.append({"id": id, "title": title, "statement": statement,
                       "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                       "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                                   "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                                   "observe_at": observe, "hook_needed": hook},
                       "technique": TECH + technique, "level_note": level_note})


P("C01", "Running out of memory ends an operation cleanly",
  "When any allocation fails during lexing, parsing, compiling, serialising, printing, rendering, delimiter preprocessing, JSON or YAML input or dumping a value, the operation either ends with HANDLEBARS_NOMEM in the context or gives exactly the result it gives without the failure: no crash, no invalid memory access, no truncated or different output, no helper call that would not have been made. Afterwards the same context and VM give correct results, and nothing outlives the context, memory of the JSON and YAML parsers included.",
  ["inputs", "fault_sequences", "histories"],
  "every template, flag set and data, every single allocation, burst of allocations or permanent failure from any allocation on, at any point of a history of operations on one context",
  "The tests fail one allocation in a handful of constructors; the thousands of allocation sites reached by real templates, and what the context can still do afterwards, are not sampled.",
  ["src/handlebars.h", "src/handlebars.c", "src/handlebars_string.c", "src/handlebars_compiler.c", "src/handlebars_opcode_serializer.c", "src/handlebars_vm.c", "src/handlebars_value.c", "src/handlebars_json.c", "src/handlebars_yaml.c", "src/handlebars_memory.c"],
  [("HANDLEBARS_MEMCHECK / MC on every allocation, longjmp to the API boundary", "src/handlebars.h"), ("API boundaries that catch and report", "src/handlebars_vm.c, src/handlebars_parser.c, src/handlebars_compiler.c")],
  ["handlebars_error_num", "handlebars_error_msg", "results of the operations"],
  "allocation failures injected at seeded points of seeded operation histories, compared with the same operation in a fresh context",
  "Seeded search with address checking; failing allocation chosen uniformly over all the operation makes, plus bursts and permanent failure, including those inside libyaml and of json-c's parser object. Allocations inside libc, the rest of json-c (which ignores its own failures) and the bison stack are not failed. Sampling, not proof.",
  [("handlebars_context.e", "error number, message, location and jump target", "src/handlebars.h")])

P("C02", "A failed operation leaves the context and VM usable",
  "After any history of operations on one context and one VM, some of which failed (allocation failure, failing helper, failing data provider, syntax or compile error, broken JSON or YAML), every further operation gives the result, error, error location and helper calls that it gives in a fresh context. Nothing allocated by the history outlives the context.",
  ["histories", "fault_sequences"],
  "every sequence of lex, parse, compile, serialise, render, JSON, YAML and delimiter operations on a shared context and VM, every compiler flag set, every failure kind at any point",
  "Tests use a fresh context per case, and after an expected failure they throw it away.",
  ["src/handlebars_vm.c", "src/handlebars_parser.c", "src/handlebars_compiler.c", "src/handlebars.c", "src/handlebars_helpers.c", "src/handlebars_partials.h", "src/handlebars_yaml.c", "src/handlebars_json.c"],
  [("saved and restored jump targets and VM stacks", "src/handlebars_vm.c"), ("error state in the context", "src/handlebars.c")],
  ["handlebars_error_num", "handlebars_error_loc", "handlebars_vm_execute"],
  "seeded operation histories with mixed faults, every operation compared with the same operation in a fresh context",
  "Seeded search over histories of up to 8 operations. A compiler is used for one template, as its interface requires. Sampling, not proof.",
  [("handlebars_vm stacks, depth, buffer, data", "state of the running render", "src/handlebars_vm.c")])

P("C03", "Maps behave as insertion-ordered copy-on-write dictionaries",
  "A map shows exactly the entries its holder's own history of add, update, remove, sort, copy, compact and rehash operations produced, in insertion order, by lookup, by iteration and by count, for every key including hash collisions. An operation through one holder never changes what another holder of the same map sees. A change made while the map is walked takes effect in the walk, or is refused with an error and changes nothing, and never changes another holder. An operation in which an allocation fails reports out of memory and changes nothing.",
  ["histories", "fault_sequences"],
  "every sequence of map operations by up to three holders, over key sets with full hash collisions, empty and binary keys, every capacity and load factor reached on the way, with an allocation failure at any point of any operation",
  "The tests insert, find and remove fixed sequences in one map with no collisions and no shared holders, and never fail an allocation inside a map operation.",
  ["src/handlebars_map.c", "src/handlebars_map.h", "src/handlebars_string.c"],
  [("robin-hood hash table with tombstones and rehash", "src/handlebars_map.c"), ("separation of shared maps before a write", "src/handlebars_map.c")],
  ["handlebars_map_find", "handlebars_map_foreach", "HANDLEBARS_VALUE_FOREACH_KV"],
  "seeded map histories with allocation faults against an insertion-ordered reference model",
  "Seeded search over operation histories of up to 160 operations and allocation failures; the model is a vector of pairs compared in full after every operation. Sampling, not proof.",
  [("handlebars_map.table/vec", "hash table and insertion-ordered entries", "src/handlebars_map.c")])

P("C04", "Values behave as independent values however they share storage",
  "Assigning, storing, updating or removing through one value never changes what any other value shows, although arrays, maps, strings and closures share storage until they are written: pushing, setting, popping, updating, removing, converting and iterating give what they would give on deep copies, including when a value is stored in itself, when the stored value lives inside the container that is being changed, and when a map is updated while it is being iterated. Lookup, iteration, count, truth, comparison and text of a value agree with its content. An operation that fails (allocation, bounds) changes no value.",
  ["histories", "fault_sequences"],
  "every sequence of operations over five values that share nested arrays, maps, strings, user objects and closures, with an allocation failure at any point",
  "Tests build a value, read it back and drop it; they never change one of several values sharing the same storage, alias a container with its own element, or fail an allocation half way through.",
  ["src/handlebars_value.c", "src/handlebars_stack.c", "src/handlebars_map.c", "src/handlebars_closure.c", "src/handlebars_rc.h"],
  [("separation of shared stacks and maps before a write", "src/handlebars_stack.c, src/handlebars_map.c"), ("reference counted assignment", "src/handlebars_value.c handlebars_value_value")],
  ["handlebars_value_iterator_next", "handlebars_value_map_find", "handlebars_value_array_find", "handlebars_value_expression"],
  "seeded histories over values sharing storage, with allocation faults, against a reference model with value semantics",
  "Seeded search over histories of up to 140 operations; all five values are compared in full with the model after every operation. Sampling, not proof.",
  [("handlebars_stack.rc / handlebars_map.rc", "number of holders sharing the storage", "src/handlebars_rc.h")])

P("C05", "Shared strings are never changed under another holder",
  "Every operation on a string (append, formatted append, HTML escape, indent, trim, truncate, compact, extend, replace, reduce, slash escapes, implode) gives exactly the text its definition gives, keeps the string terminated and its hash equal to the hash of its content, and leaves every other holder of the same string unchanged. When an allocation fails inside it, the string and all its references are as before.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of string operations by up to six holders sharing strings, over texts with NUL, control and non-ASCII bytes, reference counts up to saturation, with an allocation failure at any point of any operation",
  "Tests call each function once on an unshared string with room to spare.",
  ["src/handlebars_string.c", "src/handlebars_rc.h"],
  [("separation of shared strings before a write", "src/handlebars_string.c"), ("cached hash reset on every write", "src/handlebars_string.c hbs_str_hash")],
  ["hbs_str_val", "hbs_str_len", "hbs_str_hash", "handlebars_string_eq"],
  "seeded histories over shared strings with allocation faults against a reference model",
  "Seeded search over histories of up to 120 operations; all holders are compared in full after every operation. Sampling, not proof.")

P("C06", "User objects and owned pointers die exactly once, when nothing refers to them",
  "The destructor of a user object and the release of an owned pointer run exactly once: not before the last value, container, closure or iterator that refers to it is gone, and, as long as no operation has failed, as soon as that happens. A completed render has destroyed every user object it made and keeps none of the data alive.",
  ["histories", "fault_sequences"],
  "every sequence of value operations that copies, nests, replaces, removes, iterates and converts values holding user objects, pointers and closures, and every render over data made of user objects, with failing allocations, helpers and data providers",
  "Tests do not count destructions; a reference that is dropped twice or never shows only under particular sharing.",
  ["src/handlebars_value.c", "src/handlebars_value_handlers.c", "src/handlebars_ptr.c", "src/handlebars_closure.c", "src/handlebars_rc.h", "src/handlebars_vm.c", "src/handlebars_helpers.c"],
  [("reference counts and destructor calls", "src/handlebars_rc.h, src/handlebars_value_handlers.c")],
  ["handlebars_value_handlers.dtor", "talloc destructors of owned pointers"],
  "seeded value histories and renders over tracked objects with injected failures, destruction compared with reachability in a reference model",
  "Seeded search; after an operation has failed, only early and double destruction are judged, since an error unwinds by longjmp and leaves references to the context. Sampling, not proof.")

P("C07", "The in-memory cache returns what was stored until it may forget it",
  "A lookup in the in-memory cache finds a module exactly when one was added under that key and has since been neither removed by a limit, nor by age, nor by reset, and then it is that module; collection removes the least recently used entries until the limits hold, and nothing else. A module that was handed out stays usable until it is released, whatever happens to its entry, and sizes, counts, hits and misses agree with the history. An operation in which an allocation fails reports out of memory and loses nothing but the new entry.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of add, find, release, gc, reset and reopen, over keys with hash collisions, every setting of maximum age, size and entries changing on the way, every clock course including jumps and going backwards, with an allocation failure at any point of any operation",
  "The tests store one module, find it again and call gc with one fixed limit on the real clock.",
  ["src/handlebars_cache_simple.c", "src/handlebars_cache.c", "src/handlebars_map.c"],
  [("map from key to entry, least recently used by time stamp", "src/handlebars_cache_simple.c")],
  ["handlebars_cache_find", "handlebars_cache_add", "handlebars_cache_gc", "handlebars_cache_stat"],
  "seeded cache histories under a simulated clock with allocation faults, against a reference model of the cache",
  "Seeded search over histories of up to 80 operations; modules obtained are executed and must give the output of the stored one. When several entries have the same age, which of them goes first is left open. Sampling, not proof.",
  [("handlebars_cache_simple", "entries, sizes, time stamps", "src/handlebars_cache_simple.c")])

P("C08", "The shared-memory cache returns what was stored, unchanged while in use",
  "A lookup in the shared-memory cache finds a module exactly when one was added under that key since the last reset, took a free slot, and is not expired, and then it is that module; a key whose slot is taken is not stored and does not disturb the entry there, and the statistics agree with the history. A full segment is reset only when no entry is in use, and an entry that is in use keeps its content until it is released. Sizes and entry counts that cannot work are refused, and when memory protection cannot be changed the operation reports an error and leaves the cache usable.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of add, find, release, reset and reopen, over keys sharing a slot, every segment and table size including ones that fill up, every clock course, with failing mprotect at any point, readers that hold entries for any time across adds and resets",
  "The tests store a handful of modules in a segment with room to spare, and fill it once.",
  ["src/handlebars_cache_mmap.c", "src/handlebars_opcode_serializer.c"],
  [("slot table, bump allocation, reset when full, write protection, count of entries in use", "src/handlebars_cache_mmap.c")],
  ["handlebars_cache_find", "handlebars_cache_add", "handlebars_cache_stat"],
  "seeded cache histories under a simulated clock with failing mprotect and readers that hold entries, against a reference model of the cache",
  "Seeded search over histories of up to 80 operations by one thread (concurrency is C09); modules in use are executed after every operation. Sampling, not proof.",
  [("handlebars_cache_mmap", "table, data length, counters, lock, in_reset", "src/handlebars_cache_mmap.c")])

P("C10", "The on-disk cache keeps what was stored and survives damage and killed processes",
  "A module added to the LMDB cache is found, as that module, by every later lookup of the key by any process, until it is replaced, expires, is collected or the cache is reset; a record whose bytes were changed, cut, extended or written by another version is not served. A process killed at any point of an operation leaves the database usable, each of its finished operations in effect and the unfinished one either in effect or not. An operation in which a database call fails reports an error, leaves no transaction open and changes nothing, and the next operation works.",
  ["histories", "crash_points", "fault_sequences"],
  "every sequence of add, find, release, gc, reset and reopen by one process and short-lived other processes that end, end without closing, or are killed at any database call; keys of every length around the LMDB limit and with colliding hashes; failing database calls; damaged records; every clock course",
  "The tests add and find one module in one process on a fresh file with the real clock, and never kill a process, damage a record or fail a database call.",
  ["src/handlebars_cache_lmdb.c", "src/handlebars_opcode_serializer.c"],
  [("one transaction per operation", "src/handlebars_cache_lmdb.c"), ("hash and version check of records", "src/handlebars_opcode_serializer.c handlebars_module_verify")],
  ["handlebars_cache_find", "handlebars_cache_add", "handlebars_cache_gc", "handlebars_cache_stat"],
  "seeded cache histories with processes killed at a chosen database call, failing database calls, damaged records and a simulated clock, against a reference model of the cache",
  "Seeded search over histories of up to 80 operations. Killing a process keeps what it wrote to the page cache; power loss is not simulated, because the cache opens the database with MDB_MAPASYNC and promises no durability against it. A full map is an accepted error. Sampling, not proof.")

P("C16", "Data providers are interchangeable and their failures reach the caller",
  "The same data renders to the same output whether it is supplied as native values, JSON (lazy or converted), YAML or user-defined objects that produce their children on access, or are functions. A JSON or YAML text is read as the data it denotes, and one that is not well-formed is reported as an error. When a user-defined object fails during any lookup or iteration step of a render, the render ends with exactly that error, no helper runs after it, and the next render with the same VM and data is correct.",
  ["inputs", "fault_sequences"],
  "every template and data tree (empty containers, nulls, nested arrays and maps, zero and empty scalars, strings that look like numbers, booleans or nulls), every provider, every way to write the data as YAML (flow and block collections, plain, quoted and literal scalars, aliases), and a failure at any single access the render makes",
  "The specification tests feed JSON data only, and no test has a data provider that fails or is asked again after it failed.",
  ["src/handlebars_json.c", "src/handlebars_yaml.c", "src/handlebars_value.c", "src/handlebars_value_handlers.h", "src/handlebars_vm.c", "src/handlebars_helpers.c"],
  [("user value handlers (find, iterate, count, convert)", "src/handlebars_value_handlers.h"), ("JSON provider", "src/handlebars_json.c"), ("YAML conversion", "src/handlebars_yaml.c")],
  ["handlebars_vm_execute", "handlebars_error_num"],
  "seeded templates and data over five providers, one of them failing at a chosen access, against an independent reference interpreter",
  "Seeded search; templates come from a generator (depth 4, 40 statements), the oracle is an independently written interpreter of the language. Sampling, not proof.")

P("C17", "Rendering makes exactly the calls and output the template defines",
  "A render calls the helpers, function values and the logger that the template names exactly once per evaluation, in document order, with the arguments, hash, scope and blocks that the template and the data define, and its output is their results and the looked-up values, escaped exactly where the template asks for it, and the content between its tags, less what whitespace control, comments and standalone lines remove and with the indentation of partials. When one of those calls fails, or strict mode meets a name that is not defined, the render ends with that error, makes no further call, and later renders by the same VM again make exactly the defined calls and output.",
  ["programs", "inputs", "fault_sequences"],
  "every template built from content, mustaches, paths (parent, data, block parameter, scoped, literal segments), subexpressions, hashes, built-in and user block helpers with else chains, partials, partial blocks, dynamic names and broken partials, raw blocks, escaped tags, comments, whitespace control on any side of any tag, line breaks and blanks anywhere; every data tree; every combination of the flags no_escape, strict, assume_objects, compat, explicit_partial_context, prevent_indent, ignore_standalone and known_helpers_only; failure of any one call",
  "Each specification test renders one template once with helpers that never fail, and checks the output but not the call history; combinations of partial blocks, block parameters and data frames, and renders after a failed one, are not sampled.",
  ["src/handlebars_vm.c", "src/handlebars_helpers.c", "src/handlebars_compiler.c", "src/handlebars_value.c", "src/handlebars_opcode_serializer.c"],
  [("opcode interpreter with context, data, block parameter and partial block stacks", "src/handlebars_vm.c"), ("built-in helpers", "src/handlebars_helpers.c"), ("compiler", "src/handlebars_compiler.c")],
  ["handlebars_vm_execute", "helper callbacks", "handlebars_error_num"],
  "seeded templates, data and helpers with an injected failure at a chosen call, call history and output compared with an independent reference interpreter",
  "Seeded search; the oracle is an independently written interpreter. Decorators, inline partials, and line breaks at the edges of raw blocks are not generated (custom delimiters and mustache-style lambdas: C19). Sampling, not proof.")

P("C20", "Broken templates are refused and every error names its place",
  "A template or partial that breaks the grammar anywhere (an unknown, unbalanced, misplaced or unfinished tag, a malformed path, argument, hash, string, comment or raw block, a NUL outside a string or comment, an inverse where none is allowed, too many partial arguments) is refused with an error whenever it is parsed or compiled, however it got there and whatever happened before; nothing of it is rendered or dropped silently. That error, the error of an undefined name in strict mode and of a helper that the compiler refuses because only known helpers are allowed, carry the line and column, in the template or partial they are about, of the token or name in question and the message texts built from them name the same place; running out of memory and the errors that calls raise name none. An entry point called without a jump target reports the error in the context and leaves no jump target behind.",
  ["inputs", "histories", "fault_sequences"],
  "every template and partial of the rendering properties with any one of some fifty violations put at any place in any program, blanks and line breaks in and around tags, strict and known-helpers-only modes, histories of parsing, compiling and rendering on one context and VM with failing allocations and helpers and with errors at other places before",
  "The tests check the message of a few broken templates at fixed places; positions are checked for two of them, never after another error, in a partial, or after a line break inside a tag.",
  ["src/handlebars.l", "src/handlebars.y", "src/handlebars_parser.c", "src/handlebars_ast_helpers.c", "src/handlebars_compiler.c", "src/handlebars_vm.c", "src/handlebars.c"],
  [("token positions", "src/handlebars.l YY_USER_ACTION"), ("errors of the grammar", "src/handlebars_parser.c handlebars_yy_error"), ("place of an error in the context", "src/handlebars.c handlebars_throw_ex")],
  ["handlebars_parse_ex", "handlebars_compiler_compile_ex", "handlebars_vm_execute", "handlebars_error_num", "handlebars_error_loc", "handlebars_error_message", "handlebars_error_message_js"],
  "seeded histories of parsing, compiling and rendering templates broken at a chosen place, with failing allocations and helpers; error, place, calls and output compared with an independent reference interpreter that knows where each token was printed",
  "Seeded search; one violation per template. The wording after 'syntax error' is not compared; for tags that the end of the template cuts off the place may be anywhere in them. Places under changed delimiters are not judged. Sampling, not proof.",
  [("handlebars_context.e", "number, message, place and jump target of the last error", "src/handlebars.h"), ("handlebars_parser.line/column", "place of the scanner", "src/handlebars_parser_private.h")])

P("C19", "Mustache templates: changed delimiters and lambdas",
  "In compat mode a template that changes its delimiters renders exactly as the template that says the same with {{ }}: each {{=open close=}} holds from there to the next one or the end of its template, whatever the delimiters are, partials start with {{ }}, the default brackets are ordinary content meanwhile, and a malformed delimiter tag or a tag that is not closed is an error. With mustache-style lambdas a function value named by a variable or section is called exactly once per evaluation with the template text of its section, and what it returns is rendered as a template in the current context, escaped as the tag asks for; failures and later renders by the same VM behave as for other templates.",
  ["programs", "inputs", "fault_sequences"],
  "every template of the other rendering properties written with any sequence of delimiters (one to three characters, brackets, quotes, UTF-8) in the main template, blocks and partials; malformed delimiter and tag edges; every template of variables, sections, inverted sections, else, helper calls, partials, comments and whitespace control given to function values that return it, repeat it, wrap it, or return other templates; failure of any one call",
  "The Mustache specification tests are not part of this build (the files are missing), so neither delimiters nor lambdas are rendered by any test that runs.",
  ["src/handlebars_delimiters.c", "src/handlebars_vm.c", "src/handlebars_helpers.c", "src/handlebars_ast_printer.c", "src/handlebars_compiler.c"],
  [("translation of delimiters to {{ }}", "src/handlebars_delimiters.c"), ("call of a mustache-style lambda", "src/handlebars_vm.c invoke_ambiguous"), ("template text of a section", "src/handlebars_ast_printer.c handlebars_ast_to_string")],
  ["handlebars_vm_execute", "helper callbacks", "handlebars_error_num"],
  "seeded templates with delimiter changes or mustache-style lambdas, data and helpers with an injected failure at a chosen call, call history and output compared with an independent reference interpreter",
  "Seeded search; the oracle is an independently written interpreter. Not generated: a bracket directly before or after a tag with other delimiters, raw blocks under other delimiters, backslashes at all, delimiter changes inside the text of a lambda, inverted sections of a lambda, names in brackets and chained else in such a text. Sampling, not proof.")

P("C09", "Tasks sharing the shared-memory cache see one consistent cache",
  "When several threads or processes use one shared-memory cache at the same time, the results of their add, find and reset operations are those of some order of these operations, every module obtained is complete, is the one that was added under that key and does not change while it is in use, the counts of hits, misses and entries in use are exact, and no task waits for ever, also when a task is killed in the middle of an operation or memory protection cannot be changed. A reset that meets an entry in use or another reset, and an add that meets a reset, may have no effect.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "every interleaving, at the level of single accesses to the segment, of two to four tasks that add, find, hold, release and reset, as threads (one page protection) or processes (one each), every number of slots from one up, segments that fill up, entries that expire, stalls of any length, a task killed at any access, failing mprotect",
  "Tests use the cache from one thread at a time; the interleavings of single loads and stores that matter are not under their control.",
  ["src/handlebars_cache_mmap.c"],
  [("spinlock around writes, atomic count of entries in use, in_reset flag", "src/handlebars_cache_mmap.c")],
  ["handlebars_cache_find", "handlebars_cache_add", "handlebars_cache_reset", "handlebars_cache_stat"],
  "tasks switched by a seeded scheduler at every access to the segment, with stalls, killed tasks and failing mprotect; histories checked for linearizability against a model of the slot table",
  "Interleavings are sequentially consistent: reordering by weak memory models is not simulated. A task killed while it holds the write lock is searched separately and is a known finding. Seeded search (uniform and priority-based with change points). Sampling, not proof.",
  [("handlebars_cache_mmap.lock/refcount/in_reset", "write lock, entries in use, reset in progress", "src/handlebars_cache_mmap.c")])

P("C11", "A template cache never changes what is rendered",
  "Rendering with partials gives the same output, error and helper calls with an in-memory, shared-memory or LMDB cache attached as without one, for every VM that shares the cache, whatever flags it compiles with, however often and in whatever order templates are rendered, and whatever happens to the cache in between or from within a helper: collection, reset, expiry by the clock, nested renders. When a failure injected into the allocator, the cache's system calls or a helper ends a render, no entry stays in use and later renders are correct.",
  ["histories", "fault_sequences", "schedules", "programs"],
  "every history of renders by up to three VMs with different compiler flags and data over one cache of any kind and any limits, templates with static, dynamic and recursive partials, failing allocations, mprotect, database calls and helpers at any point",
  "The tests attach a cache to one VM and render the specification's templates in sequence; entries are neither evicted nor expired while in use, flags never differ, and nothing fails.",
  ["src/handlebars_vm.c", "src/handlebars_cache.c", "src/handlebars_cache_simple.c", "src/handlebars_cache_mmap.c", "src/handlebars_cache_lmdb.c", "src/handlebars_opcode_serializer.c"],
  [("lookup, compile, add and release around every partial", "src/handlebars_vm.c execute_template")],
  ["handlebars_vm_execute", "handlebars_vm_set_cache", "handlebars_cache_stat"],
  "seeded render histories over one shared cache with simulated clock and injected faults, compared with an independent reference interpreter that knows no cache",
  "Seeded search over histories of up to 24 operations. One thread (concurrency on the segment is C09). A full LMDB map is an accepted error. Sampling, not proof.")

P("C14", "Threads with their own contexts do not affect each other",
  "When several threads lex, parse, compile, serialise, print, render, preprocess delimiters, read JSON or YAML and use caches at the same time, each with contexts, compilers, VMs and caches of its own, every operation gives the result, error, error location and helper calls that it gives alone, also while operations of other threads fail. The library's own variables, and a compiled module that several threads execute at the same time, are never accessed by two threads without synchronisation when one of them writes.",
  ["schedules", "inputs", "fault_sequences", "programs"],
  "every interleaving of two to four threads at the level of allocations and of accesses to the library's variables and to shared modules, every history of operations on templates and data, failing allocations and helpers in any thread, first use of the library included",
  "All tests run in one thread; state that is shared by accident (static buffers, lazily initialised tables, a current parser) stays invisible.",
  ["src/handlebars_parser.c", "src/handlebars_parser_private.c", "src/handlebars_memory.c", "src/handlebars_vm.c", "src/handlebars_compiler.c", "src/handlebars.c", "src/handlebars_string.c", "src/handlebars_opcode_serializer.c", "src/handlebars_helpers.c"],
  [("thread-local parser while it is constructed", "src/handlebars_parser_private.c handlebars_parser_init_current"), ("all other state in the context", "src/handlebars.h")],
  ["handlebars_error_num", "results of the operations", "handlebars_vm_execute"],
  "threads switched by a seeded scheduler at allocations and at every access to the library's variables; results compared with the same operation alone, and accesses checked for data races with vector clocks",
  "Races are looked for in the library's static data and in the shared module, not in heap memory reached through a leaked pointer (that shows as a different result). Sequentially consistent interleavings. Sampling, not proof.",
  [("handlebars_parser_init_current", "parser whose scanner is being set up", "src/handlebars_parser_private.c")])

P("C12", "Partials loaded from files are what the file held when it was first read",
  "A partial named in a render is read from the file base path, slash, name, extension: once, on first use, and that text is what every render of that loader uses afterwards, whatever happens to the file. A file that is missing, empty, a directory, cannot be opened or cannot be read in full, and a name that contains a NUL byte, fails the render with an error before any of the partial is rendered; it is not remembered, so that the partial works as soon as the file does. The loader counts and lists exactly the partials read so far, in that order, and no render leaves a file open, whether it completes, fails or runs out of memory.",
  ["histories", "fault_sequences", "programs"],
  "every history of renders by several VMs over one loader, with files created, replaced, removed and turned into directories in between, static and dynamic partial names, every extension, failing and short opens, seeks and reads at any point, failing allocations and helpers",
  "The tests load partials that exist from files that never change, and no system call fails.",
  ["src/handlebars_partial_loader.c", "src/handlebars_vm.c"],
  [("read on first lookup into a map", "src/handlebars_partial_loader.c hbs_partial_loader_map_find")],
  ["handlebars_vm_execute", "handlebars_value_count", "HANDLEBARS_VALUE_FOREACH_KV", "fopen/fclose"],
  "seeded histories of renders and file changes with failing and short file operations, compared with an independent reference interpreter over a model of the files",
  "Seeded search over histories of up to 14 operations. Files change between renders, not in the middle of one, except that a file may be shorter than announced when it is read. Sampling, not proof.",
  [("handlebars_partial_loader.map", "partials read so far", "src/handlebars_partial_loader.c")])

P("C13", "The command-line program succeeds only when it did the whole job",
  "handlebarsc exits with status 0 exactly when the template and the data could be read in full and are well-formed, the template renders (or lexes, parses, compiles), and every byte of the result was written to standard output; the output is then exactly that result, for a render followed by a newline unless -n was given. Otherwise it exits with another status and a message on standard error, and standard output has nothing, or after a failed write a beginning of the result. This holds for templates, data and partials from files or standard input, with any bytes in the template, and when reads, writes or allocations fail.",
  ["inputs", "fault_sequences"],
  "every combination of mode, compiler flags, template, JSON and YAML data from files or standard input, partials from files, every buffering, opening, reading, seeking or writing failing at any byte, any failing allocation",
  "The executable tests run it on good and missing files; no read or write fails in them.",
  ["bin/handlebarsc.c", "src/handlebars_partial_loader.c"],
  [("read all input, then render, then write, flush and report", "bin/handlebarsc.c")],
  ["exit status", "standard output", "standard error"],
  "invocations of main() with standard streams, files and allocations that fail at a chosen point; output and status compared with an independent reference interpreter (--execute) or with the library called directly (other modes)",
  "Seeded search. For --lex, --parse, --compile and --module, and templates damaged at random, the expected output comes from the library itself, so only the program around it is judged there. The address and hash shown by --module are not compared. Unknown options are not covered. Sampling, not proof.")

P("C15", "A compiled module is self-contained, movable, unchanging and verifiable",
  "A serialised module whose pointers were normalised and which is copied to any aligned address, in memory that is then patched and write-protected, renders exactly what the template defines, after the context that compiled it and every earlier copy are gone, for every VM, any number of times and also when renders fail in between; no render changes a byte of it. Normalising it again to the same base gives back the same bytes and a valid hash, compiling the same template with the same flags at the same time gives the same bytes, and version, time, flags and size are those of the compilation. Verification accepts a module exactly when every byte from its hash to its end is as it was when the hash was generated, and changes nothing; with a context a mismatch is reported as an error.",
  ["inputs", "histories", "fault_sequences"],
  "every template, base address and load address, every history of storing, loading, moving and executing several modules, every torn, lost or misplaced write and flipped, zeroed, missing or additional bytes of a stored module, failing allocations and helpers while modules execute",
  "The tests serialise a few programs and execute them in the place where they were compiled, in writable memory.",
  ["src/handlebars_opcode_serializer.c", "src/handlebars_opcode_serializer.h", "src/handlebars_vm.c"],
  [("pointers relative to module->addr, patched on load", "src/handlebars_opcode_serializer.c"), ("hash over everything after the hash field", "src/handlebars_opcode_serializer.c calculate_hash")],
  ["handlebars_module_verify", "handlebars_vm_execute", "bytes of the module"],
  "seeded histories of compiling, storing in a faulty simulated store, loading at seeded addresses into pages that are write-protected, and executing; compared with an independent reference interpreter and with the stored bytes",
  "Seeded search. A module whose size field does not match what is there is rejected by the reader (harness), as the caches do. Damage to the eight header bytes, which the hash does not cover, is not judged. Sampling, not proof.",
  [("handlebars_module.addr/hash", "address the pointers are relative to; hash of the rest", "src/handlebars_opcode_serializer.h")])

P("C18", "Nesting and recursion limits end in a reported error",
  "However deeply blocks, subexpressions, arguments, else chains and partials are nested, and also when partials include each other without end, an operation either gives the full correct result or ends with the error of the limit it ran into, having made only the helper calls of the correct render up to there; never a crash, a truncated or wrong result, or an endless run. Ordinary nesting is not refused. A limit that was reached once, or a failure in deep nesting, has no effect on later operations: each gives the result it gives in a fresh context.",
  ["programs", "inputs", "fault_sequences", "histories"],
  "every mixture of nested blocks, block parameters, partials, partial blocks, subexpressions and hash pairs from a few levels to several hundred (text up to 8000 levels), lists rendered by a partial that includes itself, endless mutual inclusion, failing allocations and helpers at any depth, histories on one context and VM",
  "The tests nest a handful of levels; the limits of the compiler, the VM and the parser, the state a refused operation leaves behind, and off-by-one errors at each limit are not reached.",
  ["src/handlebars_vm.c", "src/handlebars_stack.c", "src/handlebars_compiler.c", "src/handlebars_compiler.h", "src/handlebars.y"],
  [("compiler stacks of source nodes and block parameters", "src/handlebars_compiler.c"), ("stacks on the C stack that refuse to grow", "src/handlebars_stack.c"), ("depth of partials", "src/handlebars_vm.c execute_template")],
  ["handlebars_error_num", "handlebars_vm_execute", "helper callbacks"],
  "seeded nesting around and beyond each limit in operation histories with injected failures, compared with an independent reference interpreter without limits and with a fresh context",
  "Seeded search with address checking. Which exact depth is refused is not fixed, only that fewer than about 14 levels (arguments: 30) never are. Sampling, not proof.",
  [("handlebars_vm.depth", "partials nested at the moment", "src/handlebars_vm.c")])
