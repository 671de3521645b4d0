#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json (development tool; not used by any check)"""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [D + '/lib', D + '/checks']
L = 'src/lib/'
TEST = 'The 59 stable tests only exercise the C binding generator; '
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=TEST + why,
                  anchors=dict(files=[f if '/' in f else L + f for f in files], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or ['event trace emitted by host functions of the embedding driver'], hook_needed=None)))

p('C01', 'No input makes the engine access invalid memory or abort',
  'Whatever source text, regular expression, JSON text or API arguments a program supplies, the engine never reads or writes memory outside live objects, never uses freed memory, never executes undefined behaviour and never aborts on an internal assertion. Malformed or unusual input ends in a value or a thrown error the embedder can catch.',
  'inputs programs', 'All byte strings given as scripts, modules, patterns, JSON or file contents; all programs built from the language and library.',
  'the space of malformed and adversarial sources is unbounded and none is sampled.',
  ['rjs_lex.c', 'rjs_parser.c', 'rjs_bc_gen.c', 'rjs_bc_call.c', 'rjs_regexp.c', 'rjs_native_stack.c', 'rjs_json_opt.c', 'rjs_string.c'],
  [('value and state stacks', L + 'rjs_native_stack.c'), ('token and AST error recovery', L + 'rjs_parser.c'), ('byte code generation and interpretation', L + 'rjs_bc_gen.c, ' + L + 'rjs_bc_call.c')],
  ['AddressSanitizer, UndefinedBehaviorSanitizer and assertion reports'])
p('C02', 'When the collector runs is unobservable to programs',
  'Running a garbage collection at any point where the engine may collect never changes what a program computes: every value, property, completion and ordering it can observe (other than weak reference and finalization state) is the same as when no collection happens there. No object that a program can still reach is ever reclaimed.',
  'schedules programs', 'All programs, and all placements of collections at allocation points.',
  'collections are rare in short tests and happen at fixed allocation counts, so almost no placement is ever tried.',
  ['rjs_gc.c', 'rjs_native_stack.c', 'rjs_value_list.c', 'rjs_runtime.c', 'include/ratjs/rjs_gc.h'],
  [('mark from roots, sweep', L + 'rjs_gc.c'), ('native value stack as root set', L + 'rjs_native_stack.c'), ('scan functions of each thing type', L + '*.c (op_gc_scan)')],
  ['event trace under forced collections compared with the trace without', 'AddressSanitizer reports'])
p('C03', 'Unreachable memory is reclaimed and none leaks',
  'Memory held by values a program no longer references is returned by a collection, so repeating a bounded workload keeps the memory in use bounded. Freeing a runtime returns every byte it allocated, after any program including ones that end in errors or leave generators, promises and iterators unfinished.',
  'histories programs', 'All programs and all numbers of repetitions of a workload.',
  'no test measures memory in use or inspects what a freed runtime leaves behind.',
  ['rjs_gc.c', 'rjs_mem.c', 'rjs_runtime.c', 'rjs_native_stack.c', 'rjs_string.c'],
  [('byte accounting of every allocation', L + 'rjs_mem.c'), ('sweep and free functions', L + 'rjs_gc.c'), ('runtime teardown', L + 'rjs_runtime.c')],
  ['memory accounting of the runtime after teardown and after each round'])
p('C04', 'Weak references and finalizers follow reachability',
  'A weak map, weak set or weak reference never keeps its key or target alive and never loses an entry whose key is still reachable; a dereferenced target stays alive for the rest of the job. Each finalization callback runs exactly once with its held value, only after the target became unreachable, never for unregistered ones, and only in a job of its own.',
  'histories schedules', 'All histories of registrations, lookups, releases and collections.',
  'reachability histories and collection points are not exercised by any test.',
  ['rjs_weak_ref_opt.c', 'rjs_finalization_registry_opt.c', 'rjs_weak_map_object_inc.c', 'rjs_weak_set_object_inc.c', 'rjs_weak_ref_object_inc.c', 'rjs_gc.c'],
  [('weak reference table and callbacks', L + 'rjs_weak_ref_opt.c'), ('ephemeron handling in the collector', L + 'rjs_gc.c'), ('clean up job', L + 'rjs_finalization_registry_opt.c')])
p('C05', 'Exactly the programs of the grammar are accepted',
  'Every source text that is a valid ECMAScript 2023 script or module (without the optional Annex B extensions) is accepted, and every text with an early error is rejected with a syntax error before any of it runs. Acceptance does not depend on layout beyond what automatic semicolon insertion and line terminators prescribe.',
  'inputs', 'All source texts, in script, strict and module goal, and in eval and Function constructors.',
  'the grammar has unboundedly many sentences and near-sentences; tests contain only valid ones.',
  ['rjs_lex.c', 'rjs_parser.c', 'gen/lextab'],
  [('tokenizer with regular expression and template contexts', L + 'rjs_lex.c'), ('cover grammars and early error lists', L + 'rjs_parser.c')])
p('C06', 'Expressions evaluate operands in order with the specified conversions',
  'Every operator computes the value ECMAScript defines for every combination of operand types, converts objects through the specified hooks with the specified hint, and performs the side effects of its operands in left-to-right order. References are resolved, read and written in the specified sequence, and errors appear at the specified step.',
  'programs inputs', 'All expressions over all operand values, including objects with observable conversions.',
  'the product of operators, operand types and side effects is not sampled.',
  ['rjs_operation.c', 'rjs_bc_gen.c', 'rjs_bc_call.c', 'rjs_number.c', 'rjs_conv.c'],
  [('abstract operations', L + 'rjs_operation.c'), ('evaluation order fixed by generated byte code', L + 'rjs_bc_gen.c'), ('constant folding of literals', L + 'rjs_code_gen_inc.c')])
p('C07', 'Control flow completes every path and runs every finally block',
  'Loops, switch, labelled statements, try/catch/finally and exceptions transfer control as specified on every path: each finally block runs exactly once on the way out, a completion in finally replaces the pending one, and iterators are closed exactly when a loop or pattern is left early. The completion value of code run by eval is the specified one.',
  'programs', 'All nestings of control statements and all paths through them.',
  'paths through nested jumps, exceptions and iterator closing grow exponentially.',
  ['rjs_bc_gen.c', 'rjs_bc_call.c', 'rjs_native_stack.c', 'rjs_iterator.c', 'rjs_parser.c'],
  [('state stack with try states', L + 'rjs_native_stack.c'), ('labels and state depth at jumps', L + 'rjs_bc_gen.c'), ('iterator close on pop', L + 'rjs_iterator.c')])
p('C08', 'Names resolve to the binding the scope rules select',
  'Every identifier refers to the binding selected by lexical scope, hoisting, temporal dead zone, with-objects and direct or indirect eval, in strict and sloppy code, no matter how often or through which call path the code ran before. Closures keep their own per-iteration bindings and never see another activation\'s.',
  'programs', 'All nestings of functions, blocks, loops, with and eval; all call histories.',
  'scope nestings combined with caching of resolved bindings across calls are not sampled.',
  ['rjs_environment.c', 'rjs_decl_env.c', 'rjs_object_env.c', 'rjs_function_env.c', 'rjs_global_env.c', 'rjs_eval_opt.c', 'rjs_operation.c', 'rjs_code_gen_inc.c'],
  [('environment chain and binding cache', L + 'rjs_operation.c (rjs_resolve_binding)'), ('declaration instantiation', L + 'rjs_script.c, ' + L + 'rjs_eval_opt.c'), ('scope analysis', L + 'rjs_parser.c')])
p('C09', 'Calls, construction, classes and private names behave as specified',
  'Calling or constructing any function binds this, arguments, new.target, home object and parameters as specified, class definitions evaluate heritage, computed keys, fields, static blocks and accessors in order, and private members are accessible exactly to code inside their class on objects that have them. Functions expose the specified name, length and prototype properties.',
  'programs', 'All function and class shapes and call forms.',
  'combinations of function kinds, parameters, inheritance and member kinds are not sampled.',
  ['rjs_function.c', 'rjs_script_func_object.c', 'rjs_arguments_object.c', 'rjs_private_name_opt.c', 'rjs_bound_func_object_opt.c', 'rjs_function_env.c', 'rjs_bc_gen.c'],
  [('call and construct internal methods', L + 'rjs_script_func_object.c'), ('class state machine', L + 'rjs_native_stack.c'), ('private environments', L + 'rjs_private_name_opt.c')])
p('C10', 'Destructuring, spread and templates follow the protocol step by step',
  'Array and object patterns in declarations, assignments, parameters and loops take values from iterators and properties in the specified order with defaults evaluated only when needed, collect rest elements, and close iterators on early exit or error. Spread and template literals consume and convert their operands in the specified order and tagged templates receive cached frozen strings.',
  'programs', 'All patterns over all sources with observable protocol steps.',
  'pattern nesting times protocol failures is unbounded.',
  ['rjs_bc_gen.c', 'rjs_native_stack.c', 'rjs_iterator.c', 'rjs_template.c', 'rjs_operation.c'],
  [('array and object assignment states', L + 'rjs_native_stack.c'), ('template registry', L + 'rjs_template.c')])
p('C11', 'Generators suspend and resume without losing state',
  'A generator executes exactly the code between its yields on each resumption, keeps its local state, pending finally blocks and loop positions across suspensions, and responds to next, throw and return (also through yield*) in every state as specified. Built-in iterators obey the iterator protocol likewise.',
  'programs histories', 'All generator bodies and all sequences of next, throw and return.',
  'sequences of resumptions over arbitrary bodies cannot be enumerated by fixed tests.',
  ['rjs_generator_opt.c', 'rjs_generator_object_inc.c', 'rjs_iterator.c', 'rjs_native_stack.c', 'rjs_bc_call.c'],
  [('generator context with its own native stack', L + 'rjs_generator_opt.c'), ('yield delegation', L + 'rjs_bc_call.c')])
p('C12', 'Promise reactions and async code run in the specified order',
  'Promise jobs run in exactly the order the specification fixes, each reaction exactly once, never synchronously; a promise settles at most once and adopts thenables in a separate job. Async functions, async generators and for-await resume, queue requests and propagate errors in that order.',
  'schedules programs', 'All interleavings of concurrently pending async activities produced by programs.',
  'interleavings of several async activities are never sampled.',
  ['rjs_promise.c', 'rjs_promise_object_inc.c', 'rjs_async_function_opt.c', 'rjs_async_generator_object_inc.c', 'rjs_job.c', 'rjs_generator_opt.c'],
  [('job queue', L + 'rjs_job.c'), ('resolve functions with already-resolved flag', L + 'rjs_promise_object_inc.c'), ('async generator request queue', L + 'rjs_generator_opt.c')])
p('C13', 'Modules link, evaluate once and share live bindings',
  'A module graph with any cycles evaluates each module exactly once, dependencies first, in specification order, with imports bound live to the exporting binding and namespace objects showing exactly the resolvable names in order. Unresolvable, ambiguous or failing modules reject the whole import with the specified error, every time, and top-level await and dynamic import keep this order.',
  'programs inputs', 'All module graphs, export/import forms, failures and await placements.',
  'no test loads a module graph with cycles, re-exports or failures.',
  ['rjs_module_opt.c', 'rjs_module_env_opt.c', 'rjs_module_ns_object_opt.c', 'rjs_parser.c'],
  [('link and evaluate depth-first with stack', L + 'rjs_module_opt.c'), ('export resolution with resolve set', L + 'rjs_module_opt.c')])
p('C14', 'Objects keep the essential invariants and property order',
  'Property definition, lookup, assignment, deletion, enumeration, extensibility and prototype changes on any ordinary or exotic object have the specified result, keys are listed in ascending index order followed by creation order, and frozen or non-configurable properties never change. Reflect and Object functions report and enforce the same state.',
  'histories programs', 'All histories of operations on all kinds of objects.',
  'operation histories on property tables, including deletions and re-insertions, are not sampled.',
  ['rjs_object.c', 'rjs_object_object_inc.c', 'rjs_reflect_object_inc.c', 'rjs_array.c', 'rjs_arguments_object.c', 'rjs_hash.c', 'rjs_for_in_iterator.c'],
  [('property table with array part and hash part', L + 'rjs_object.c'), ('validate and apply descriptor', L + 'rjs_object.c')])
p('C15', 'Proxies call exactly the specified traps and enforce invariants',
  'Every operation on a proxy calls the specified trap with the specified arguments in the specified order, falls through to the target when a trap is absent, and throws a TypeError exactly when the trap result violates an invariant of the target. Revoked proxies throw on every operation.',
  'programs inputs', 'All operations over all handlers, targets and trap results.',
  'trap results times target shapes times operations are not sampled.',
  ['rjs_proxy_object_opt.c', 'rjs_proxy_object_inc.c', 'rjs_reflect_object_inc.c', 'rjs_operation.c'],
  [('internal methods with invariant checks', L + 'rjs_proxy_object_opt.c')])
p('C16', 'Numbers are IEEE 754 doubles with exact parsing and printing',
  'Arithmetic, rounding, integer conversions and Math functions give the IEEE 754 result the specification requires; reading a decimal literal or string gives the nearest double and converting a number to a string gives the shortest text that reads back to it. Formatting with a radix, precision or fraction digits is correctly rounded.',
  'inputs', 'All doubles and all numeric texts.',
  'the input space is 2^64 numbers and unbounded texts.',
  ['rjs_number.c', 'rjs_dtoa.c', 'rjs_strtoi.c', 'rjs_conv.c', 'rjs_number_object_inc.c', 'rjs_math_object_inc.c', 'rjs_lex.c'],
  [('correctly rounded conversion', L + 'rjs_dtoa.c'), ('modular integer conversions', L + 'rjs_conv.c')])
p('C17', 'BigInt arithmetic is exact in both implementations',
  'Every BigInt operation returns the exact mathematical integer result (or two\'s complement wrap for asIntN and asUintN) for operands of any size and sign, in the GMP and in the internal implementation; conversion to and from text, numbers and comparisons with numbers are exact. Mixing with numbers throws a TypeError.',
  'inputs configurations', 'All pairs of integers and radices; both build configurations.',
  'carry and borrow patterns at word boundaries are hit only by chosen operands.',
  ['rjs_big_int_gmp_opt.c', 'rjs_big_int_internal_opt.c', 'rjs_big_int_object_inc.c'],
  [('limb arithmetic', L + 'rjs_big_int_internal_opt.c'), ('GMP wrapper', L + 'rjs_big_int_gmp_opt.c')])
p('C18', 'Strings are exact sequences of UTF-16 code units',
  'String operations, case conversion, normalization, iteration, splitting, padding and URI encoding and decoding return exactly the specified code unit sequence for every input including lone surrogates and non-BMP characters. Comparisons and searches consider all code units, and text crossing the engine boundary survives unchanged.',
  'inputs', 'All code unit sequences and argument values.',
  'surrogates, special casing and boundary positions are not sampled.',
  ['rjs_string.c', 'rjs_string_object_inc.c', 'rjs_uchar_icu_opt.c', 'rjs_uchar_internal_opt.c', 'rjs_uri_functions_inc.c', 'rjs_uchar_buffer.c'],
  [('code unit strings with index cache', L + 'rjs_string.c'), ('Unicode tables or ICU', L + 'rjs_uchar_icu_opt.c')])
p('C19', 'Regular expressions match as the specification defines',
  'For every valid pattern, flags and subject, matching finds the specified match and captures (backtracking order, greedy and lazy quantifiers, assertions, backreferences, named groups, case folding, Unicode mode), invalid patterns throw a SyntaxError, and exec, replace, split, match and matchAll update lastIndex and results as specified.',
  'inputs', 'All patterns, flag sets, subjects and lastIndex values.',
  'the product of pattern features is unbounded.',
  ['rjs_regexp.c', 'rjs_regexp_object_inc.c', 'rjs_unicode_property_inc.c'],
  [('pattern parser', L + 'rjs_regexp.c'), ('backtracking matcher', L + 'rjs_regexp.c'), ('RegExp builtin exec', L + 'rjs_regexp_object_inc.c')])
p('C20', 'JSON text and values round-trip exactly',
  'JSON.parse accepts every text of the JSON grammar and yields the value the text denotes, calling the reviver in the specified order; beyond that grammar it accepts only the JSON5-like relaxations this engine documents in its reader (comments, trailing commas, single-quoted and template strings, bare keys, JavaScript number forms), and any other text throws a SyntaxError; JSON.stringify produces the specified text for every value, replacer and indent, and its output parses back to the same value. Cyclic structures and BigInts throw.',
  'inputs', 'All texts and all values.',
  'malformed texts, nesting and escapes are not sampled.',
  ['rjs_json_opt.c', 'rjs_json_object_inc.c'], [('JSON parser and serializer', L + 'rjs_json_opt.c')])
p('C21', 'Array operations are exact on dense, sparse and array-like objects',
  'Every Array function returns the specified result and leaves the specified elements, holes and length on dense, sparse, frozen and array-like receivers, performing observable property accesses in order. Sorting is stable and never loses or duplicates an element, even when the comparator misbehaves or changes the array.',
  'inputs histories', 'All arrays, receivers, callbacks and histories of mutations.',
  'mutation during iteration and representation changes are not sampled.',
  ['rjs_array.c', 'rjs_array_object_inc.c', 'rjs_sort.c', 'rjs_object.c'],
  [('array part of property tables and length rules', L + 'rjs_array.c'), ('generic algorithms', L + 'rjs_array_object_inc.c'), ('merge sort', L + 'rjs_sort.c')])
p('C22', 'Map and Set keep every entry once, in insertion order',
  'A Map or Set contains exactly the entries added and not deleted since, found by SameValueZero equality, and iterates them in insertion order; iteration visits entries added while it runs and never repeats or skips others after deletions or clear.',
  'histories', 'All histories of set, delete, clear and interleaved iterator steps.',
  'interleavings of mutation and live iterators are not sampled.',
  ['rjs_map_object_inc.c', 'rjs_set_object_inc.c', 'rjs_hash_object_inc.c', 'rjs_hash.c'],
  [('hash with ordered entry list and live iterators', L + 'rjs_hash_object_inc.c')])
p('C23', 'Typed arrays and buffers store and load exact bytes within bounds',
  'Reads and writes through typed arrays and DataViews convert and place bytes exactly as specified for each element type and byte order, never touch bytes outside the view, and treat detached buffers and out-of-range indices as specified. All methods agree with that memory model, including overlapping copies.',
  'inputs histories', 'All element types, offsets, lengths, values and detach points.',
  'conversions at type boundaries and detachment during callbacks are not sampled.',
  ['rjs_typed_array_opt.c', 'rjs_typed_array_object_inc.c', 'rjs_array_buffer_opt.c', 'rjs_array_buffer_object_inc.c', 'rjs_data_view_object_inc.c', 'rjs_int_indexed_object_opt.c', 'rjs_data_block_opt.c'],
  [('raw bytes conversions', L + 'rjs_array_buffer_opt.c'), ('integer indexed exotic objects', L + 'rjs_int_indexed_object_opt.c')])
p('C24', 'Dates denote exact time values in a proleptic Gregorian calendar',
  'Date construction, parsing, arithmetic by setters, component getters and formatting agree with the specified calendar for every time value in range, with out-of-range values becoming NaN; text produced by toISOString, toString and toUTCString parses back to the same time.',
  'inputs', 'All time values, components and date texts.',
  'calendar boundaries over 550,000 years are not sampled.',
  ['rjs_date_object_inc.c'], [('day/year arithmetic', L + 'rjs_date_object_inc.c'), ('date parser', L + 'rjs_date_object_inc.c')])
p('C25', 'Atomics on shared memory are race free and linearizable',
  'Runtimes in different threads sharing a buffer never corrupt each other: each Atomics operation takes effect indivisibly, concurrent updates are never lost, and wait and notify neither lose a wake-up nor wake a waiter that was not notified before its time-out. Independent runtimes in different threads share no mutable state.',
  'schedules', 'All interleavings of threads executing atomic operations on shared buffers.',
  'no test runs two threads.',
  ['rjs_atomics_object_inc.c', 'rjs_data_block_opt.c', 'rjs_array_buffer_opt.c', 'rjs_shared_array_buffer_object_inc.c'],
  [('locked data block', L + 'rjs_data_block_opt.c'), ('waiter lists', L + 'rjs_atomics_object_inc.c')],
  ['ThreadSanitizer reports', 'recorded histories of atomic operations'])
p('C26', 'Realms are isolated and the embedding API keeps its contracts',
  'Each realm has its own distinct built-ins and global object, values passed between realms keep their identity and origin, and errors are created in the realm of the running function. The C API functions for strings, properties, calls, jobs and value stacks return what their documentation states and leave the value stack balanced.',
  'histories programs', 'All sequences of API calls and all cross-realm programs.',
  'no test embeds the engine with two realms or drives the C API at random.',
  ['rjs_realm.c', 'rjs_runtime.c', 'rjs_value.c', 'rjs_native_object.c', 'rjs_builtin_func_object.c', 'rjs_error.c'],
  [('realm records', L + 'rjs_realm.c'), ('value stack', L + 'rjs_native_stack.c')])
p('C27', 'File and encoding extensions reproduce bytes and text exactly',
  'The host extension functions write and read files, buffers and directories so that what is read back is exactly what was written, text encoding and decoding are exact inverses for valid text, and failures are reported as errors without partial effects on other files.',
  'inputs histories', 'All byte and text contents, modes and histories of file operations.',
  'no test exercises the extension with arbitrary contents.',
  ['rjs_extension_opt.c', 'rjs_conv_internal_opt.c', 'rjs_conv_iconv_opt.c'], [('file, directory and encoding functions', L + 'rjs_extension_opt.c')])
p('C28', 'C values cross the native binding layer unchanged',
  'Values passed between scripts and C through the type binding layer keep their exact value for every C integer and floating type, struct, array, pointer and callback, with type mismatches rejected by an error instead of corrupting memory. Native objects are identified with one script object per pointer and kind.',
  'inputs', 'All values of all bound C types.',
  'the existing binding tests use a handful of constants.',
  ['rjs_ctype_opt.c', 'njs/njsgen_test.c'], [('type conversion and FFI call', L + 'rjs_ctype_opt.c')])
p('C29', 'The bundled JSON schema, pointer and option modules follow their rules',
  'The JavaScript modules shipped with the engine validate JSON documents against JSON Schema, resolve JSON pointers and parse command line options as their specifications define, for every schema, document, pointer and argument list they support.',
  'inputs', 'All schemas and documents, pointers and argument vectors.',
  'no stable test executes these modules.',
  ['module/json-schema.js', 'module/json-pointer.js', 'module/json-manager.js', 'module/option.js'], [('validator, pointer and option parser', 'module/')])
p('C30', 'The ratjs command reports success and failure faithfully',
  'The command line tool runs the given script or module with its arguments, finishes pending jobs, and exits with status zero exactly when evaluation (including asynchronous module evaluation) succeeded; errors are reported on the error stream and never silently ignored.',
  'inputs programs', 'All option combinations and programs.',
  'no stable test checks exit status or options.',
  ['src/exe/rjs_main.c'], [('option parsing and run loop', 'src/exe/rjs_main.c')])
p('C31', 'Build configurations do not change program behaviour',
  'Every supported build configuration (alternative big integer, character set, Unicode, and binding cache implementations) gives the same observable result for every program that uses only features present in it.',
  'configurations programs', 'All programs under all supported configurations.',
  'tests run in one configuration only.',
  ['build/buildall.sh', 'rjs_conv_internal_opt.c', 'rjs_uchar_internal_opt.c', 'rjs_big_int_internal_opt.c', 'rjs_operation.c'],
  [('compile-time alternatives', 'Makefile, include/ratjs_config.h')])
p('C32', 'C containers and algorithms match their mathematical model',
  'The hash table, red-black tree, linked list, vector, bit set and sort routines of the engine behave as the mathematical map, ordered set, sequence and stable sort they implement, after every sequence of operations.',
  'histories', 'All sequences of container operations.',
  'containers are only exercised indirectly with small contents.',
  ['rjs_hash.c', 'rjs_rbt.c', 'rjs_sort.c', 'include/ratjs/rjs_list.h', 'include/ratjs/rjs_vector.h', 'include/ratjs/rjs_hash.h', 'include/rjs_rbt.h'],
  [('bucket resizing', L + 'rjs_hash.c'), ('rebalancing', L + 'rjs_rbt.c')])
p('C33', 'Symbols, identity and error objects behave as specified',
  'Symbols are unique except through the global registry, well-known symbols steer every protocol they name, value identity and equality agree across strict, loose and SameValue comparisons, and error constructors create objects with the specified prototype chain, message, cause and aggregated errors.',
  'programs inputs', 'All values and constructor arguments.',
  'pairs of values across the type system are not sampled.',
  ['rjs_symbol.c', 'rjs_symbol_object_inc.c', 'rjs_error.c', 'rjs_operation.c', 'rjs_value.c'], [('symbol registry', L + 'rjs_symbol.c'), ('equality operations', L + 'rjs_operation.c')])

NOTES = {
 'default': ('exploration', 'differential runtime monitoring: event traces of generated programs against the reference engine, under ASan/UBSan',
   'Every generated program of the run was executed by the real engine and its complete event trace equals that of the reference engine (V8); trusts V8 where both follow ECMAScript, the generator avoids known V8 deviations and implementation-defined behaviour; no claim beyond the executed programs.'),
 'C01': ('exploration', 'AddressSanitizer + UBSan + assertions over generated, mutated and hostile inputs',
   'No report on any executed input; coverage is that of the workload; allocation failure and native stack exhaustion by unbounded recursion are outside.'),
 'C02': ('exploration', 'GC-stress monitoring: traces with forced collections compared with traces without, under ASan',
   'For every executed program the trace is independent of the collection schedules tried (every allocation, random, single-point).'),
 'C03': ('exploration', 'memory accounting monitor over teardown and repeated workloads',
   'Runtime teardown returned every byte and steady-state memory stayed flat for every executed workload.'),
 'C25': ('exploration', 'ThreadSanitizer + offline checkers over recorded concurrent histories', 'No race or lost update in the executed schedules.'),
}
def manifest():
    import props
    claimed = [x['id'] for x in P if x['id'] in props.CHECKS]
    checks = []
    for i in claimed:
        lv, t, n = props.NOTES.get(i) or NOTES.get(i, NOTES['default'])
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 checks/run.py %s' % i,
                           thorough_cmd='VERIF_TIER=thorough python3 checks/run.py %s' % i,
                           technique=t, level=lv, level_note=n))
    na = [dict(property=x['id'], reason=props.NA.get(x['id'], 'no check built yet')) for x in P if x['id'] not in claimed]
    return dict(version=1, setup_cmd='python3 checks/setup.py', checks=checks, not_applicable=na,
                notes='Checks rebuild libratjs from /repo into a temporary directory on every run. No hooks in /repo: garbage collection stress is injected at link time with --wrap.')
with open(D + '/properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
json.dump(manifest(), open(D + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
for x in P: jsonschema.validate(x, json.load(open('/root/.vp/PROPERTIES.schema.json')))
jsonschema.validate(manifest(), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(P), 'properties,', len(manifest()['checks']), 'claimed')
