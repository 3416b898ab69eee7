#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
D = 'lib/fbuild/'
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {'files': [D + f if not f.startswith('/') else f[1:] for f in files],
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    return dict(id=id, title=title, statement=statement,
                quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a)

props = [
P('C01', 'Incremental builds never return stale results',
  "After any history of builds and edits - changing the contents of declared source files, calling with other arguments, deleting generated outputs, adding or dropping calls - every cached call returns the value, and leaves on disk the declared outputs, that executing its function afresh on the current inputs would give. "
  "This holds within one process and from one process to the next, with every storage engine that can persist.",
  ['histories', 'inputs', 'configurations'],
  "every sequence of edits and builds, over every engine; every set of calls sharing source files and functions",
  "The db example tests sample a handful of fixed edit sequences; staleness needs particular interleavings of edits, shared files and omitted calls across several builds.",
  ['db/database.py', 'db/backend.py', 'db/cache_backend.py', 'db/pickle_backend.py', 'db/sqlite_backend.py', 'db/__init__.py'],
  [('source digest/mtime comparison', 'Backend.add_file / check_call_file in db/backend.py'),
   ('call lookup by bound arguments', 'find_call in db/cache_backend.py and db/sqlite_backend.py'),
   ('missing outputs re-run the call', 'Database.call in db/database.py'),
   ('annotation driven file discovery', 'Database._find_call_filenames in db/database.py')],
  ['return values of cached calls', 'files written by the calls']),
P('C02', 'Up-to-date work is never repeated',
  "A cached call that completed is not executed again, in the same build or in later ones, while its arguments, its code and that of the cached functions it called, the contents of its source files and its outputs stay as they were, none of them lost or written by another call of that function; the stored value is returned instead. "
  "Touching a file without changing its contents, and any change to files, functions or arguments the call does not depend on, do not cause it to run.",
  ['histories', 'configurations'],
  "every history of builds, touches and unrelated edits up to the explored depth, every engine",
  "The example tests check a few fixed two-build scenarios; spurious re-runs appear only for particular combinations of shared files, removed calls and reverted edits.",
  ['db/database.py', 'db/backend.py', 'db/cache_backend.py', 'db/sqlite_backend.py', 'db/pickle_backend.py'],
  [('content digests behind mtimes', 'Backend.add_file in db/backend.py'),
   ('saved calls and call files', 'Backend.cache / save_call / save_call_files'),
   ('database persisted at the end of a build', 'Context.save_configuration in context.py, PickleBackend.close')],
  ['which user functions execute in each build']),
P('C03', 'Changing a function re-runs it and everything that used it',
  "When the source code of a cached function changes, the next build that reaches it executes it again, and executes again every cached function that had called it, directly or through other cached functions, when it produced its stored result. "
  "This does not depend on the order in which the build makes the calls, on which arguments the dependency was reached with, on recursion between the functions, or on an exception that a caller handled.",
  ['histories', 'programs'],
  "every small call graph of cached functions, every order of top-level calls, every sequence of code edits",
  "Existing tests edit one function called by one other in one order; the dependency record depends on call order, on which call first populated it, on exceptions and on recursion.",
  ['db/backend.py', 'db/database.py', 'db/cache_backend.py', 'db/sqlite_backend.py', 'inspect.py'],
  [('recording of called functions', 'Database.call callstack in db/database.py'),
   ('recursive dirtiness check', 'Backend.check_function in db/backend.py'),
   ('source digests', 'Database._digest_function, fbuild/inspect.py')],
  ['which user functions execute', 'returned values']),
P('C04', 'Dependencies registered while running are honoured',
  "A file that a cached function registers while it runs as an additional source or output counts, for that call and for the cached calls enclosing it, exactly like a declared one: changing or deleting the source, or losing the output, makes the call run again, and an unchanged one does not. "
  "Only the registrations of the latest execution of a call count, and two calls that registered the same file are independent of each other.",
  ['histories', 'inputs'],
  "every history of edits, deletions and builds over calls that register overlapping sets of files",
  "Tests register one file for one call; the failures need two calls sharing a registered file, deletions, or registrations that change from run to run.",
  ['db/database.py', 'db/backend.py', 'db/cache_backend.py', 'db/sqlite_backend.py', 'builders/c/gcc/__init__.py'],
  [('registration through the enclosing frames', 'Database.add_external_dependencies_to_call'),
   ('checking on the next call', 'Backend.check_external_files'),
   ('saving', 'save_external_files in both backends')],
  ['which user functions execute', 'returned values', 'source/output sets returned with the value']),
P('C05', 'Storage engines are interchangeable',
  "For the same sequence of builds and edits, every storage engine executes the same cached calls, returns equal values and reports the same source and output files. "
  "The choice of engine affects only where and when the state is kept, so the pickle and sqlite engines agree across processes and all three agree within a process.",
  ['histories', 'configurations'],
  "every explored history, run once per engine and compared step by step",
  "Each engine is tested by its own few scenarios, never compared; sqlite in particular has its own deletion and serialisation code.",
  ['db/cache_backend.py', 'db/pickle_backend.py', 'db/sqlite_backend.py', 'db/backend.py'],
  [('common protocol', 'Backend in db/backend.py'), ('dict engine', 'db/cache_backend.py'), ('sqlite engine', 'db/sqlite_backend.py')],
  ['executed calls, values and file sets per engine']),
P('C06', 'A killed build leaves a usable, truthful build state',
  "If the process dies at any instant while a build is running or while its state is being saved, the next build of the same sources starts normally and gives the same results as a clean build. "
  "It still knows every call remembered by the last state that was saved completely (each finished call, for an engine that commits call by call), so at no instant is the previous state gone before the new one is in place.",
  ['crash_points', 'histories'],
  "every mutating system call of the save (and of the sqlite commits), before it, after it, and after every prefix of a write",
  "No test kills the process; the window is a few system calls wide and depends on the order of writes and renames.",
  ['db/pickle_backend.py', 'db/sqlite_backend.py', 'context.py'],
  [('write-aside then rename', 'PickleBackend.close'), ('transactions', 'SqliteBackend.cache'), ('saving in finally, SIGINT masked', 'Context.save_configuration, main.main')],
  ['state files on disk after the kill', 'executed calls and values of the next build']),
P('C07', 'A failing call is never recorded and never loses finished work',
  "An exception raised by a cached function reaches its caller unchanged, and the failed call runs again the next time it is made, even if its inputs were restored to an earlier content. "
  "Calls that finished before the failure in the same build stay remembered, and calls whose inputs did change are not mistaken for up to date because of the failure.",
  ['histories', 'fault_sequences'],
  "every placement of failing calls in a sequence of builds and edits, handled by a caller or ending the build",
  "Failures are tested only as a single uncaught error; poisoning needs a failure between an edit and a later build.",
  ['db/database.py', 'db/backend.py', 'main.py', 'context.py'],
  [('results saved only after the function returned', 'Database.call'), ('state saved in finally', 'main.main')],
  ['executed calls, exceptions and values of every build']),
P('C08', 'State maintenance options do exactly what they say',
  "Deleting a function from the state makes its calls, and those of the cached functions that used it, run again and nothing else; deleting a file makes exactly the calls that depend on it run again; forcing a rebuild runs everything. "
  "Deleting something that is not recorded is reported as an error, deleting something recorded succeeds, and a build asked not to save leaves the results of the next build correct; cleaning removes the build directory and nothing outside it.",
  ['histories', 'configurations'],
  "every history mixing builds, edits and maintenance commands, for each persistent engine",
  "No test runs these options at all, and their effects show only in a later build.",
  ['main.py', 'context.py', 'db/database.py', 'db/cache_backend.py', 'db/sqlite_backend.py'],
  [('--delete-function/--delete-file', 'main.build and delete_function/delete_file of the backends'), ('--rebuild', 'Context.load_configuration'), ('--do-not-save-database', 'Context.save_configuration'), ('--clean', 'main.main')],
  ['exit status, executed calls, files removed']),
P('C09', 'Calls are identified by what Python would bind',
  "Two calls of a cached function are the same call exactly when Python binds equal values to the same parameters, whether they are passed by position, by keyword or by default. "
  "A call that Python would reject is rejected and not recorded, and the function always receives exactly the values Python would have passed.",
  ['programs', 'inputs'],
  "every signature shape with up to four parameters (positional, default, *args, keyword-only, **kwargs) and every small call of it",
  "The functools tests sample a few signatures; the binding is reimplemented by hand and has many corner cases.",
  ['functools.py', 'db/database.py'],
  [('argument normalisation', 'functools.normalize_args / bind_args'), ('bound dictionaries compared', 'find_call in the backends')],
  ['executed calls', 'arguments seen by the function', 'exceptions']),
P('C10', 'Persistent objects are cached by their constructor arguments',
  "Constructing a persistent object again with equal arguments gives an equal object without running its constructor, in the same build and in later ones, and changing the class's constructor code runs it again. "
  "Cached methods and properties are kept apart by the state of their object and by class: objects with different state never share a result, equal ones always do.",
  ['histories', 'inputs'],
  "every pair and sequence of objects, attributes and calls from a small universe, across builds and engines",
  "Tests build one object of one class; confusion needs two objects whose states are related (equal, subset, nested, subclass).",
  ['db/__init__.py', 'db/database.py', 'db/sqlite_backend.py'],
  [('metaclass call', 'PersistentMeta.__call__'), ('equality', 'PersistentObject.__eq__'), ('cachemethod/cacheproperty', 'db/__init__.py')],
  ['constructor and method executions', 'returned objects']),
P('S01', 'Parallel map runs every item once and keeps the order',
  "Mapping a function over a sequence with any number of workers calls it exactly once for every element and returns the results in the order of the elements. "
  "This also holds for maps made from inside mapped functions, to any depth, and for several maps in progress at once, with every worker count including one.",
  ['schedules', 'programs', 'configurations'],
  "every interleaving of the workers up to a preemption bound, over small map programs",
  "The scheduler tests run each program under whatever schedule the machine happens to produce.",
  ['sched.py'],
  [('shared ready queue and per-call done queue', 'Scheduler._evaluate'), ('results re-sorted by index', 'Scheduler.map'), ('worker re-entrancy', 'Scheduler._evaluate, WorkerThread.run_one')],
  ['calls made, values returned']),
P('S02', 'Dependencies run first, results come in a fixed order, loops are errors',
  "With declared dependencies every item is processed exactly once and only after all the items it depends on have finished, on any number of workers. "
  "The results come in an order that depends only on the inputs, dependencies before dependents, never on timing, and a dependency cycle always ends in an error naming it rather than a hang or a partial result.",
  ['schedules', 'programs'],
  "every dependency graph on up to four items (cycles, self loops, unknown and duplicate items included) under every interleaving up to a preemption bound",
  "Tests try a few graphs under one schedule each.",
  ['sched.py'],
  [('ready when all dependencies are done', 'Task.can_run, Scheduler._evaluate'), ('depth first result order', 'Scheduler.map_with_dependencies'), ('leftover detection', 'DependencyLoop in Scheduler._evaluate')],
  ['start/finish order of items, results, exceptions']),
P('S03', 'Parallel work always ends: failures surface, nothing hangs',
  "An exception raised by a mapped function reaches the caller of that map, which never returns results as if nothing had failed. "
  "Every map, nested map and shutdown ends under every schedule, also when items fail and when the failure is handled and further work is submitted. When shutdown is requested while workers are still busy, what the workers have begun, nested maps included, is finished and shutdown returns.",
  ['schedules', 'fault_sequences', 'programs'],
  "every interleaving up to a preemption bound of programs mixing maps, nested maps, failing items and shutdown",
  "Deadlocks and lost failures need one particular order of wake-ups; a test sees one order.",
  ['sched.py', 'context.py', 'main.py'],
  [('exceptions carried by the task', 'Task.run, Scheduler._evaluate'), ('shutdown sentinels', 'Scheduler.shutdown, WorkerThread.run')],
  ['termination, exceptions seen by the caller']),
P('S04', 'Build code runs one task at a time except while it waits',
  "At most one worker executes build-script code at any moment; workers overlap only inside the sections declared interruptible, such as waiting for a command. "
  "A section gives the right to run back before build code continues, whatever happens inside it, and the calling thread never takes or leaves that right in place of a worker.",
  ['schedules'],
  "every interleaving up to a preemption bound, with nested maps, failures and interruptible sections in workers and in the calling thread",
  "Overlap of two tasks is invisible to tests unless it corrupts something on that run.",
  ['sched.py', 'context.py'],
  [('controlling lock', 'WorkerThread.run'), ('release/re-acquire', 'Scheduler.interruptible'), ('commands wait in an interruptible section', 'Context.execute')],
  ['overlap of task bodies']),
P('S05', 'The database thread answers every request exactly once',
  "Every call sent to the service thread from any number of threads is handled exactly once, requests of one thread in their order, and its caller gets the value or exception of its own request. "
  "Calls are accepted as soon as the service has been started, joining waits for accepted calls to be answered, and after it stopped callers get an error instead of waiting for ever.",
  ['schedules'],
  "every interleaving up to a preemption bound of clients, the service thread, start and join",
  "Nothing tests this module; its races span a few instructions.",
  ['rpc.py', 'db/database.py'],
  [('queue and per-thread events', 'RPC.call'), ('start handshake', 'RPC.start / RPC.run'), ('null message', 'RPC.join')],
  ['replies, termination']),
P('S06', 'A parallel cached build equals the sequential one',
  "A build that makes its cached calls through the scheduler gives, for every worker count and every schedule, the values of the sequential build, executing the same calls, each of them once unless several tasks made it before it had been answered. "
  "The state it leaves is as good: the following builds re-run what a sequential build would have re-run, no more and no less.",
  ['schedules', 'histories'],
  "every interleaving at the waiting points of small parallel builds, followed by edits and further builds",
  "The cache keeps per-process state (call stacks, active files) shared by all workers; tests only build with one thread.",
  ['db/database.py', 'sched.py', 'db/backend.py', 'context.py'],
  [('record of callers', 'Database.call callstack'), ('serialisation of storage access', 'RPC thread'), ('controlling lock', 'sched.py')],
  ['values, executed calls, next build']),
P('S07', 'Log output is complete, unduplicated and kept in order',
  "Everything a task logs appears in the log exactly once, and the messages of one task appear in the order it wrote them, for any number of threads and any schedule. "
  "With several threads, a line a task writes piece by piece is never split by the output of another task, its own nested tasks included, and messages above the verbosity level go to the log file but not to the terminal.",
  ['schedules', 'inputs'],
  "every interleaving up to a preemption bound of threads writing partial lines, lines and unbuffered messages",
  "No test exercises the logger with several threads.",
  ['console.py', 'sched.py'],
  [('per-thread buffers', 'Log.log_from_thread / write / flush'), ('lock around output', 'Log._lock')],
  ['contents of the log file and of stdout']),
P('S08', 'Interrupting a build ends it and keeps what was done',
  "An interrupt (SIGINT, Ctrl-C) that reaches a build at any moment while its targets run ends it with that interruption: nothing hangs, whatever the main thread and the workers are doing, the command the main thread waits for is stopped, what the workers have begun is finished and what is still queued is dropped, and nothing runs after the build has ended. "
  "Every cached call that had been answered by then is kept: the next build does not execute it again, and gives what a build that was never interrupted gives, also after a second interrupt. A command that SIGINT ended interrupts the build in the same way, and a build started with SIGINT ignored is not disturbed.",
  ['schedules', 'crash_points', 'histories'],
  "a signal at every scheduling point of every schedule up to a deviation bound of small builds, and at every command of a real one, each followed by another build",
  "Nothing tests interrupts; the moments that matter last microseconds.",
  ['main.py', 'sched.py', 'context.py', 'rpc.py', 'subprocess/killableprocess.py'],
  [('interrupted build', 'main.main'), ('workers told to end', 'Scheduler.shutdown, WorkerThread.run'), ('interrupted commands', 'Context.execute'), ('saving undisturbed', 'Context.save_configuration')],
  ['how the build ends, calls executed by it and by the next build']),
P('B01', 'Targets run in the requested order, once per request',
  "The targets named on the command line run in that order, with the default build target when none is named; a target given twice runs twice. An unknown target is an error raised when its turn comes, and an install that is not last is one before anything runs. "
  "Installing alone builds first, and installing after nothing but configuring builds between the two. The first failing target stops the run with a failing exit status and the state already earned is saved; options that only inspect, clean or forget run no target.",
  ['inputs', 'configurations'],
  "every sequence of up to four target names over the known, unknown and reserved ones, with every choice of failing target",
  "No test runs the command line with several targets.",
  ['main.py', 'target.py', 'options.py'],
  [('target loop', 'main.build'), ('registry', 'target.py')],
  ['order of target functions, exit status']),
P('B02', 'Installation puts every file where and how it was asked',
  "Each file marked for installation ends at the destination root, prefix (unless the directory is absolute), directory and base name that were asked for, with its contents, with the permissions asked for on the installed file; nothing else is written. "
  "The source file is not modified; links are installed as links, whatever already stands at the target; installing twice is the same as installing once.",
  ['inputs', 'configurations', 'histories'],
  "every combination of destination root, prefix, directory, rename, permissions, kind of source and kind of existing target from a small universe, installed once and twice",
  "The install example installs a few regular files once.",
  ['install.py', 'context.py', 'main.py'],
  [('target path', 'Context.install'), ('copying', 'LocalCommander.install')],
  ['tree before and after']),
P('B03', 'Running a command reports exactly what happened',
  "A command that exits with zero, or whose errors are ignored, returns what it printed on its two streams; any other exit raises an error that carries the command, both outputs and the status. "
  "A command over its time limit is killed and reported as timed out, an interrupted one raises the interruption, one that cannot be started raises that error, and in all cases no timer or right to run is left behind.",
  ['inputs', 'fault_sequences', 'configurations'],
  "every combination of exit status, signal, output bytes, timeout, start failure, interruption and flags from a small universe",
  "Examples only run commands that succeed.",
  ['context.py', 'subprocess/killableprocess.py'],
  [('execution', 'Context.execute'), ('process groups', 'killableprocess.Popen')],
  ['return value/exception, process killed, environment passed']),
P('B04', 'Incremental C builds equal clean builds',
  "After any sequence of edits to sources and headers (including which headers a file includes), flags and removals of outputs, an incremental build of objects, libraries and programs with the C builders produces the same output files as a clean build. "
  "It runs the compiler only for the units whose sources, headers or flags changed and links again only when one of its inputs did.",
  ['histories', 'configurations'],
  "every edit sequence up to the explored depth over a small project with shared and nested headers, with one and several jobs",
  "The C examples build once from scratch.",
  ['builders/__init__.py', 'builders/c/__init__.py', 'builders/c/gcc/__init__.py', 'db/database.py'],
  [('header dependencies', 'gcc Builder.compile'), ('propagation to groups of objects', 'AbstractCompiler.build_objects'), ('link inputs', 'link_lib/link_exe')],
  ['commands run, contents of outputs']),
P('B05', 'Platform options select and combine exactly as declared',
  "Options declared for a set of platform features apply exactly when every required feature is present and every negated one absent, in the order declared. "
  "A plain option replaces the value, an added one appends to it and a removed one takes elements away, for strings, lists, tuples and sets alike when the option is of the kind of the value, and neither the declarations nor a value shared with another call is altered in later calls.",
  ['inputs', 'configurations'],
  "every platform subset, matcher and option list from a small universe, applied once and repeatedly",
  "The tests sample a few combinations of lists and strings.",
  ['builders/platform.py'],
  [('matching', 'platform_match'), ('combination', 'parse_platform_options'), ('decorator', 'auto_platform_options')],
  ['options seen by the builder']),
P('B06', 'File patterns match exactly the names they describe',
  "A file-name pattern with *, ?, character classes and {a,b} alternatives matches exactly the names it describes, independent of earlier matches, and a literal name always matches its escaped form. "
  "Globbing returns exactly the existing files that match component by component, each once if ** is used at most once, hidden ones only when asked for, ** spanning any number of directories, and exclusions removed.",
  ['inputs'],
  "every pattern and name up to a length bound over an alphabet with the special characters; every small tree with every small glob",
  "Tests list a few dozen literal examples.",
  ['fnmatch.py', 'glob.py', 'path.py'],
  [('translation to regular expressions', 'fnmatch.translate'), ('walking', 'glob.py'), ('exclusions', 'Path.iglob')],
  ['match results, listed paths']),
P('B07', 'Libraries are linked after everything that needs them',
  "On every link command built for a set of libraries, each library and each library it was itself linked against appears exactly once, before all the libraries it depends on, for every dependency graph and every order in which they are given. "
  "Their search paths and external libraries are all passed, the library linked is the one given and no other of the same name, programs run by the builder find them, and the same request always yields the same command.",
  ['inputs', 'programs'],
  "every dependency graph of up to four libraries with every order of request",
  "Examples link at most one library.",
  ['builders/c/gcc/__init__.py', 'builders/c/__init__.py'],
  [('library walk', 'Gcc.__call__'), ('library metadata', 'c.Library')],
  ['command line passed to the linker']),
P('B08', 'Generated text files follow their template and inputs',
  "Substituting into a template writes, for every template and set of values, exactly the template with every placeholder of its syntax replaced and everything else untouched; a placeholder without value is an error and not a silently wrong file. "
  "The output is generated again when the template or the values change, and only then.",
  ['inputs', 'histories'],
  "every template and value set over a small alphabet of placeholders and near-placeholders, and every sequence of edits and builds",
  "The substitute example uses one template per function.",
  ['builders/text.py', 'builders/file.py'],
  [('substitution functions', 'builders/text.py'), ('caching', 'fbuild.db.caches')],
  ['contents of the generated file']),
P('B09', 'Guessing picks the first builder that fits the platform and works',
  "Guessing C or C++ builders returns the first candidate in the declared order whose platform features are all present and whose requested builders, static, shared or both, all work, and every kind requested is what its name says. "
  "Each is made with the common arguments, those of its kind, and the platform options for that compiler only; candidates are not tried beyond that, an unknown compiler and the lack of any candidate are reported as a failed configuration, and the caller's arguments are left alone.",
  ['inputs', 'configurations'],
  "every platform, set of working compilers and request for the real tables, every small table of candidates with every set of failures",
  "No test guesses a builder; the examples only find the compiler of the machine they run on.",
  ['builders/c/__init__.py', 'builders/cxx/__init__.py', 'builders/platform.py'],
  [('selection', 'c.Guesser.__call__'), ('tables', 'c.guess and cxx.guess'), ('identification', 'c.identify_compiler')],
  ['builders returned, candidates tried and their arguments']),
P('B10', 'Incremental OCaml builds equal clean builds',
  "After any sequence of edits to existing OCaml sources, interfaces, lexers and grammars (including which modules they use), flags and removals of outputs, an incremental bytecode or native build of modules, libraries, packs and programs succeeds exactly when a clean build does and makes the same files. "
  "Modules are compiled and linked after those they use however they are listed, a cycle is an error, nothing is compiled twice, and only what a change concerns is made again.",
  ['histories', 'configurations'],
  "every edit sequence up to the explored depth over a project with interfaces, a library, generated and packed modules",
  "The OCaml examples build once from scratch.",
  ['builders/ocaml/__init__.py', 'db/database.py'],
  [('dependencies', 'Ocamldep'), ('order', 'Builder.build_objects, scheduler.map_with_dependencies'), ('compiled dependencies', 'Builder._add_compile_dependencies'), ('packs', 'Builder.build_pack')],
  ['commands run, contents of outputs, programs\' output']),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(props), 'properties')
