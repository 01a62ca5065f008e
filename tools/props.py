prop('C01', 'Locks exclude: one thread at a time inside a synchronized section',
     'Whatever the schedule, no two threads are ever inside sections guarded by the same monitor, locked dataset or locked '
     'structure at the same time, a re-entrant monitor may be re-entered only by its owner, and a temporary release hands '
     'the lock out and takes it back exactly as it was. The lock is given back on every way out, including exceptions, timeouts '
     'and generators, so nobody waits forever and nobody leaves with somebody else\'s lock. Non-blocking and timed acquisitions '
     'either succeed or report the failure without touching the guarded data, and a set that is checked and inserted into in '
     'one go admits each element exactly once.',
     ['schedules', 'programs', 'fault_sequences'],
     'all interleavings of threads using any mix of the synchronization helpers, including nested use and exceptions inside',
     'Unit tests run one or two threads under whatever schedule the OS happens to give them, mostly with sleeps that keep the '
     'threads apart; a window of a few instructions between test and set is never hit.',
     [CO + 'monitor.py', CO + 'locked_dataset.py', CO + 'locked_structure.py'],
     ['the lock owned by each monitor', 'locked flag of a dataset'],
     [('monitor acquire/release/synchronize_on', CO + 'monitor.py'), ('locked dataset', CO + 'locked_dataset.py'),
      ('locked structure', CO + 'locked_structure.py')],
     ['entry to and exit of guarded sections in the workload'])
prop('C02', 'Atomic numbers behave as if each operation happened at one instant',
     'Any concurrent history of arithmetic, assignment, comparison and conversion with plain numbers on an atomic number is '
     'equivalent to some sequential order of the same operations that respects real time, so no update is ever lost. A thread '
     'waiting for the number to reach a value is released whenever the number comes to rest at this value, no matter by which operation, and '
     'timed waits end with a timeout error not before the time given.',
     ['schedules', 'histories', 'inputs'],
     'all interleavings of operations on one number by several threads, and all operand values',
     'Tests call operators one after another; lost updates and lost wakeups need a switch in the middle of an operation.',
     [CO + 'atomic.py'], ['the value', 'condition variable of waiters'], [('operators', CO + 'atomic.py')],
     ['invocation and return of each operation'])
prop('C03', 'What is to be issued, set, started or built once is, exactly once',
     'An identifier handed out by an allocator is never handed out again before it is freed, stays within the configured '
     'range, and allocation fails only if the range is exhausted; issuers of consecutive numbers never repeat nor go back. A '
     'deferred value accepts exactly one setter and shows that value to everyone, a single-start thread runs once however many '
     'times it is started. A singleton (also one per arguments, also one held weakly) is constructed once per key, and nobody ever gets a '
     'half-constructed one or one whose construction failed.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings of allocations, frees, markings, sets, starts and constructions',
     'Tests allocate a few identifiers in one thread; races for the same identifier or instance are never provoked.',
     [CO + 'id_allocator.py', CO + 'value.py', CO + 'thread.py', ST + 'singleton.py'],
     ['set of identifiers in use', 'deferred value', 'instance registry of a singleton'],
     [('allocator and issuer', CO + 'id_allocator.py'), ('deferred value', CO + 'value.py'),
      ('singletons', ST + 'singleton.py')], ['results of the calls'])
prop('C04', 'Queues deliver every element exactly once and in order, nobody oversleeps',
     'Every element put on a queue is delivered to exactly one consumer, in the order in which elements were put (per '
     'sub-queue for the compound queue), while peeking shows the element that would be delivered next without taking it. '
     'A consumer blocks only while there is nothing for it to take, is woken up when there is, and a timed wait ends with '
     'an emptiness error no sooner than its timeout passes with nothing to take. Reported sizes equal the number of elements '
     'held, and elements equal to None or otherwise falsy are treated as any other.',
     ['schedules', 'histories'],
     'all interleavings of producers and consumers, single and bulk puts, blocking, timed and non-blocking gets and peeks',
     'Tests use a single producer and a single consumer; lost wakeups need several waiters and a bulk put.',
     [CO + 'queue.py', ST + 'queues.py'], ['queue contents', 'waiting consumers'],
     [('peekable queue', CO + 'queue.py'), ('sub-queues', ST + 'queues.py')], ['put/get/peek results and their order'])
prop('C05', 'Futures and executors: each result arrives once, to everyone who asked',
     'Every future that is started ends up exactly once as finished, failed or cancelled, and everybody who waits for it or '
     'registered a callback, before or after, learns of exactly that outcome; success callbacks never run for failures nor '
     'cancellations, and callbacks chained onto a future see its final result. Wrapping, grouping, parallel execution and '
     'construction, running in a separate thread and synchronizing a whole thread pool neither lose, duplicate nor reorder '
     'results, nor hang, whatever the tasks raise.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings of completion, cancellation, waiting and callback registration, all outcomes of the tasks',
     'Tests complete futures sequentially; a cancellation racing a completion, or a task raising a non-Exception, is not tested.',
     [CO + 'futures/futures.py', CO + 'futures/collection.py', CO + 'futures/wrapped_executor.py',
      CO + 'futures/call_in_future.py', CO + 'functions.py', CO + 'sync.py', CO + 'list_processor.py', CO + 'thread.py'],
     ['state of the future', 'callbacks registered'], [('futures', CO + 'futures/futures.py'),
                                                       ('collections of futures', CO + 'futures/collection.py')],
     ['results, exceptions and callbacks as seen by the workload'])
prop('C06', 'Managed threads run, loop, wait, terminate and clean up as promised',
     'A terminable thread prepares once, loops until told to terminate or until an exception says so, never begins more than '
     'one loop after being told to terminate, and cleans up exactly once as the last thing in its own thread; exceptions it '
     'was told to terminate on are swallowed and others are reported. Interval threads keep their period (reporting '
     'overruns), safe sleeps and waits end in time and end early upon termination. Conditions wake exactly as many waiters as were notified and honour their '
     'timeouts, and collections of threads start, terminate and join all of their members.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings of starting, terminating, notifying and joining, all points at which the user code may raise',
     'Tests sleep for seconds to let one schedule happen; a termination request landing between two checks is not tested.',
     [CO + 'thread.py', CO + 'thread_collection.py'], ['termination flag', 'condition waiters'],
     [('terminable threads', CO + 'thread.py'), ('thread collections', CO + 'thread_collection.py')],
     ['hook methods of the threads', 'virtual clock'])
prop('C07', 'Callbacks and timers fire when, as often and in the order they should',
     'Calling a group of callables calls each that is registered and not cancelled once, in the order of registration, with '
     'the same arguments, gathering results or passing the exception on as configured; one-shot callables are called '
     'exactly once in their life and nothing is forgotten because something else raised. A rate-limited callable is called '
     'the first time and then no more often than its interval. A timer fires exactly once, not before its time and at most '
     'about a second after it, and not at all if cancelled in time, no matter what other timers do.',
     ['schedules', 'histories', 'fault_sequences'],
     'all histories of registrations, cancellations and calls from several threads, and all exceptions raised by callables',
     'Tests register two callables and call them from one thread.',
     [CO + 'callablegroup.py', CO + 'timer.py'], ['registered callables', 'timers waiting'],
     [('callable groups', CO + 'callablegroup.py'), ('timers', CO + 'timer.py')], ['calls made to the registered functions'])
prop('C08', 'Heaps hand out their elements smallest first, none lost and none repeated',
     'For every history of operations, a heap contains exactly the elements that were put in and not taken out (without '
     'duplicates in the set-like variants, where putting a known item in a time-ordered heap moves it), and taking out always '
     'yields the smallest, with ties in any order. Asking a time-ordered heap for everything before a moment returns exactly '
     'the entries with timestamps strictly before it, in order, and leaves the rest. Iterating and copying does not disturb '
     'the heap, and items need not be comparable with each other if they are ordered by timestamps.',
     ['histories', 'inputs'], 'all histories of pushes, pops, removals, filterings, copies and queries, and all element values',
     'Tests push a handful of elements and pop them.',
     [ST + 'heaps/base.py', ST + 'heaps/time.py'], ['heap array', 'item to timestamp map'],
     [('heaps', ST + 'heaps/base.py'), ('time-ordered heaps', ST + 'heaps/time.py')], ['results of operations'])
prop('C09', 'Expiring and self-cleaning dictionaries forget exactly what they should',
     'An entry of an expiring dictionary is visible by every way of looking (reading, membership, length, iteration) from the '
     'moment it is set until its lifetime passes and by none afterwards, and setting it again starts its lifetime anew. A '
     'self-cleaning dictionary reads every key that it does not hold as the default value, and does not list nor count values equal to the default. '
     'Neither reading, deleting, concurrent use nor the background cleaner makes them fail, lose live entries or stop being '
     'cleaned, and they can be used while they are held locked.',
     ['schedules', 'histories'],
     'all histories of operations and clock readings, with the background cleaner and other threads interleaved anywhere',
     'Tests wait real seconds for one entry to expire.',
     [ST + 'dictionaries/expiring.py'], ['entries and their expiration times'],
     [('expiring dictionaries', ST + 'dictionaries/expiring.py')], ['results of dictionary operations', 'virtual clock'])
prop('C10', 'Caches serve fresh or stale values, never expired ones, within their size',
     'A cache asks its source only for a value that it does not hold or that has expired, serves a stale one at once '
     'while refreshing it in the background, and never serves an expired, evicted, invalidated or made-up value; failures '
     'are remembered only for as long as configured and are not reported for keys that the source knows. The size-limited variant '
     'never exceeds its size and evicts the least recently used entry, only when it has to, and metrics count what really '
     'happened. Memoized functions return a value computed for the very arguments given, without calling the function again '
     'while the value is valid.',
     ['schedules', 'histories', 'fault_sequences'],
     'all histories of reads, writes, feeds, invalidations, source failures and clock movements, by any number of threads',
     'Tests read a few keys with real sleeps; evictions racing reads and refreshes are not tested.',
     [ST + 'dictionaries/cache_dict.py', ST + 'lru.py', 'satella/coding/decorators/decorators.py',
      'satella/instrumentation/metrics/structures/cache_dict.py'], ['cached values, their timestamps, cached failures'],
     [('cache dictionaries', ST + 'dictionaries/cache_dict.py'), ('memoizers', 'satella/coding/decorators/decorators.py')],
     ['calls to the source', 'values returned'])
prop('C11', 'A write-back cache and its storage agree, and reads see the latest write',
     'Every read of a write-back cache returns the latest value written (or reports it missing if deleted or never written), '
     'no matter which write-backs are still on their way and which of them fail. Each write and deletion reaches the storage '
     'exactly once, those of one key in the order in which they were made; waiting for the cache to sync returns only when all '
     'of them have finished, or gives up in time if a timeout was given. Storage is asked only for values that the cache '
     'does not know.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings of readers, writers and write-back workers, and all storage delays and failures',
     'Tests write one key with one thread, and sleep for the write-back to happen.',
     [ST + 'dictionaries/writeback_cache.py', 'satella/instrumentation/metrics/structures/cache_dict.py'],
     ['values cached, operations waiting'],
     [('write-back cache', ST + 'dictionaries/writeback_cache.py')], ['calls to the storage', 'values returned'])
prop('C12', 'Ordered containers, deques and sparse matrices hold what they were given',
     'Sorted lists and rankings always list exactly the elements added and not removed, by ascending key, with equal keys in '
     'any order and elements never compared with each other, and report positions that are true. Sliceable deques '
     'index, slice and change like lists do. A sparse matrix always has the smallest size that holds all of its defined cells, '
     'reads every other cell as undefined, and accepts single cells, whole rows, columns and negative indices alike; least recently used '
     'trackers, push-back iterators, vectors and zipped sets do what their plain counterparts do.',
     ['histories', 'inputs'], 'all histories of operations on all element values',
     'Tests try a handful of small literals.',
     [ST + 'sorted_list.py', ST + 'ranking.py', ST + 'sparse_matrix.py', ST + 'lru.py', ST + 'tuples.py'],
     ['elements and keys', 'cells and column counts'],
     [('sorted lists', ST + 'sorted_list.py'), ('sparse matrix', ST + 'sparse_matrix.py')], ['results of operations'])
prop('C13', 'Special dictionaries and deleters act as plain ones with just their speciality',
     'For every history of operations, two-way dictionaries keep both directions consistent and refuse a value that is '
     'already mapped, dirty dictionaries know precisely if their contents have changed, defaulting and counting ones create '
     'only what they should, views write and delete where configured, attribute dictionaries are plain dictionaries that can '
     'be copied, and frozen ones cannot be changed in any way and hash equal if equal. Deleters visit each element '
     'once, change nothing during the iteration and remove exactly what was marked afterwards, in whichever direction '
     'they walk.',
     ['histories', 'inputs'], 'all histories of operations, keys and values',
     'Tests try a handful of small literals.',
     [ST + 'dictionaries/objects.py', ST + 'dictionaries/dict_object.py', ST + 'dictionaries/counting.py',
      ST + 'dictionaries/default.py', ST + 'immutable.py', 'satella/coding/deleters.py'],
     ['underlying dictionaries and lists', 'dirty flag', 'marks for deletion'],
     [('special dictionaries', ST + 'dictionaries/objects.py'), ('deleters', 'satella/coding/deleters.py')],
     ['results of operations', 'contents of underlying objects'])
prop('C14', 'Proxies, optionals, predicates and mix-ins act exactly as what they stand for',
     'Every operator, conversion, comparison and access through a proxy yields what it would yield on the wrapped object, '
     'wrapped or not as configured, and in-place operators keep the proxy; an empty optional absorbs every supported operation and compares false. '
     'A predicate built of any operators evaluates to the same as the expression written down directly. Equality, order and '
     'hash of mixed-in classes agree with each other and with the fields declared, and immutable objects cannot be '
     'changed once constructed.',
     ['inputs'], 'all objects, operators and nested expressions, fields and their values',
     'Tests try each operator with one pair of numbers at most.',
     [ST + 'proxy.py', 'satella/coding/optionals.py', 'satella/coding/predicates.py', ST + 'mixins/hashable.py',
      ST + 'mixins/enums.py', ST + 'immutable.py', ST + 'hashable_objects.py', ST + 'typednamedtuple.py'],
     ['wrapped objects', 'declared fields'],
     [('proxy', ST + 'proxy.py'), ('predicates', 'satella/coding/predicates.py'), ('mix-ins', ST + 'mixins/hashable.py')],
     ['values and exceptions returned'])
prop('C15', 'A synchronized time series never loses, repeats nor reorders its entries',
     'Entries that arrive at a synchronizable series are kept, in memory or in its database, with ascending timestamps, each '
     'once, and everything that has not been synchronized yet is handed out for synchronization and is kept until it is; '
     'acknowledging a synchronization marks exactly the entries up to the timestamp given, even if database calls fail or the '
     'program restarts in between. Reading the archive yields precisely the entries that are still kept within the range asked for, and no more than '
     'the configured number stay in memory and in the database. Everything that is obtained from the database is released.',
     ['histories', 'fault_sequences', 'crash_points'],
     'all histories of arrivals, synchronizations, evictions, database failures and restarts',
     'Tests replay two or three scripted histories against a perfect database.',
     [ST + 'syncable_droppable.py'], ['entries in memory and in the database', 'last synchronized timestamp'],
     [('series', ST + 'syncable_droppable.py')], ['calls to the database', 'entries handed out'])
prop('C16', 'Sequence helpers yield exactly the right elements, lazily, for every iterable',
     'Grouping, shifting, skipping, counting, choosing, zipping, walking, filtering and wrapping helpers return exactly the '
     'elements, in the order, that a loop written down would, for iterables of every kind and length including one-shot '
     'iterators and empty ones. Lazy helpers take no more elements out of the source than they have to, exceptions of the source '
     'pass through, and completion actions and closing happen precisely once and only when they should.',
     ['inputs', 'histories'], 'all iterables, lengths and parameters',
     'Tests try each helper with one or two literal lists.',
     ['satella/coding/sequences/iterators.py', 'satella/coding/sequences/sequences.py', 'satella/coding/generators.py',
      'satella/coding/iterators.py', 'satella/coding/misc.py'], ['position of the source iterator'],
     [('iterators', 'satella/coding/sequences/iterators.py'), ('choosing', 'satella/coding/sequences/choose.py')],
     ['elements yielded', 'elements taken out of the source'])
TR = 'satella/coding/transforms/'
prop('C17', 'Data transforms compute exactly what they promise, for every input',
     'Merging series yields one row for every moment at which each series already has a value, with the latest value of each; '
     'merging keyed lists yields each key once, in order, with all of its values merged, whatever the values are. '
     'Interpolation, percentiles, clipping, padding, converting to strings, integers and JSON-able values, merging of '
     'dictionaries, and shuffling (which keeps exactly the elements given, and their correspondence) agree with a direct computation for all '
     'inputs, and never alter arguments that they are not supposed to alter.',
     ['inputs'], 'all numbers, nested structures, series and lists', 'Tests try one or two literals for each transform.',
     [TR + 'merger.py', TR + 'merge_list.py', TR + 'interpol.py', TR + 'percentile.py', TR + 'jsonify.py', TR + '__init__.py',
      'satella/coding/algos.py', 'satella/random.py'], ['none: pure functions'],
     [('series', TR + 'merger.py'), ('keyed lists', TR + 'merge_list.py')], ['values returned'])
prop('C18', 'Every object can be made JSON, and JSON files are read back as written',
     'Encoding any object never fails and yields its declared JSON form, the value of an enumeration, the attributes of a plain object, '
     'also when nested. A JSON file is UTF-8 in every locale, reads back as the value that was written and is rewritten by the '
     'conditional writer only if its contents would differ, which is reported truly; an invalid file raises ValueError. Data objects '
     'convert to JSON and back to an equal object with an equal hash, apply their defaults and refuse to be created without a required field.',
     ['inputs'], 'all nested structures of plain values and objects, all field values',
     'Tests encode single objects.', ['satella/json.py'], ['file contents'],
     [('encoder', 'satella/json.py')], ['JSON text', 'file contents and modification'])
prop('C19', 'A binary parser hands out the bytes of its window, never others nor fewer',
     'Each read returns exactly the next bytes asked for (or values unpacked of them) and moves the position past '
     'them; if fewer remain within the window, it raises an error and moves nothing. Nested windows cover exactly the bytes asked '
     'for and are independent of their parent, and remaining counts, lengths and contents are always true, for any '
     'offset and length.',
     ['inputs', 'histories'], 'all streams, offsets, lengths and histories of reads',
     'Tests parse one nine-byte literal.', ['satella/parsing.py'], ['position and window'],
     [('parser', 'satella/parsing.py')], ['values returned', 'remaining bytes'])
prop('C20', 'File helpers do exactly what they say to the disk, and report it truly',
     'Whatever is written by a helper is what a plain reader finds: an auto-flushing file makes each write visible at once, appends or truncates as '
     'its mode says, remembers its position and is not kept open in between; a conditional write happens if and only if contents '
     'differ. Names made up collide with nothing, splitting a path is undone by joining it, searches find exactly the files that '
     'match, deletion reports whether it happened, and the working directory is restored even upon an exception.',
     ['histories', 'inputs'], 'all contents, paths, modes and histories of operations',
     'Tests try single operations.', ['satella/files.py'], ['files of a directory', 'position in a file'],
     [('files', 'satella/files.py')], ['directory contents', 'results of operations'])
prop('C21', 'A PID file lock has at most one live holder and is never stuck with a dead one',
     'Of any number of processes that acquire a PID file lock at any moment, at most one holds it at a time, and others are told that it is '
     'locked and the PID of the holder. If the holder dies at any point, be it in the middle of acquiring or releasing, or the file contains '
     'anything but the PID of a live process, the next one to come acquires the lock. While held the file contains the PID of the '
     'holder, and releasing removes it; releasing a lock that is not held is an error.',
     ['schedules', 'crash_points', 'histories'], 'all interleavings of processes and all points at which one is killed',
     'Tests let one process hold the lock, and another one fail to acquire it.', ['satella/os/pidlock.py'],
     ['lock file contents'], [('lock', 'satella/os/pidlock.py')], ['who holds the lock at every moment'])
prop('C22', 'Process helpers return all the output, and obey exactly the right signals',
     'Calling a process returns the whole of its output however long it is and decodes it properly, fails upon an unexpected '
     'return code, and kills it upon a timeout. Waiting for a signal ends upon each of the signals waited for and no other, and '
     'restores the previous handlers; daemons are detached, with user and group changed as requested; self-killing ends the '
     'process, and its group only if asked to and if it leads it. Searching for executables finds exactly the executable files '
     'in the search path, in order.',
     ['inputs', 'schedules', 'fault_sequences'], 'all outputs, exit codes, signals and search paths',
     'Tests call ls, and mock the system calls.',
     ['satella/processes.py', 'satella/os/signals.py', 'satella/os/daemon.py', 'satella/os/misc.py'],
     ['child processes', 'signal handlers'], [('processes', 'satella/processes.py'), ('signals', 'satella/os/signals.py')],
     ['output', 'states of processes'])
prop('C23', 'A configuration schema yields exactly what it declares, or a validation error',
     'For every schema composed of the descriptors and every value, applying it either returns the value converted as declared '
     '(required keys present, missing optional ones defaulted, unknown ones passed through the mapper, lists in order, the first '
     'fitting branch of a union, checkers run before or after the conversion as declared) or raises a configuration validation error '
     'and never anything else; the value given is never modified. A value is accepted if and only if it fits, in particular as an '
     'IPv4 address, a regular expression match, a boolean, a number, a file, its contents or a directory. A schema loaded from its dictionary form decides '
     'identically to the same schema built by hand, and a form naming an unknown descriptor is refused with a schema error.',
     ['inputs', 'programs', 'schedules'], 'all schemas (hand-built and loaded) and all configuration values, also used by several threads',
     'Tests validate a few hand-picked dictionaries against a few schemas and hardly any value that does not fit.',
     ['satella/configuration/schema/base.py', 'satella/configuration/schema/basic.py', 'satella/configuration/schema/structs.py',
      'satella/configuration/schema/from_json.py', 'satella/configuration/schema/registry.py'],
     ['registered descriptors', 'checkers of each descriptor'],
     [('descriptors', 'satella/configuration/schema/basic.py'), ('structures', 'satella/configuration/schema/structs.py'),
      ('dictionary form', 'satella/configuration/schema/from_json.py')],
     ['the value returned or exception raised', 'the value given, before and after'])
prop('C24', 'Sources of configuration provide what they hold and combine as documented',
     'A tree of configuration sources provides exactly what its parts hold: merging lets later sources override earlier ones '
     '(dictionaries recursively, lists concatenated), alternatives give the first source that works, optional ones give an empty '
     'configuration in place of a failure, and the failure policies raise or skip as configured, failing if nothing could be loaded. '
     'Providing again gives the same result, and no source is modified by being merged. Files, directories (absolute or relative, '
     'with filters and subdirectories), environment variables and HTTP give the document they contain, whatever the supported format; '
     'everything missing, malformed or not a dictionary is reported as a configuration error and nothing else. Sources loaded from '
     'their dictionary form behave as those built by hand.',
     ['inputs', 'programs', 'fault_sequences'], 'all trees of sources, all configurations, all states of files and environment',
     'Tests merge two dictionaries once; providing repeatedly, failure policies in nested trees and broken documents are not tried.',
     ['satella/configuration/sources/base.py', 'satella/configuration/sources/derivative.py', 'satella/configuration/sources/file.py',
      'satella/configuration/sources/format.py', 'satella/configuration/sources/envvars.py', 'satella/configuration/sources/from_dict.py',
      'satella/configuration/sources/object_from.py', 'satella/coding/algos.py'],
     ['the configuration held by each source'],
     [('merging and alternatives', 'satella/configuration/sources/derivative.py'), ('files and directories', 'satella/configuration/sources/file.py'),
      ('dictionary form', 'satella/configuration/sources/from_dict.py')],
     ['the configuration provided, repeatedly', 'the configuration held by sources, before and after'])
ME = 'satella/instrumentation/metrics/'
prop('C25', 'Metrics export exactly what was reported to them, and nothing gets lost',
     'After any history of creations, reports, level changes and resets, the data exported by any metric of the tree is exactly what its '
     'type says of the values accepted by it and its children: a value is accepted if and only if the effective level of the metric '
     'allows it at the time of the report, and a child is exported only if its level does not exceed that of its parent. One name '
     'is one metric of one type. Labels make independent submetrics, along with totals if configured; timestamps are those of the last '
     'update; internal metrics are never shown by exporters. Values reported by several threads at once are all '
     'accounted for and exporting at the same time never fails. Collections of data add, rename and travel through JSON faithfully, '
     'and the Prometheus text, also over HTTP, parses back to the very same names, labels and values.',
     ['histories', 'inputs', 'schedules'], 'all histories over trees of metrics of all types, all labels and values, all interleavings of reporting threads',
     'Tests report a few values to a single metric from one thread and compare one snapshot.',
     [ME + '__init__.py', ME + 'data.py', ME + 'metric_types/base.py', ME + 'metric_types/counter.py', ME + 'metric_types/cps.py',
      ME + 'metric_types/histogram.py', ME + 'metric_types/summary.py', ME + 'metric_types/linkfail.py', ME + 'metric_types/simple.py',
      ME + 'exporters/prometheus.py', ME + 'labeled.py', ME + 'aggregate.py'],
     ['registry of metrics', 'value, level and submetrics of each metric'],
     [('metric tree and levels', ME + 'metric_types/base.py'), ('registry', ME + '__init__.py'), ('collections', ME + 'data.py'),
      ('Prometheus export', ME + 'exporters/prometheus.py')], ['exported data after each step', 'the text served over HTTP'])
TI = 'satella/time/'
prop('C26', 'Time is measured, waited for, backed off and parsed exactly',
     'A counter shows the total of its running periods whatever the sequence of starts, stops, resets and sections, knows whether '
     'its timeout has passed, refuses operations that make no sense in its state, and stops along with the future it measures. Measured '
     'functions, methods, generators, sections and futures behave as unmeasured ones, results and exceptions included, while each execution '
     'is reported to its metrics exactly once and failures only if told so. A backoff doubles its delay up to the limit, forgives '
     'as many failures as it was told to and starts afresh after a success; those waiting for availability return once it is due, or fail '
     'after their timeout and not earlier, and never crash nor cancel a failure reported meanwhile. Sleeping lasts as long as told '
     'despite interrupts, and time strings in all documented units are understood.',
     ['histories', 'schedules', 'inputs', 'fault_sequences'], 'all sequences of operations on a counter or backoff, all interleavings of waiters with failures and successes',
     'Tests sleep for real for a few tenths of a second and check one inequality.',
     [TI + 'measure.py', TI + 'backoff.py', TI + 'misc.py', TI + 'parse.py', ME + 'metric_types/measurable_mixin.py'],
     ['state of a counter', 'state of a backoff'],
     [('counter', TI + 'measure.py'), ('backoff', TI + 'backoff.py'), ('measuring metrics', ME + 'metric_types/measurable_mixin.py')],
     ['readings against a virtual clock', 'results and reports of measured executions'])
prop('C27', 'A thread pool with metrics runs each task once and accounts for it',
     'Each task submitted to a metrified thread pool executes exactly once unless it was cancelled, its result or exception is delivered through '
     'its future, and as many tasks run in parallel as there are workers allowed. Initializers run once in each worker and one that '
     'fails breaks the pool for everybody. Shutting the pool down lets the accepted work finish and refuses more; a pool nobody refers to '
     'anymore ends its threads. Every task is reported exactly once to the metrics of waiting and execution times, with the '
     'time it really took, and the worker and queue gauges describe the pool as it is.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings of submissions, cancellations, failures and shutdowns on pools of all sizes',
     'Tests submit one or two tasks to one pool and look at one metric after a sleep.',
     [ME + 'structures/threadpool.py'],
     ['the queue of tasks', 'worker threads'], [('executor', ME + 'structures/threadpool.py')],
     ['executions of the tasks', 'futures', 'exported metrics'])

prop('C28', 'Decorators call what they wrap with the arguments it was meant to get',
     'Whatever the signature of the decorated function or method and however it is called, each decorator calls it with exactly the documented '
     'arguments (transformed, attached, copied, replaced or chained), exactly as many times as documented, returns its documented '
     'result, and keeps its name and signature; a call invalid for the function is refused as well. '
     'Arguments collected for a function are those it would see and calling with collected arguments gives each to the parameter it belongs to. '
     'Of overloads the one matching the types and number of arguments is called, or none. Loops run as long as their '
     'condition holds, closeables clean up exactly once, classes made by metaclasses have the methods and documentation they should have.',
     ['inputs', 'programs'], 'all signatures, all ways to call, all values, all exceptions thrown by wrapped callables',
     'Tests decorate a few one-argument functions and call them once with positional arguments.',
     ['satella/coding/decorators/arguments.py', 'satella/coding/decorators/decorators.py', 'satella/coding/decorators/flow_control.py',
      'satella/coding/misc.py', 'satella/coding/overloading.py', 'satella/coding/fun_static.py', 'satella/coding/metaclasses.py',
      'satella/coding/ctxt_managers.py'],
     ['arguments bound to parameters'],
     [('argument decorators', 'satella/coding/decorators/arguments.py'), ('collecting and passing arguments', 'satella/coding/misc.py'),
      ('overloading', 'satella/coding/overloading.py'), ('metaclasses', 'satella/coding/metaclasses.py')],
     ['calls received by the wrapped callable', 'results and exceptions of the wrapper'])
prop('C29', 'Exceptions are recast, silenced, retried, logged and handled just as declared',
     'An exception of a declared type is silenced, transformed or logged exactly as declared and any other passes untouched, for functions, '
     'generators, context managers, recursive calls and all threads sharing a helper; results of those that succeed are never lost. A retried function '
     'executes at most as many times as told, never again after a success, with each callback called when due. Functions with a '
     'precondition that fails are not executed. Global exception hooks see each unhandled exception of each thread, '
     'main one included, exactly once in the order of priorities until intercepted, a failing hook harms no other, dumps hold the '
     'exception with local variables, and the process is terminated on MemoryError unless the custom hook objects. Exception classes print their '
     'arguments, and coded ones are instances of classes of the same code in their hierarchy only.',
     ['inputs', 'programs', 'schedules', 'fault_sequences'], 'all exceptions and arrangements of helpers and hooks, in all threads',
     'Tests throw one expected exception through each helper from one thread.',
     ['satella/coding/recast_exceptions.py', 'satella/coding/decorators/retry_dec.py', 'satella/coding/decorators/preconditions.py',
      'satella/coding/expect_exception.py', 'satella/exceptions.py', 'satella/exception_handling/global_eh.py',
      'satella/exception_handling/exception_handlers.py', 'satella/exception_handling/dump_to_file.py',
      'satella/exception_handling/memerrhandler.py'],
     ['hooks installed', 'remapped-exception flag'],
     [('recasting', 'satella/coding/recast_exceptions.py'), ('retry', 'satella/coding/decorators/retry_dec.py'),
      ('global hook', 'satella/exception_handling/global_eh.py')],
     ['results and exceptions coming out', 'calls of hooks and callbacks, text of dumps'])
prop('C30', 'Stack and memory dumps, sizes and deep comparison show the exact program state',
     'A Traceback holds every frame from the innermost one outwards, with the right function, file, line and all locals and globals, for an '
     'exception, a given frame or another thread; every value is kept as text and, where policy allows and the value can be pickled, loads back equal; '
     'what can not be pickled raises ValueError, and no hostile value aborts a dump. Pickling and JSON round trips lose nothing. Dumps on '
     'a signal show all threads. A memory dump lists each object once with right totals by type, biggest first. get_size counts each '
     'reachable object once, also in cycles. assert_equal raises exactly when structures differ, telling the first difference and its kind.',
     ['inputs', 'programs'], 'all call chains, values, policies and object graphs',
     'Tests take a single traceback of simple values.',
     ['satella/instrumentation/trace_back/trace_back.py', 'satella/instrumentation/trace_back/classes.py',
      'satella/instrumentation/dump_frames_on.py', 'satella/instrumentation/memory/dump_frames_on.py',
      'satella/instrumentation/memory/get_object_size.py', 'satella/coding/deep_compare.py'],
     ['stack frames', 'object graph'],
     [('frames', 'satella/instrumentation/trace_back/trace_back.py'), ('stored values', 'satella/instrumentation/trace_back/classes.py'),
      ('comparison', 'satella/coding/deep_compare.py')],
     ['frames and values in dumps', 'sizes', 'inequality reported'])
prop('C31', 'Memory pressure and CPU load are recognized as they are and acted upon in order',
     'Memory conditions, and their boolean combinations, are true exactly when free memory is below what they say. The memory pressure manager is in '
     'the highest level whose condition holds, goes through each level in between, calling callbacks of entering, leaving, remaining and '
     'returning to normal once each and only if not cancelled, cleans up the objects still alive without keeping them, and honours '
     'whatever was registered at any time. Occupancy is the mean load since the last measure, on any system and with any number of threads asking; '
     'percentiles are those of loads seen in the window; own usage is per second. CPU-aware sleeping ends upon its bound or its time, and a '
     'CPU-aware loop starts at most max_sooner early, only upon low load, and never late.',
     ['inputs', 'histories', 'schedules'], 'all histories of load and memory, and all schedules of askers and registrations',
     'Tests wait for real load on one machine, with one order of levels.',
     ['satella/instrumentation/memory/memthread.py', 'satella/instrumentation/memory/conditions.py',
      'satella/instrumentation/cpu_time/collector.py', 'satella/instrumentation/cpu_time/concurrency.py',
      'satella/coding/transforms/percentile.py'],
     ['severity level', 'callbacks and objects registered', 'load samples'],
     [('levels', 'satella/instrumentation/memory/memthread.py'), ('conditions', 'satella/instrumentation/memory/conditions.py'),
      ('load', 'satella/instrumentation/cpu_time/collector.py')],
     ['callbacks called', 'loads, percentiles and times reported'])
prop('C32', 'Pools, transactions, lazy objects and package imports stay consistent',
     'A pooled connection is never given to two users at once, nor after it failed, was torn down, or has been taken max_cycle_no times; each is '
     'torn down exactly once and never in use, idle ones are reused first and number at most max_number as it is at the time, and invalidation or '
     'closing neither hangs nor leaves an idle one, whatever threads and faults there are. A transaction is committed exactly when its block succeeds, else '
     'rolled back, and the cursor, and connection if asked, is closed even when the database fails, with no exception lost; the connection comes from '
     'any callable, called once. Methods of Loadable objects run only after a refresh, done once unless it fails. import_from brings in '
     'exactly the names that the tree of packages declares.',
     ['schedules', 'histories', 'fault_sequences', 'inputs'], 'all schedules of users, all faults and package trees',
     'Tests use a pool with one-second sleeps, no faults and one import tree.',
     ['satella/coding/resources/cp_manager.py', 'satella/db.py', 'satella/dao.py', 'satella/imports.py'],
     ['idle connections and taking counts', 'transaction state', '__all__ of packages'],
     [('pool', 'satella/coding/resources/cp_manager.py'), ('transactions', 'satella/db.py'), ('imports', 'satella/imports.py')],
     ['connections given and torn down', 'calls to the database', 'names imported'])
prop('C33', 'Spans, driver futures and tainted values carry what happened to the end',
     'Each traced call has exactly one span, with its own tags, the right parent and the error if it failed, finished at its end; a span of a traced '
     'future is finished exactly once in whatever way the future ends, before or after tracing began, with its exception attached; traced exceptions '
     'are attached with the stack trimmed to the limit. A wrapped driver future delivers the same result or exception in any schedule, and parallel_for '
     'sends all queries with their own arguments before waiting and yields results in order. Whatever is computed of a tainted value, its '
     'items and attributes, is tainted too and equal to what it would be without tainting; sessions belong to a single thread, do not nest and end '
     'with the block.',
     ['inputs', 'schedules', 'programs'], 'all calls, outcomes of futures, and programs over tainted values',
     'Tests never look at spans of failures, and taint a single addition.',
     ['satella/opentracing/trace.py', 'satella/opentracing/exceptions.py', 'satella/cassandra/future.py', 'satella/cassandra/parallel.py',
      'satella/debug/tainting/tainteds.py', 'satella/debug/tainting/environment.py'],
     ['spans', 'futures', 'taint of values'],
     [('tracing', 'satella/opentracing/trace.py'), ('futures', 'satella/cassandra/future.py'), ('tainting', 'satella/debug/tainting/tainteds.py')],
     ['spans finished with tags and logs', 'results of futures', 'values and taint'])

prop('C34', 'Any module can be imported first, and importing does nothing else',
     'Each module of the package can be the first one imported in a fresh interpreter, and all of them can be imported in any order, with or without '
     'the optional libraries (PyYAML, toml, ujson, requests, the Cassandra driver, OpenTracing); then only what needs the missing library is gone. Every '
     'name in __all__ is there, once, and is the same thing whatever the order. Importing starts no threads, prints nothing, and leaves '
     'signals, environment, working directory, random generators, logging and limits of the process alone.',
     ['histories', 'environments'], 'all orders of importing and all sets of missing optional libraries',
     'A test run imports the package once, in one order, with everything installed.',
     ['satella/coding/__init__.py', 'satella/configuration/schema/__init__.py', 'satella/configuration/sources/format.py', 'satella/coding/predicates.py',
      'satella/coding/structures/dictionaries/dict_object.py'],
     ['imports', 'names', 'state of the process'],
     [('packages', 'satella/coding/__init__.py'), ('optional libraries', 'satella/configuration/sources/format.py')],
     ['modules and names found by fresh interpreters', 'state of the process before and after'])

prop('C35', 'Contexts form a stack of cards per thread, uncovered as they are left',
     'A variable read from a context is the one set last on it or given when it was made, else that of the nearest enclosing one having it; setting or deleting it never '
     'changes an enclosing context, unless it was pushed up, and a deleted one is absent there and below for the duration of the context. The context entered is the '
     'current one, and leaving it, by an exception too, makes the enclosing one current again with its variables unchanged, to any depth and '
     'however contexts are reused. Contexts of a thread are never seen by other threads.',
     ['histories', 'schedules'], 'all programs of entering, leaving, setting, deleting and pushing up, in any number of threads',
     'Tests enter at most three contexts and never look at the current one after leaving.',
     ['satella/coding/environment.py'], ['the stack of contexts of each thread'], [('contexts', 'satella/coding/environment.py')],
     ['values and existence of all variables on all cards, and the current context, after each step'])
