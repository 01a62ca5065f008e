HEAD = '''
# Deciding the properties of satella by runtime monitoring

Generated by `tools/gen_design.py` from `tools/design_text.py`, `tools/props.py`, the scenarios registered in `checks/`, and `seeded/`.

satella is pure Python without native code, so the compiler sanitizers (ASan, UBSan, TSan) have nothing to look at: there is no
memory to corrupt but the interpreter's own. What remains of the family is what is used here: the real code of /repo is executed under
hostile workloads while monitors watch it, and the deciding step is always an oracle that judges what an execution did. Nothing is
proved; what a verdict means is "held on everything explored", and evidence/<id>.json tells how much that was.

## Machinery

**Controlled scheduler** (`vlib/vsched.py`). The race detector of this codebase. Before satella is imported, the primitives that it
could get to (`threading`, `_thread`, `queue`, `time`, `concurrent.futures`) are substituted with shims. Outside of a *session* they act as
the real ones. Within a session the threads are real, but only one of them runs at a time, and a seeded strategy (random walk, PCT-like
priorities, sticky, round robin; chosen anew for each case) decides who goes on at each scheduling point: each lock, condition and sleep
operation, and each line or (gran='opcode') each bytecode instruction of the code under test, through `sys.monitoring`. Time is virtual:
it moves only if nobody can run (to the nearest deadline), by `tick` per reading, or by a random jump if the scenario allows for
those, so time-outs are exact and hours cost nothing. Threads whose deadlines coincide are sometimes woken up together. A session in which
nobody can run and no deadline is left is a deadlock, one that exceeds its steps is a livelock; both are violations unless a scenario expects
them. After an aborted session the process is poisoned: waiting on an unmanaged lock raises rather than hangs.
Each distinct sequence of switches is hashed, and evidence gives the number of schedules, distinct interleavings, switches and points.
Limits: CPython's C-level operations (dict, list, deque, heapq, OrderedDict, `Queue` put under its lock) are atomic as far as this
scheduler is concerned, as they are under the GIL; no free-threaded build is considered.

**Cases** (`vlib/harness.py`). A scenario is a function of a `Case`; case number i of a scenario derives its generator of randomness from
(seed, property, scenario, i), so any one can be run again alone. A case generates a workload, runs it, and judges it with
`expect`/`eq`/`raises`; each judgement counts as an oracle evaluation, each observed operation is hashed into the signature that
`distinct_nontrivial` counts. Eight worker processes, each with another `PYTHONHASHSEED`, share the cases of a check. A check in which
some scenario judged nothing is INCONCLUSIVE (exit 3), not a pass. A worker that hangs or dies twice at a case is a violation too (`hang`,
`death`), as no healthy one does.

**Oracles** are of these kinds: reference models (a plain dict, list, slice or a recomputation from the definition) run alongside of the real
object; linearizability search over recorded concurrent histories (C02, C04); conservation and exactly-once accounting over event logs
(C03-C07, C11, C15, C25, C27, C32); temporal rules in virtual time (C06, C09, C10, C26, C31); comparing two independent routes of the code (C14,
C23, C24, C28, C33); crash and fault injection followed by inspection of what remains (C15, C20, C21, C32).

**Replays.** A violation prints what was expected, the last events and schedule, and stores evidence/replay-<id>.json.
`bash run.sh C05 --replay evidence/replay-C05.json` runs that very case alone. `--only scenario,...`, `--seed N`, `-v` help to narrow down.
`VERIF_REPO=/elsewhere` checks another copy of the repository, `VERIF_SCALE` multiplies the number of cases.

**No hooks** were needed in /repo: monitoring attaches from the outside. Checks import /repo as it is; bytecode is never written to it.

**Safety.** Everything that touches files does so in a scratch directory that the parent removes. What could kill (suicide, signals, memory error
handler, PID locks) runs in processes and process groups made for it; what would change accounts (daemonize) is replaced by recording stand-ins.

**Cost.** A quick check takes some 3 to 60 s on 8 cores, a thorough one minutes. What takes little time goes through more cases (`QUICK_BOOST` in
`vlib/harness.py`), so that a change that shows rarely shows in the quick check, too.

## Reach
`tools/cov.py` (which lines of satella the quick checks execute): {COV}
`tools/mutate.py` (small random changes of each line, each tried in a scratch copy against the scenarios that execute that line): {MUT}
'''

COV = '96.7 % of 8818 executable lines; the rest is mostly process-wide (daemonize and signal handling run in children that are not traced), \
deprecated aliases, and `__repr__`s.'
MUT = 'see "Mutation sampling" below.'

HOW = {
'C01': '''Threads of a random program enter sections guarded by `Monitor.synchronized`, `Monitor.acquire`, `Monitor.synchronize_on`, `LockedDataset`, `LockedStructure`,
re-enter, release temporarily (`Monitor.release`), raise inside, time out or try without blocking. A monitor in the workload counts who is inside of each guarded
object (never two) and checks that a lock is free at the end; a deadlock is a violation. Sequential histories check the state after each exit. `insert_and_check` is
judged as an atomic test-and-set.''',
'C02': '''Recorded histories of calls (invocation and return stamps, results) of 2-4 threads are searched for a linearization against plain numbers. Sequential operator
histories are compared with int/float. Waiters: a model knows when the value settled; whoever awaits the value it settled at must be released with no further event
(a deadlock is a lost wakeup), timed waits must end at their time in virtual time.''',
'C03': '''Ownership accounting: each identifier has at most one owner in the log, lies in the range, refusals happen only upon exhaustion (model of the set of free
identifiers). Deferred values: one winner among setters, everybody sees its value. Singletons: constructors that are slow (yield inside) or fail, raced by threads; at most one completed
construction per key, no half-made instance is ever seen.''',
'C04': '''Sequential model, linearizability search over histories of producers/consumers/peekers, and a liveness oracle: in a session where enough elements have been put and
nobody needs time to pass, virtual time must not advance and nobody may remain blocked.''',
'C05': '''Every future has one outcome in the log of its owner; every observer (result(), exception(), callbacks before/after, wrappers, collections) must report that one, once.
Executors and threads run functions leaving by return, Exception, BaseException, generator exit. Deadlock detection decides "nobody waits forever".''',
'C06': '''The life of threads in virtual time is recorded (prepare, loops with their start and end, cleanup, termination requests) and compared with the documented automaton:
intervals, no loop after termination, cleanup once. Safe waits must take exactly their time; conditions wake exactly who is to be woken.''',
'C07': '''A model of the callable group computes which callables are to be called with what at each call; under concurrency, one-shots are counted to be exactly one. Timers: fired
iff not cancelled in time, not sooner than due, in order, once.''',
'C08': '''A list sorted anew for each query is the model; item identity (uncomparable items, equal keys) is tracked by serial numbers.''',
'C09': '''A model with times of expiry and a virtual clock decides each access. Under concurrency with the background cleaner, KeyError is admissible only for an expired or
deleted key, values only those written last.''',
'C10': '''A model predicts for each read whether the value is fresh, stale (served, refreshed in the background) or expired, and how often the source may be called; sizes are
compared after each operation. memoize: calls counted per distinct arguments.''',
'C11': '''The storage records the order of what is applied to it; after sync it must equal the model. A read must return the newest value written before it began or one written
during it. The storage is slow or fails in the workload.''',
'C12': '''Plain lists/dicts as reference models, compared in full (iteration, indexing, equality, bounds) after each operation.''',
'C13': '''As C12, with deleters compared with list comprehension and with the speciality of each dictionary modelled separately.''',
'C14': '''Differential: the same random series of operators and accesses is done to the object and to its proxy/Optional/predicate, results and exceptions have to agree in
value and in type (and be wrapped, where promised).''',
'C15': '''A model of entries with their location (memory, database, server); the fake database fails at chosen calls. After each step: no entry lost that was not acknowledged and
evicted, none repeated in a sync, all in order; failed writes keep data in exactly one place. Under concurrency arrivals during a sync must survive.''',
'C16': '''Helpers are compared with loops written down; counting iterators observe how many elements were consumed (laziness) and whether generators are closed and actions ran.''',
'C17': '''Direct computation from the definition (rational arithmetic where exact). Distribution of shuffles: each permutation has to occur.''',
'C18': '''json.loads of the output is compared with a separately written conversion; files are read back by plain means under several locales in child processes.''',
'C19': '''A model that slices the stream; after each operation pointer, remainder and results agree, errors leave the pointer in its place.''',
'C20': '''The directory is read back by plain means after each operation and compared with a model of its content; what is returned or iterated is compared with os.walk.''',
'C21': '''Real processes compete; each line of the locking code may be delayed (`sys.monitoring` in the child) or be the place where the process is killed. An O_APPEND log of enter/leave
events decides exclusion; after each crash a fresh process has to acquire the lock.''',
'C22': '''Child processes with known output, exit codes, timing; output compared byte by byte; signals sent at random times to processes that hang until them; daemonize with stand-ins
for what touches accounts, the order of calls being judged; suicide within its own process group.''',
'C23': '''A second interpreter of schemas written from the documentation decides for each value whether it fits and what it becomes.''',
'C24': '''A reference evaluator of source trees (order, merging, failures); directories and formats are written by plain means; HTTP from a local server.''',
'C25': '''A model of the tree of metrics accumulates what was reported and predicts the export at each level; Prometheus text is parsed by a separate parser. Concurrent reports must add
up, whatever the schedule.''',
'C26': '''Virtual clock; the model sums running time. Backoff: model of delays; waiting threads under the scheduler must wake no sooner than the failure's time or a success.''',
'C27': '''Each task leaves marks in a log: ran once, result delivered, metrics equal what the log says; pools that are shut down, abandoned or broken finish everybody.''',
'C28': '''Random signatures are generated as source; `inspect.signature().bind` and direct calls are the reference for what a wrapped function must receive and return.''',
'C29': '''A table of what each helper promises decides the outcome for each exception; logs, hooks and dumps are captured and compared (identity, order, count).''',
'C30': '''The program state is known by construction (frames, locals, object graph), what the dump shows is compared with it; sizes against a plain traversal; deep comparison
against structural equality with a planted first difference.''',
'C31': '''psutil is replaced by scripted histories of memory and CPU times; virtual time. The recorded sequence of callbacks is checked against an automaton of levels; percentiles and loads
against recomputation.''',
'C32': '''A fake driver records the life of each connection/cursor (opened, used by whom, committed, rolled back, torn down) and the log is checked: never two users, cycles
bounded, commit xor rollback, always closed. Package trees are generated on disk and imported; what appears is compared with what was declared.''',
'C33': '''A tracer, a Cassandra session and futures that record; the log is checked for one finish per span, tags, order of results. Tainted programs are run twice - plain and tainted - and
compared, taint being predicted by a second interpretation.''',
'C34': '''Fresh interpreters (`vlib/import_probe.py`) import modules in random orders, some with optional libraries blocked, and report what failed, what each `__all__` name is, and what of
the state of the process (threads, signals, environment, random generator, logging, limits, standard streams) differs; compared with a reference order. Importing from several threads at
once for the first time is not judged: with import cycles between packages CPython itself may then give half-initialised modules.''',
'C35': '''Random programs over contexts, in a new thread or in some threads handing the turn over at random; after each step all variables of all cards and the current context are compared
with a model of a stack of dictionaries.''',
}

FALSE_ALARMS = '''
* C06: loops that take longer than their interval were required to begin earlier than the interval allows; corrected.
* C29: `text of stack_info` - the logger treats it as a boolean, the check demanded the text; removed from the oracle.
* C31: a loop variable of the check itself kept an object, that should have died, alive; bound of the aware thread ignored long loops.
* C33: the old-style factory of tags with a subscriptable argument is ambiguous; not generated any more.
* Harness: `expect` used to return None so that `if not c.expect()` skipped later oracles of C30; fixed.
'''

LIMITS = '''
Behaviours that were looked at and are deliberately not claimed (ambiguous documentation, inherent, or contradicted by the existing tests):
arithmetic between two AtomicNumbers; concurrent.futures.wait() on a WrappingFuture of a cancelled source; Heap.__eq__ being layout dependent;
pre-done callbacks not run upon cancellation; thread safety of CallNoOftenThan; put(x, None) of time based heaps;
SelfCleaningDefaultDict.pop/setdefault; ExpiringEntryDict.get_timestamp; expiry at the exact boundary; TwoWayDictionary re-setting the same value;
KeyAwareDefaultDict.get/setdefault/pop; copies of SliceableDeque; isinstance of typednamedtuple; re-iteration of ListDeleter; SyncableDroppable.cleanup and
get_archive under concurrency; the write-back cache's miss metric being off by its housekeeping; half_cartesian of one-shot iterators; != of Optionals;
merge_series with duplicate timestamps; stringify of bytes; JSON dictionaries with non-string keys, cyclic objects; BinaryParser with negative n;
find_files(scan_subdirectories=False) yielding directories; read_re_sub translating newlines; AutoflushFile tell/with; zombies counting as alive for
PIDFileLock; text-mode keyword arguments of call_and_return_stdout; FileObject compared with a str; schema defaults that are mutable being shared; directory
listing order; Context of coding.environment (experimental); mixing labelled and unlabelled use of one metric; nested reuse of one measure() section; cps at
an exact boundary; ExponentialBackoff.available during grace; retry(times=0); keyword preconditions returning None; overload choice among several matches;
CodedCustomException base instance doc vs its test; MetricAlreadyExists pickling; double reporting of exceptions of threads; get_size of generators and __slots__;
register_on_memory_normal "once"; CPManager.max_number bounding idle connections only; Loadable's load_lazy documentation; import_from of multi-path packages;
tainted operators that are not implemented; TypeSignature ordering.
Not reachable by this family here: statements on all inputs (nothing is proved), free-threaded CPython, failures of the interpreter itself.
'''

MUTATION = '''
`tools/mutate.py` changes one place of /repo in scratch copies and runs the quick scenarios that execute it; each survivor is read, and either judged equivalent
(another way to do the same, an error message, a default nobody can tell from another, speed) or made a reason for a new oracle or workload. Kinds of changes, by run:
* operators, comparisons, constants, dropped statements, swapped branches (689 changes): 434 caught, 249 survived, 6 not reached.
* exits of context managers swallowed or not, identity for equality and the reverse, exact types for isinstance, one of several types, look-ups with a default, dropped star arguments,
  another clock (787 changes): 391 caught, 384 survived, 12 not reached. Most survivors are `==` for `is` on None, or `type(x) is` where no subclass makes sense; from the others came the
  workloads with disguised values (subclasses, equal but not identical, numbers of other types).
* statements done twice, generators run eagerly, statements moved out of or before a lock, context or try, state shared by all objects of a class (run 37, stopped at 150 of 1095, and 38:
  186 changes, 123 caught, 62 survived, 1 not reached): survivors led to
  `two_at_once` (two of a kind know nothing of each other), `only_one_may_complete`, `lru_kept_while_changed` and to the housekeeping of the write-back cache taking place in
  the middle of concurrent use.
Besides, the parameters of each public callable were compared with those the quick checks ever gave (which, how many different values, positionally or by keyword); the options never
given became scenarios (`options`, `seldom_given`, `own_labels`, `no_levels`, `pressure_of_memory`, `made_with_keywords`, `default_executor`).
'''
