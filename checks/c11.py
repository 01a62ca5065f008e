"""C11: a write-back cache and its storage never disagree once synced, and reads always see the latest write"""
import os
import time
from concurrent.futures import Executor, Future, ProcessPoolExecutor, ThreadPoolExecutor

from vlib.harness import Check
from checks.common import Boom, Clock, linearizable, not_locked_out, pause, Unhashable

from satella.coding.structures import ExclusiveWritebackCache
from satella.instrumentation.metrics.structures import MetrifiedExclusiveWritebackCache
from satella.instrumentation.metrics.metric_types.counter import CounterMetric
from satella.instrumentation.metrics.metric_types.callable import CallableMetric
from satella.instrumentation.metrics.metric_types import MetricLevel
from satella.exceptions import WouldWaitMore

CHECK = Check('C11', 'A case is one history of reads, writes and deletes by one or more threads with several write-back workers, '
                     'under one controlled schedule; distinct by operations, results and thread switches; non-trivial if at '
                     'least two oracle evaluations took place')
MISSING = 'MISSING'


def apply_register(state, op):
    name, x = op
    if name == 'set':
        return x, 'ok'
    if name == 'del':
        return MISSING, 'ok'
    return state, state


class Storage:
    def __init__(self, s, rng, initial, slow, faulty):
        self.s = s
        self.data = dict(initial)
        self.log = []
        self.reads = []
        self.slow = slow
        self.rng = rng
        self.faulty = faulty

    def lag(self):
        if self.slow == 'pause':
            pause(self.rng.randrange(0, 4))
        elif self.slow == 'sleep':
            time.sleep(self.rng.choice([0, 0.1, 1, 2]))

    def write(self, k, v):
        self.lag()
        self.log.append((k, 'set', v))
        if v in self.faulty:
            raise Boom(v)
        self.data[k] = v

    def read(self, k):
        self.lag()
        self.reads.append(k)
        v = self.data[k]
        self.lag()
        return v

    def delete(self, k):
        self.lag()
        self.log.append((k, 'del', None))
        del self.data[k]


@CHECK.scenario(quick=2000, thorough=60000)
def concurrent(c):
    rng = c.rng
    nthreads = rng.randrange(1, 4)
    workers = rng.choice([None, 1, 2, 4])
    ske = rng.random() < 0.6
    slow = rng.choice([None, 'pause', 'sleep'])
    initial = {k: ('initial', k) for k in 'ab' if rng.random() < 0.5}
    keys = rng.choice(['a', 'ab', 'ab'])
    seqs = [[(rng.choice(['set', 'set', 'get', 'get', 'del']), rng.choice(keys), rng.choice([0, 0, 0, 0.5, 3]))
             for _ in range(rng.randrange(1, 5))] for _ in range(nthreads)]
    faulty = {(i, j) for i, ops in enumerate(seqs) for j, o in enumerate(ops) if o[0] == 'set' and rng.random() < 0.1}
    shutdown = rng.random() < 0.3 and workers is not None
    # so that housekeeping takes place in the middle of it; what was deleted may be asked for again, so it needs the executor
    before = 0 if shutdown else rng.choice([0, 0, rng.randrange(92, 101)])
    c.rec(workers, ske, slow, initial, seqs, sorted(faulty), shutdown, before)
    hist = []
    clock = Clock()

    def body(s):
        st = Storage(s, rng, initial, slow, faulty)
        kw = {} if workers is None else {'executor': ThreadPoolExecutor(max_workers=workers),
                                         'no_concurrent_executors': workers}
        if not ske or rng.random() < 0.5:
            kw['store_key_errors'] = ske
        d = ExclusiveWritebackCache(st.write, st.read, st.delete, **kw)
        if before:
            d['w'] = ('w', 'w')
            for _ in range(before):
                c.eq(d['w'], ('w', 'w'), 'reads-see-the-latest-write')
            d.sync()

        def worker(i, ops):
            for j, (op, k, dt) in enumerate(ops):
                time.sleep(dt)
                t0 = clock()
                if op == 'set':
                    d[k] = (i, j)
                    hist.append((k, t0, clock(), ('set', (i, j)), 'ok'))
                elif op == 'del':
                    del d[k]
                    hist.append((k, t0, clock(), ('del', None), 'ok'))
                else:
                    try:
                        v = d[k]
                    except KeyError:
                        v = MISSING
                    hist.append((k, t0, clock(), ('get', None), v))
        c.go(*[lambda i=i, o=o: worker(i, o) for i, o in enumerate(seqs)])
        if shutdown:
            d.executor.shutdown(wait=True)
        else:
            d.sync()
        log, reads = list(st.log), list(st.reads)
        for k in keys:
            mine = [h[1:] for h in hist if h[0] == k]
            try:
                final = d[k] if not shutdown or mine else st.data[k]
            except KeyError:
                final = MISSING
            except RuntimeError:
                c.expect(shutdown and k not in [x[0] for x in log], 'read-after-write')
                continue
            t = clock()
            ok = linearizable(mine + [(t, clock(), ('get', None), final)], initial.get(k, MISSING), apply_register)
            c.expect(ok, 'reads-see-the-latest-write', key_=k, hist=mine, final=final)
            ops = [x for x in log if x[0] == k]
            issued = sorted([('set', h[2][1]) for h in mine if h[2][0] == 'set'] +
                            [('del', None) for h in mine if h[2][0] == 'del'], key=str)
            c.eq(sorted([(x[1], x[2]) for x in ops], key=str), issued, 'each-operation-written-back-once')
            if ops:
                last = ops[-1]
                c.eq(final, last[2] if last[1] == 'set' else MISSING, 'storage-in-order', ops=ops)
                if last[2] not in faulty:
                    c.eq(st.data.get(k, MISSING), final, 'storage-agrees', ops=ops)
            # per thread, operations on a key are written in the order in which they were issued
            for i in range(nthreads):
                c.eq([x[2] for x in ops if x[1] == 'set' and x[2][0] == i],
                     [h[2][1] for h in sorted(mine) if h[2][0] == 'set' and h[2][1][0] == i], 'storage-in-order')
    c.sched(body, max_steps=150000)


@CHECK.scenario(quick=1000, thorough=25000)
def sequential(c):
    """asks the storage only for what it does not know; metrics; crossing the housekeeping threshold"""
    rng = c.rng
    metrified = rng.random() < 0.5
    ske = rng.random() < 0.6
    n = rng.choice([10, 30, 30, 150])
    initial = {k: ('initial', k) for k in 'abcd' if rng.random() < 0.6}
    readonly = rng.random() < 0.2
    c.rec(metrified, ske, n, initial, readonly)

    def body(s):
        st = Storage(s, rng, initial, rng.choice([None, None, 'sleep']), ())
        args = (st.write, st.read) + (() if readonly else (st.delete,))
        kw = {'store_key_errors': ske, 'executor': ThreadPoolExecutor(max_workers=rng.randrange(1, 5))}
        if metrified:
            hits, miss = (CounterMetric(x, metric_level=MetricLevel.RUNTIME) for x in 'hm')
            waiting = CallableMetric('w', metric_level=MetricLevel.RUNTIME)
            if rng.random() < 0.7:
                kw['entries_waiting'] = waiting
            d = MetrifiedExclusiveWritebackCache(*args, cache_hits=hits, cache_miss=miss, **kw)
        else:
            d = ExclusiveWritebackCache(*args, **kw)
        model = dict(initial)
        known = set()       # what the cache has certainly to know
        gets = 0
        for i in range(n):
            k = rng.choice('abcdef')
            op = rng.randrange(6)
            if op <= 2:
                before = len(st.reads)
                gets += 1
                try:
                    v = d[k]
                except KeyError:
                    v = MISSING
                c.eq(v, model.get(k, MISSING), 'reads-see-the-latest-write', key_=k)
                asked = st.reads[before:]
                if k in known and k in model:
                    c.eq(asked, [], 'asks-only-if-needed')
                elif k in known and ske and n <= 30:
                    c.eq(asked, [], 'remembers-key-errors')
                else:
                    c.expect(asked in ([], [k]), 'asks-only-if-needed', asked=asked)
                    if k in model:
                        known.add(k)
                    elif ske:
                        known.add(k)
            elif op == 3:
                d[k] = i
                model[k] = i
                known.add(k)
            elif op == 4:
                if readonly:
                    c.raises(TypeError, lambda: d.__delitem__(k), 'not-deletable')
                else:
                    del d[k]
                    model.pop(k, None)
                    known.add(k)
            else:
                d.sync()
                c.eq(st.data, model, 'storage-agrees')
                if metrified:
                    c.eq([x.value for x in waiting.to_metric_data().values], [0] if 'entries_waiting' in kw else [], 'entries-waiting')
            c.rec(op, k)
        d.sync()
        c.eq(d.get_queue_length(), 0, 'entries-waiting')
        c.eq(st.data, model, 'storage-agrees')
        if metrified:
            h, m = (next(iter(x.to_metric_data().values)).value for x in (hits, miss))
            c.eq(h + m, gets, 'metrics')
            # a miss is decided just before a housekeeping round, that may make this cache forget a remembered KeyError
            c.expect(0 <= len(st.reads) - m <= n // 100, 'metrics', misses=m, reads=len(st.reads))
    c.sched(body, max_steps=400000)


@CHECK.scenario(quick=300, thorough=8000)
def sync_timeout(c):
    rng = c.rng
    writes = rng.randrange(1, 5)
    same = rng.random() < 0.5
    workers = rng.randrange(1, 4)
    per = rng.choice([1, 3])
    timeout = rng.choice([None, 0, 0.5, 2.25, 30])
    c.rec(writes, same, workers, per, timeout)

    def body(s):
        done = []

        def write(k, v):
            time.sleep(per)
            done.append((k, v))
        d = ExclusiveWritebackCache(write, lambda k: {}[k], executor=ThreadPoolExecutor(max_workers=workers))
        for i in range(writes):
            d['k' if same else i] = i
        t0 = s.now
        total = per * (writes if same else -(-writes // workers))
        try:
            d.sync() if timeout is None else d.sync(timeout)
            raised = False
        except WouldWaitMore:
            raised = True
        took = s.now - t0
        if raised:
            c.expect(timeout is not None and total > timeout - 0.75, 'spurious-timeout', total=total)
            c.expect(timeout - 1e-6 <= took <= timeout + 2.1, 'timeout-honored', took=took)
        else:
            c.eq(len(done), writes, 'sync-waits-for-everything')
            c.expect(timeout is None or total <= timeout + 1e-6, 'timeout-honored', took=took)
            c.expect(took <= total + 2, 'sync-returns', took=took, total=total)
        d.sync()
        c.eq(len(done), writes, 'sync-waits-for-everything')
        if same:
            c.eq([v for _, v in done], list(range(writes)), 'storage-in-order')
    c.sched(body)


class Manual(Executor):
    """accepts everything at once and executes it when told to"""

    def __init__(self):
        self.jobs = []

    def submit(self, fn, *args, **kwargs):
        f = Future()
        self.jobs.append((f, fn, args))
        return f

    def step(self, i):
        f, fn, args = self.jobs.pop(i)
        try:
            f.set_result(fn(*args))
        except Exception as e:
            f.set_exception(e)


@CHECK.scenario(quick=300, thorough=8000)
def queue_length(c):
    """what waits for being written is counted, whatever the executor is"""
    rng = c.rng
    manual = rng.random() < 0.4
    workers = rng.choice([None, 1, 2, 3])
    metrified = rng.random() < 0.5
    ops = [(rng.choice(['set', 'set', 'del']), rng.choice('aabc')) for _ in range(rng.randrange(1, 8))]
    c.rec(manual, workers, metrified, ops)

    def body(s):
        started, done = [], []

        def write(*args):
            started.append(args)
            if not manual:
                time.sleep(10)
            done.append(args)
        ex = Manual() if manual else (None if workers is None else ThreadPoolExecutor(max_workers=workers))
        kw = {'executor': ex}
        waiting = None
        if metrified:
            waiting = CallableMetric('w', metric_level=MetricLevel.RUNTIME)
            d = MetrifiedExclusiveWritebackCache(write, lambda k: {}[k], write, entries_waiting=waiting, **kw)
        else:
            d = ExclusiveWritebackCache(write, lambda k: {}[k], write, **kw)

        def look():
            if metrified and rng.random() < 0.5:
                v, = waiting.to_metric_data().values
                return v.value
            return d.get_queue_length()
        if not manual:
            c.eq(look(), 0, 'entries-waiting')
        for op, k in ops:
            if op == 'set':
                d[k] = 1
            else:
                del d[k]
        if manual:
            pending = len(ops)
            while ex.jobs:
                # a job that is with an unknown executor is not ours to count
                c.eq(look(), len(ops) - len(started) - len(ex.jobs), 'entries-waiting')
                ex.step(rng.randrange(len(ex.jobs)))
            c.eq(len(done), len(ops), 'each-operation-written-back-once')
        else:
            time.sleep(0.5)     # so that nothing happens just when we look
            while len(done) < len(ops):
                time.sleep(1)
                c.eq(look(), len(ops) - len(started), 'entries-waiting')
                # as many as possible are executed at the same time
                busy = len(started) - len(done)
                keys_left = {a[0] for a in [(k,) for _, k in ops]}
                c.expect(busy <= min(workers or 4, len(keys_left)), 'concurrency', busy=busy)
        c.eq(look(), 0, 'entries-waiting')
        d.sync()
        for k in 'abc':
            c.eq([('set', 'del')[len(a) == 1] for a in done if a[0] == k], [o for o, q in ops if q == k], 'storage-in-order')
    c.sched(body)


FOLDER = None


def file_write(k, v):
    if v == 'slow':
        time.sleep(0.3)
    with open(os.path.join(FOLDER, 'log'), 'a') as f:
        f.write('%s=%s\n' % (k, v))
    with open(os.path.join(FOLDER, k), 'w') as f:
        f.write(v)


def file_read(k):
    try:
        with open(os.path.join(FOLDER, k)) as f:
            return f.read()
    except FileNotFoundError:
        raise KeyError(k)


def file_delete(k):
    os.unlink(os.path.join(FOLDER, k))


@CHECK.scenario(quick=1, thorough=10)
def processes(c):
    """the storage may be accessed by other processes, with a ProcessPoolExecutor"""
    global FOLDER
    rng = c.rng
    FOLDER = c.tmpdir()
    ops = []
    model = {}
    with ProcessPoolExecutor(max_workers=rng.randrange(1, 4)) as ex:
        d = ExclusiveWritebackCache(file_write, file_read, file_delete, executor=ex)
        file_write('q', '')
        ops.append(('q', ''))
        for i in range(rng.randrange(5, 20)):
            k = rng.choice('abc')
            op = rng.randrange(4)
            c.rec(op, k)
            if op < 2:
                v = rng.choice([str(i), 'slow'])
                d[k] = v
                model[k] = v
                ops.append((k, v))
            elif op == 2 and k in model:
                del d[k]
                del model[k]
            else:
                kind, v = c.attempt(lambda: d[k])
                c.expect((kind == 'ok' and v == model[k]) if k in model else isinstance(v, KeyError), 'reads-see-the-latest-write',
                         answer=repr(v), wanted=model.get(k))
            c.expect(d.get_queue_length() >= 0, 'entries-waiting')
        d['q'] = 'slow'
        for _ in range(3):
            d['q'] = 'slow'
        n = d.get_queue_length()
        with open(os.path.join(FOLDER, 'log')) as f:
            written = sum(line.startswith('q=') for line in f)
        c.expect(4 - written <= n, 'entries-waiting', waiting=n, written=written)
        ops += [('q', 'slow')] * 4
        model['q'] = 'slow'
        d.sync(30)
        c.eq(d.get_queue_length(), 0, 'entries-waiting')
        have = {}
        for k in os.listdir(FOLDER):
            if k != 'log':
                have[k] = file_read(k)
        c.eq(have, model, 'storage-agrees')
        with open(os.path.join(FOLDER, 'log')) as f:
            log = [tuple(line.strip().split('=')) for line in f]
        for k in 'abcq':
            c.eq([x for x in log if x[0] == k], [x for x in ops if x[0] == k], 'storage-in-order')


@CHECK.scenario(quick=60, thorough=1000)
def after_failures(c):
    """an operation that fails leaves the cache usable for everybody, and what is written afterwards gets to the storage"""
    def make(s):
        data, broken = {}, [False]

        def storage(f):
            def inner(*args):
                if broken[0]:
                    raise Boom()
                return f(*args)
            return inner
        x = ExclusiveWritebackCache(storage(data.__setitem__), storage(data.__getitem__), storage(data.pop))
        n = [0]

        def works():
            n[0] += 1
            broken[0] = False
            x['k'] = n[0]
            assert x['k'] == n[0]
            x.sync(60)
            assert data['k'] == n[0]
            del x['k']
            x.sync(60)
            assert 'k' not in data

        def with_broken(f):
            def inner():
                broken[0] = True
                f()
                x.sync(60)
            return inner
        u = Unhashable()
        return [(lambda: x[u], works, 'read'), (lambda: x.__setitem__(u, 1), works, 'write'), (lambda: x.__delitem__(u), works, 'delete'),
                (lambda: x['missing'], works, 'missing'), (with_broken(lambda: x['q']), works, 'failing read'),
                (with_broken(lambda: x.__setitem__('k', 1)), works, 'failing write'), (with_broken(lambda: x.__delitem__('k')), works, 'failing delete')]
    not_locked_out(c, make)
