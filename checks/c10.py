"""C10: caches serve what they were given, refresh what is stale, never serve what has expired and respect their size"""
import threading
import time
from concurrent.futures import Executor, Future, ThreadPoolExecutor

from vlib.harness import Check
from checks.common import Boom, not_locked_out, pause, Unhashable


class BoomLookup(Boom, LookupError):
    pass


class BoomMissing(KeyError):
    pass

from satella.coding.structures import CacheDict, LRUCacheDict, LRU
from satella.coding.decorators import memoize, cache_memoize
from satella.instrumentation.metrics.structures import MetrifiedCacheDict, MetrifiedLRUCacheDict
from satella.instrumentation.metrics.metric_types.counter import CounterMetric
from satella.instrumentation.metrics.metric_types import MetricLevel
from satella.instrumentation.metrics.metric_types.measurable_mixin import MeasurableMixin

CHECK = Check('C10', 'A case is one history of reads, writes, invalidations, failures and clock movements on a cache against a '
                     'model that counts calls to the source (sequential, or threads under one controlled schedule); distinct '
                     'by operations, results and thread switches; non-trivial if at least two oracle evaluations took place')


class LazyFuture(Future):
    def __init__(self, fn, args):
        super().__init__()
        self.job = fn, args

    def run(self):
        if self.job is None:
            return
        (fn, args), self.job = self.job, None
        try:
            self.set_result(fn(*args))
        except BaseException as e:  # noqa
            self.set_exception(e)

    def result(self, timeout=None):
        if not self.done():
            self.run()
        return super().result(timeout)


class LazyExecutor(Executor):
    """background jobs run when they are told to; waiting on a job runs it"""

    def __init__(self):
        self.jobs = []

    def submit(self, fn, *args, **kwargs):
        f = LazyFuture(fn, args)
        self.jobs.append(f)
        return f

    def run(self, n=None):
        while self.jobs and (n is None or n > 0):
            self.jobs.pop(0).run()
            if n is not None:
                n -= 1


def metric(name):
    return CounterMetric(name, metric_level=MetricLevel.RUNTIME)


class TimeTaken(MeasurableMixin):
    def __init__(self, sink):
        self.sink = sink

    def _handle(self, level, value, **labels):
        self.sink(value)

    def handle(self, level, value, **labels):
        self.sink(value)

    def runtime(self, value, **labels):
        self.sink(value)


def mvalue(m):
    return next(iter(m.to_metric_data().values)).value


@CHECK.scenario(quick=5000, thorough=150000)
def cache_dict_model(c):
    rng = c.rng
    lru = rng.random() < 0.5
    metrified = rng.random() < 0.4
    words = rng.choice([None, None, None, ['', ' ', 's', ' s', ' sec', ' seconds'], ['m', ' min', ' minutes'], ['h', ' hours', ' hrs'],
                        ['d', ' days'], ['w', ' weeks', ' wks']])
    unit = 1 if words is None or words[0] == '' else {'m': 60, 'h': 3600, 'd': 86400, 'w': 7 * 86400}[words[0]]

    def amount(x):
        if words is None or rng.random() < 0.15:
            return x * unit
        return rng.choice(['%d', '%.1f'] if unit > 1 else ['%d']) % x + rng.choice(words)
    st, ex, cfi = rng.choice([(1, 2, None), (1, 2, 1), (0, 3, None), (2, 2, 5), (1, 3, 0)])
    stale, exp, cf = amount(st), amount(ex), None if cfi is None else amount(cfi)
    st, ex, cfi = st * unit, ex * unit, None if cfi is None else cfi * unit
    default = rng.random() < 0.3
    max_size = rng.randrange(1, 4)
    own_clock = rng.random() < 0.5
    clock = [rng.choice([0.0, 50.0])]
    c.rec(lru, metrified, stale, exp, cf, default, max_size, own_clock)
    # what is not an interval is refused outright
    bad = rng.choice(['5m3s', '1h30m', '2 minutes 1', 'soon', '', 'h', '1d1h'])
    for args in ((bad, 1e9), (0, bad)):
        c.raises(ValueError, lambda: CacheDict(*args, str, LazyExecutor()), 'not-an-interval', args_=repr(args))
    c.raises(ValueError, lambda: CacheDict(1, 2, str, LazyExecutor(), cache_failures_interval=bad), 'not-an-interval', bad=bad)
    source = {'a': 1, 'b': 2}
    calls = []
    boom = set()
    boom_type, missing_type = rng.choice([Boom, BoomLookup]), rng.choice([KeyError, BoomMissing])

    def getter(k):
        calls.append(k)
        if k in boom:
            raise boom_type(k)
        if k not in source:
            raise missing_type(k)
        return source[k]
    ex_ = LazyExecutor()
    with c.virtual_time() as vt:
        def now():
            return clock[0] if own_clock else vt.now
        kw = dict(value_getter_executor=ex_)
        if cf is not None:
            kw['cache_failures_interval'] = cf
        if default:
            kw['default_value_factory'] = lambda: 'default'
        if own_clock:
            kw['time_getter'] = lambda: clock[0]
        hits = misses = evictions = refreshes = 0
        if metrified:
            ms = {x: metric(x) for x in ('cache_hits', 'cache_miss', 'refreshes') if rng.random() < 0.7}
            if lru and rng.random() < 0.7:
                ms['evictions'] = metric('evictions')
            kw.update(ms)
            took = []
            if rng.random() < 0.5:
                kw['how_long_refresh_takes'] = TimeTaken(took.append)
        if lru:
            d = (MetrifiedLRUCacheDict if metrified else LRUCacheDict)(stale, exp, getter, max_size=max_size, **kw)
        else:
            d = (MetrifiedCacheDict if metrified else CacheDict)(stale, exp, getter, **kw)
        data, missed = {}, {}
        order = []      # least recently used first
        pending = []

        def touch(k):
            if k in order:
                order.remove(k)
            order.append(k)

        def store(k, v, ts=None):
            nonlocal evictions
            if lru and k not in data:
                while len(data) > max_size - 1:
                    data.pop(order.pop(0))
                    evictions += 1
            data[k] = (v, now() if ts is None else ts)
            touch(k)
            missed.pop(k, None)

        def forget(k):
            data.pop(k, None)
            missed.pop(k, None)
            if k in order:
                order.remove(k)

        def source_outcome(k):
            return ('boom', None) if k in boom else (('ok', source[k]) if k in source else ('missing', None))

        def fetched(k):
            nonlocal refreshes
            refreshes += 1
            kind, v = source_outcome(k)
            if kind == 'ok':
                store(k, v)
                return 'ok', v
            if kind == 'missing':
                forget(k)
                if cfi is not None:
                    missed[k] = now()
                return ('ok', 'default') if default else ('KeyError', None)
            return 'Boom', None

        def model_get(k):
            """what comes out, and whether the source is asked right now"""
            if k in missed:
                if now() - missed[k] > cfi:
                    return fetched(k), 1
                return (('ok', 'default') if default else ('KeyError', None)), 0
            if k in data:
                touch(k)
                v, ts = data[k]
                if now() - ts > ex:
                    return fetched(k), 1
                if now() - ts > st:
                    pending.append(k)
                return ('ok', v), 0
            return fetched(k), 1

        def info(k):
            if k in data:
                return now() - data[k][1] <= ex
            if k in missed:
                return now() - missed[k] <= cfi
            return False

        for i in range(rng.randrange(5, 35)):
            dt = rng.choice([0, 0, 0, 0.375, 0.90625, 1.3125, 2.71875, 5.09375]) * unit
            clock[0] += dt
            vt.advance(dt)
            k = rng.choice('abcde')
            op = rng.randrange(14)
            n = len(calls)
            if op <= 5:
                was_info = info(k)
                (kind, v), asked = model_get(k)
                try:
                    got = ('ok', d[k])
                except KeyError:
                    got = ('KeyError', None)
                except Boom:
                    got = ('Boom', None)
                hits += was_info
                misses += not was_info
                c.eq(got, (kind, v), 'read', key_=k, now=now())
                c.eq(calls[n:], [k] * asked, 'asks-the-source-only-if-needed')
            elif op == 6:
                v = rng.choice([None, 0, i])
                d[k] = v
                store(k, v)
            elif op == 7:
                ts = rng.choice([None, 0, now(), now() - 1.53125 * unit, now() - 10 * unit])
                v = ('fed', i)
                d.feed(k, v, ts) if ts is not None else d.feed(k, v)
                store(k, v, ts)
            elif op == 8:
                d.invalidate(k)
                forget(k)
            elif op == 9:
                if k in data:
                    del d[k]
                    forget(k)
                elif k not in missed:
                    c.raises(KeyError, lambda: d.__delitem__(k), 'delete-missing')
            elif op == 10:
                c.eq(d.has_info_about(k), info(k), 'has-info', key_=k, now=now())
            elif op == 11:
                if rng.random() < 0.5:
                    source[k] = i
                    boom.discard(k)
                elif rng.random() < 0.5:
                    source.pop(k, None)
                    boom.discard(k)
                else:
                    boom.add(k)
            elif op == 12:
                # background jobs get their turn
                import logging
                logging.disable(logging.CRITICAL)
                ex_.jobs = [j for j in ex_.jobs if j.job is not None]
                c.eq(len(ex_.jobs), len(pending), 'stale-read-schedules-a-refresh')
                ex_.run()
                logging.disable(logging.NOTSET)
                todo, pending[:] = list(pending), []
                for q in todo:
                    refreshes += 1
                    kind, v = source_outcome(q)
                    if kind == 'ok':
                        store(q, v)
                    elif kind == 'missing':
                        forget(q)
                        if cfi is not None:
                            missed[q] = now()
                c.eq(calls[n:], todo, 'refreshes-what-was-stale')
            else:
                f = d.schedule_a_fetch(k)
                c.expect(hasattr(f, 'result'), 'schedule')
                pending.append(k)
            c.rec(op, k, dt, len(data), len(missed))
            c.eq(sorted(d), sorted(data), 'keys')
            c.eq(len(d), len(data), 'len')
            if lru:
                c.expect(len(d) <= max_size, 'size-exceeded')
            if metrified:
                want = dict(cache_hits=hits, cache_miss=misses, refreshes=refreshes)
                if lru:
                    want['evictions'] = evictions
                c.eq({x: mvalue(m) for x, m in ms.items()}, {x: v for x, v in want.items() if x in ms}, 'metrics')
                if 'how_long_refresh_takes' in kw:
                    c.expect(took == [0.0] * refreshes, 'metrics', measured=took, wanted=refreshes)


@CHECK.scenario(quick=1200, thorough=30000)
def cache_dict_concurrent(c):
    """values come from the source, not older than they can be; nothing is made up; size is respected"""
    rng = c.rng
    lru = rng.random() < 0.6
    nthreads = rng.randrange(2, 4)
    max_size = rng.randrange(1, 3)
    cf = rng.choice([None, 1])
    default = rng.random() < 0.3
    mix, keys = rng.choice([(['get'] * 5 + ['inv', 'feed', 'del'], 'abx'), (['get', 'inv', 'feed'], 'a'), (['get', 'get', 'del', 'feed'], 'aab')])
    seqs = [[(rng.choice(mix), rng.choice(keys), rng.choice([0, 0, 0.7, 1.5, 3]))
             for _ in range(rng.randrange(1, 5))] for _ in range(nthreads)]
    workers = rng.randrange(0, 3)
    c.rec(lru, max_size, cf, default, seqs, workers)

    def body(s):
        kw = {}
        if cf is not None:
            kw['cache_failures_interval'] = cf
        if default:
            kw['default_value_factory'] = lambda: 'default'
        given = {}      # value -> (asked, answered)
        n = [0]

        def getter(k):
            n[0] += 1
            v = (k, n[0])
            t0 = s.now
            pause(1)
            if k == 'x':
                raise KeyError(k)
            given[v] = t0
            return v
        ex = ThreadPoolExecutor(max_workers=workers) if workers else None
        if lru:
            d = LRUCacheDict(1, 2, getter, ex, max_size=max_size, **kw)
        else:
            d = CacheDict(1, 2, getter, ex, **kw)
        ex = d.value_getter_executor

        def worker(i, ops):
            for j, (op, k, dt) in enumerate(ops):
                time.sleep(dt)
                if op == 'get':
                    t0 = s.now
                    try:
                        v = d[k]
                    except KeyError:
                        c.expect(k == 'x' and not default, 'spurious-KeyError', key_=k)
                        continue
                    if v == 'default':
                        c.expect(k == 'x' and default, 'default-for-existing', key_=k)
                    else:
                        c.expect(v in given and v[0] == k, 'made-up-value', v=v, key_=k)
                        c.expect(t0 - given[v] <= 2 + 1e-6 or given[v] >= t0, 'expired-value-served', v=v)
                elif op == 'feed' and k != 'x':
                    v = (k, 'fed', i, j)
                    given[v] = s.now
                    d.feed(k, v)
                elif op == 'inv':
                    d.invalidate(k)
                elif op == 'del':
                    try:
                        del d[k]
                    except KeyError:
                        pass
                if lru:
                    c.expect(len(d) <= max_size, 'size-exceeded', size=len(d))
        c.go(*[lambda i=i, o=o: worker(i, o) for i, o in enumerate(seqs)])
        ex.shutdown(wait=True)
        if lru:
            c.expect(len(d) <= max_size, 'size-exceeded', size=len(d))
    c.sched(body, max_steps=120000)


@CHECK.scenario(quick=1500, thorough=40000)
def lru_tracker(c):
    rng = c.rng
    lru = LRU()
    order = []
    for _ in range(rng.randrange(3, 25)):
        k = rng.randrange(5)
        op = rng.randrange(4)
        if op == 0:
            if k not in order:
                lru.add(k)
                order.append(k)
        elif op == 1:
            lru.mark_as_used(k)
            if k in order:
                order.remove(k)
            order.append(k)
        elif op == 2 and order:
            c.eq(lru.get_item_to_evict(), order.pop(0), 'least-recently-used')
        elif op == 3 and k in order:
            lru.remove(k)
            order.remove(k)
        c.rec(op, k)
        c.eq(len(lru), len(order), 'len')
        c.eq([q in lru for q in range(5)], [q in order for q in range(5)], 'contains')
    while order:
        c.eq(lru.get_item_to_evict(), order.pop(0), 'least-recently-used')


@CHECK.scenario(quick=2000, thorough=40000)
def memoized_sequential(c):
    rng = c.rng
    cached = rng.random() < 0.6
    dur = rng.choice([1, 10])
    clock = [0.0]
    calls = []
    kwargs_too = cached and rng.random() < 0.5

    def f(*args, **kwargs):
        calls.append((args, kwargs))
        if args and args[0] == 'boom' and len(calls) % 2:
            raise Boom('x')
        return rng.choice([None, 0, len(calls)])
    own = rng.random() < 0.5
    with c.virtual_time() as vt:
        if cached:
            g = cache_memoize(dur, time_getter=lambda: clock[0])(f) if own else cache_memoize(dur)(f)
        else:
            g = memoize(f)
        now = lambda: clock[0] if own else vt.now   # noqa
        model = {}
        for _ in range(rng.randrange(3, 25)):
            dt = rng.choice([0, 0, 0.3, 0.8, 1.3, 11])
            clock[0] += dt
            vt.advance(dt)
            args = rng.choice([(), (1,), (2,), (1, 2), ('boom',), ((1, 2),), (None,)])
            kwargs = rng.choice([{}, {'z': 1}, {'z': 2}, {'y': 1, 'z': 1}]) if kwargs_too else {}
            key = args, tuple(sorted(kwargs.items()))
            n = len(calls)
            fresh = key in model and (not cached or now() - model[key][1] <= dur)
            try:
                v = g(*args, **kwargs)
            except Boom:
                c.expect(len(calls) == n + 1 and not fresh, 'exception')
                continue
            c.rec(key, dt, v)
            if fresh:
                c.expect(v is model[key][0], 'memoized-value', args_=key)
                c.eq(len(calls), n, 'called-again')
            else:
                c.eq(calls[n:], [(args, kwargs)], 'called-once')
                model[key] = (v, now())


@CHECK.scenario(quick=800, thorough=20000)
def memoized_concurrent(c):
    rng = c.rng
    cached = rng.random() < 0.5
    n = rng.randrange(2, 4)
    argss = [[rng.randrange(2) for _ in range(rng.randrange(1, 4))] for _ in range(n)]
    c.rec(cached, argss)

    def body(s):
        made = {}

        def f(x):
            pause(1)
            v = (x, len(made))
            made[v] = x
            return v
        g = cache_memoize(10)(f) if cached else memoize(f)

        def worker(xs):
            for x in xs:
                v = g(x)
                c.expect(made.get(v) == x, 'value-for-other-arguments', v=v, x=x)
        c.go(*[lambda xs=xs: worker(xs) for xs in argss])
        m = len(made)
        vs = {x: g(x) for xs in argss for x in xs}
        c.eq(len(made), m, 'called-again')
        for x, v in vs.items():
            c.expect(made[v] == x and g(x) is v, 'memoized-value')
    c.sched(body, gran=rng.choice(['line', 'opcode']))


@CHECK.scenario(quick=20, thorough=20)
def memoize_recursive(c):
    """a memoized function may call itself"""
    calls = []

    @memoize
    def fib(x):
        calls.append(x)
        return x if x < 2 else fib(x - 1) + fib(x - 2)

    n = c.rng.randrange(3, 20)
    c.rec(n)
    a, b = 0, 1
    for _ in range(n):
        a, b = b, a + b

    def body(s):
        c.eq(fib(n), a, 'value')
        c.eq(sorted(calls), list(range(n + 1)), 'called-again')
    c.sched(body)


@CHECK.scenario(quick=20, thorough=20)
def memoize_one_thread(c):
    """documented: the function executes in at most one thread, the remaining ones wait"""
    n = [0]

    def body(s):
        inside = [0]
        worst = [0]

        @memoize
        def f(x):
            inside[0] += 1
            worst[0] = max(worst[0], inside[0])
            time.sleep(1)
            inside[0] -= 1
            return x
        c.go(lambda: f(1), lambda: f(1))
        n[0] = worst[0]
    c.sched(body)
    c.eq(n[0], 1, 'executes-in-more-than-one-thread')


@CHECK.scenario(quick=30, thorough=300)
def lru_default_size(c):
    """by default an LRU cache keeps a hundred entries, and a cache that is being filled loses nothing it has place for"""
    rng = c.rng
    size = rng.choice([None, None, 7, 50])
    n = rng.randrange(1, 220)
    kw = {} if size is None else {'max_size': size}
    d = rng.choice([LRUCacheDict, MetrifiedLRUCacheDict])(10, 20, lambda k: ('got', k), LazyExecutor(), **kw)
    limit = size or 100
    order = []
    for _ in range(n):
        k = rng.randrange(n)
        how = rng.randrange(3)
        if how == 0:
            d[k] = ('set', k)
        elif how == 1:
            d.feed(k, ('fed', k))
        else:
            c.expect(d[k][1] == k, 'read')
        if k in order:
            order.remove(k)
        order.append(k)
        del order[:-limit]
        c.eq(sorted(d), sorted(order), 'keys')
        c.rec(k, how)
    d.evict()
    c.eq(sorted(d), sorted(order[1:]), 'least-recently-used')
    d.make_room()
    c.expect(len(d) < limit, 'make-room')


@CHECK.scenario(quick=60, thorough=1000)
def after_failures(c):
    """an operation that fails leaves the cache usable for everybody"""
    def make(s):
        broken = [False]

        def boom(*args):
            raise Boom()

        def clock():
            return boom() if broken[0] else s.now

        def getter(k):
            if broken[0]:
                raise Boom()
            if k == 'missing':
                raise KeyError(k)
            return k

        def with_broken(f):
            def inner():
                broken[0] = True
                try:
                    f()
                finally:
                    broken[0] = False
            return inner
        out = []
        for name, x in (('cache', CacheDict(1, 2, getter, time_getter=clock, cache_failures_interval=1)),
                        ('lru', LRUCacheDict(1, 2, getter, time_getter=clock, max_size=2))):
            def works(x=x):
                assert x['a'] in ('a', 1) and x['b'] == 'b' and x['c'] == 'c'
                x['z'] = 1
                x.feed('y', 2)
                assert x['z'] == 1 and x['y'] == 2
                x.invalidate('z')
                del x['y']
            u = Unhashable()
            ops = [lambda x=x: x[u], lambda x=x: x.__setitem__(u, 1), lambda x=x: x.feed(u, 1), lambda x=x: x.__delitem__(u), lambda x=x: x.invalidate(u),
                   lambda x=x: x.has_info_about(u), lambda x=x: x['missing'], lambda x=x: x.__delitem__('missing'), lambda x=x: x.get(u)]
            ops += [with_broken(f) for f in (lambda x=x: x['q'], lambda x=x: x.__setitem__('a', 1), lambda x=x: x.feed('a', 1), lambda x=x: x['a'],
                                             lambda x=x: x.has_info_about('a'), lambda x=x: x.schedule_a_fetch('q').result())]
            out += [(f, works, '%s %d' % (name, i)) for i, f in enumerate(ops)]

        @memoize
        def mem(x):
            return boom() if broken[0] else x

        @cache_memoize(5, clock)
        def cached(x):
            return boom() if broken[0] else x
        for f, name in ((mem, 'memoize'), (cached, 'cache_memoize')):
            out += [(lambda f=f: f(Unhashable()), lambda f=f: f(1), name), (with_broken(lambda f=f: f(2)), lambda f=f: f(2), name), (f, lambda f=f: f(3), name)]
        return out
    not_locked_out(c, make)


@CHECK.scenario(quick=40, thorough=600)
def default_executor(c):
    """A cache that is not told about an executor refreshes what is stale in threads of its own"""
    rng = c.rng
    lru = rng.random() < 0.5
    metrified = rng.random() < 0.5
    own_clock = [0.0]
    calls = []
    done = threading.Event()

    def getter(k):
        calls.append((k, threading.get_ident()))
        done.set()
        if k == 'missing':
            raise KeyError(k)
        return k, len(calls)

    kw = {'time_getter': lambda: own_clock[0]}
    if metrified:
        hits, miss = (CounterMetric(x, metric_level=MetricLevel.RUNTIME) for x in 'hm')
        kw.update(cache_hits=hits, cache_miss=miss)
        cls = MetrifiedLRUCacheDict if lru else MetrifiedCacheDict
    else:
        cls = LRUCacheDict if lru else CacheDict
    d = cls(10, 20, getter, **kw)
    d2 = cls(10, 20, getter, **kw)
    c.rec(lru, metrified)
    c.eq(d['a'], ('a', 1), 'default-executor', 'first read')
    c.eq(d['a'], ('a', 1), 'default-executor', 'read of a fresh one')
    c.raises(KeyError, lambda: d2['missing'], 'default-executor')
    c.eq(len(calls), 2, 'default-executor', 'calls')
    done.clear()
    own_clock[0] = 15.0
    c.eq(d['a'], ('a', 1), 'default-executor-stale', 'a stale value is not served at once')
    c.expect(done.wait(20), 'default-executor-refresh', 'no refresh takes place')
    c.expect(calls[-1][0] == 'a' and calls[-1][1] != threading.get_ident(), 'default-executor-thread', 'refreshed in the thread that reads')
    for _ in range(2000):
        v = d['a']
        if v != ('a', 1):
            break
        time.sleep(0.005)
    c.expect(v[0] == 'a' and 3 <= v[1] <= len(calls), 'default-executor-refreshed', value=repr(v))
    own_clock[0] = 100.0
    n = len(calls)
    v = d['a']
    c.expect(v[1] > n, 'default-executor-expired', 'an expired value was served', value=repr(v), calls=n)
    if metrified:
        c.expect(miss.value == 2 + 1 and hits.value >= 3, 'default-executor-metrics', hits=hits.value, miss=miss.value)
    for x in (d, d2):
        x.value_getter_executor.shutdown()


@CHECK.scenario(quick=800, thorough=25000)
def lru_kept_while_changed(c):
    """Threads write, read, remove and evict at once: the cache still knows all of its keys afterwards, and keeps to its size"""
    rng = c.rng
    size = rng.randrange(1, 4)
    scripts = [[(rng.choice(['set', 'set', 'del', 'invalidate', 'evict', 'feed', 'get']), rng.choice('abcd'))
                for _ in range(rng.randrange(1, 4))] for _ in range(rng.randrange(2, 4))]
    c.rec(size, scripts)

    def body(s):
        d = LRUCacheDict(100, 200, lambda k: ('got', k), LazyExecutor(), max_size=size)
        for k in 'abcd'[:size]:
            d[k] = 0

        def script(ops):
            def run():
                for op, k in ops:
                    try:
                        if op == 'set':
                            d[k] = 1
                        elif op == 'feed':
                            d.feed(k, 2)
                        elif op == 'del':
                            del d[k]
                        elif op == 'get':
                            if k in d.data:
                                d[k]
                        else:
                            d.invalidate(k) if op == 'invalidate' else d.evict()
                    except KeyError:
                        c.expect(op in ('del', 'get'), 'no-such-key-told-of', op=op)
            return run
        c.go(*[script(ops) for ops in scripts])
        c.expect(len(d) <= size, 'within-its-size', held=len(d), size=size)
        held = len(d)
        for i in range(held):
            d.evict()
            c.eq(len(d), held - i - 1, 'each-key-can-be-evicted')
        for i in range(size + 2):
            d[i] = i
        c.eq([i in d.data for i in range(size + 2)], [i >= 2 for i in range(size + 2)], 'latest-are-kept')
    c.sched(body)


@CHECK.scenario(quick=400, thorough=15000)
def some_caches(c):
    """Caches of the same keys that live side by side: each has its own values, their age, its failures and its order of use"""
    rng = c.rng
    now = [100.0]
    n = rng.randrange(2, 4)
    failures = rng.choice([None, 1.5])
    calls = [[] for _ in range(n)]
    absent = [set() for _ in range(n)]
    caches, state = [], [{} for _ in range(n)]
    for i in range(n):
        def getter(k, i=i):
            calls[i].append(k)
            if k in absent[i]:
                raise KeyError(k)
            return i, k, len(calls[i])
        kw = {} if failures is None else {'cache_failures_interval': failures}
        cls = rng.choice([CacheDict, LRUCacheDict])
        if cls is LRUCacheDict:
            kw['max_size'] = 10
        ex = LazyExecutor()
        caches.append((cls(1, 2, getter, ex, time_getter=lambda: now[0], **kw), ex))
    c.rec(n, failures)
    asked = [0] * n

    def ask(i, k):
        asked[i] += 1
        if k in absent[i]:
            state[i].pop(k, None)
            if failures is not None:
                state[i][k] = (None, now[0])
            return None
        state[i][k] = ((i, k, asked[i]), now[0])
        return state[i][k][0]
    for step in range(rng.randrange(4, 25)):
        now[0] += rng.choice([0, 0, 0.31, 0.77, 1.13])
        i, k = rng.randrange(n), rng.choice('abc')
        d, ex = caches[i]
        op = rng.choice(['get', 'get', 'get', 'set', 'feed', 'del', 'invalidate', 'absent'])
        c.rec(op, i, k)
        if op == 'absent':
            absent[i] ^= {k}
        elif op == 'set':
            d[k] = ('set', step)
            state[i][k] = (('set', step), now[0])
        elif op == 'feed':
            at = now[0] - rng.choice([0, 0.5])
            d.feed(k, ('fed', step), at)
            state[i][k] = (('fed', step), at)
        elif op == 'invalidate':
            d.invalidate(k)
            state[i].pop(k, None)
        elif op == 'del':
            if state[i].get(k, (None,))[0] is not None:
                del d[k]
                del state[i][k]
        else:
            later = False
            if k not in state[i]:
                want = ask(i, k)
            else:
                v, at = state[i][k]
                age = now[0] - at
                if v is None:
                    want = ask(i, k) if age > failures else None
                else:
                    want = ask(i, k) if age > 2 else v
                    later = 1 < age <= 2
            out = c.attempt(lambda: d[k])
            if want is None:
                c.expect(out[0] == 'exc', 'its-own-failure', out=repr(out))
            else:
                c.eq(out, ('ok', want), 'its-own-value')
            if later:
                ex.run()
                ask(i, k)
        c.eq([len(x) for x in calls], asked, 'asked-as-often-as-needed')
        c.eq([sorted(x for x in 'abc' if x in caches[j][0].data) for j in range(n)],
             [sorted(x for x, v in state[j].items() if v[0] is not None) for j in range(n)], 'its-own-keys')
