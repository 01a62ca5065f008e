"""C09: expiring and self-cleaning dictionaries forget exactly what they should, exactly when they should"""
import importlib.util
import time

from vlib.harness import Check
from checks.common import Boom, Incomparable, Unhashable, not_locked_out, pause, two_of_a_kind

from satella.coding.concurrent import Monitor
import satella.coding.structures.dictionaries.expiring as expiring_module
from satella.coding.structures import ExpiringEntryDict, SelfCleaningDefaultDict

CHECK = Check('C09', 'A case is one history of operations on a dictionary against a model and a virtual clock (sequential, or '
                     'several threads plus the background cleaner under one controlled schedule); distinct by operations, '
                     'results and thread switches; non-trivial if at least two oracle evaluations took place')
MISSING = object()


def fresh():
    """an independent copy of the module, as the background thread lives as long as the process does"""
    spec = importlib.util.spec_from_file_location('satella.coding.structures.dictionaries._copy_of_expiring', expiring_module.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


KEYS = ['a', 'b', 1, None, (1, 2), '']


@CHECK.scenario(quick=4000, thorough=100000)
def expiring_sequential(c):
    rng = c.rng
    timeout = rng.choice([1, 5, 0.5])
    own = rng.random() < 0.5
    clock = [rng.choice([0, 100])]
    with c.virtual_time() as vt:
        def now():
            return clock[0] if own else vt.now

        def tick(x):
            if own:
                clock[0] += x
            else:
                time.sleep(x)
        init = {k: 'init%s' % (k,) for k in rng.sample(['a', 'b', 'c'], rng.randrange(0, 3))}
        kw = {'time_getter': lambda: clock[0]} if own else {}
        form = rng.randrange(3)
        d = ExpiringEntryDict(timeout, init, **kw) if form == 0 else (
            ExpiringEntryDict(timeout, **init, **kw) if form == 1 else
            ExpiringEntryDict(timeout, list(init.items()), **kw))
        model = {k: (now() + timeout, v) for k, v in init.items()}
        c.rec(timeout, own, init)

        def live():
            return {k: v for k, (e, v) in model.items() if now() < e}

        for i in range(1, rng.randrange(5, 31)):
            k = rng.choice(KEYS + ['c'])
            op = rng.randrange(14)
            tick(rng.choice([0, 0, timeout * 0.25, timeout * 0.5, timeout * 1.125, timeout * 3]))
            # exactly at the deadline either answer is fine, so move away from there
            while any(abs(e - now()) < 1e-6 for e, _ in model.values()):
                tick(timeout * 0.015625)
            alive = live()
            c.rec(op, k, len(alive), round(now(), 6))
            v = rng.choice([i, i, None, 0, '', []])
            if op <= 2:
                d[k] = v
                model[k] = (now() + timeout, v)
            elif op == 3:
                if k in alive:
                    c.eq(d[k], alive[k], 'value', key_=k)
                else:
                    c.raises(KeyError, lambda: d[k], 'expired-or-missing')
            elif op == 4:
                c.eq(k in d, k in alive, 'contains', key_=k)
            elif op == 5:
                c.eq(d.get(k, MISSING), alive.get(k, MISSING), 'get', key_=k)
            elif op == 6:
                c.eq(len(d), len(alive), 'len')
            elif op == 7:
                c.eq(sorted(map(repr, d)), sorted(map(repr, alive)), 'iter')
                c.eq(dict(d.items()), alive, 'items')
                c.eq(sorted(map(repr, d.values())), sorted(map(repr, alive.values())), 'values')
            elif op == 8:
                if k in alive:
                    del d[k]
                elif k not in model:
                    c.raises(KeyError, lambda: d.__delitem__(k), 'delete-missing')
                else:
                    c.attempt(lambda: d.__delitem__(k))
                model.pop(k, None)
            elif op == 9:
                c.eq(d.pop(k, MISSING), alive.get(k, MISSING), 'pop', key_=k)
                model.pop(k, None)
            elif op == 10:
                d.cleanup()
            elif op == 11:
                c.eq(d.setdefault(k, i), alive.get(k, i), 'setdefault', key_=k)
                if k not in alive:
                    model[k] = (now() + timeout, i)
            elif op == 12:
                if k in alive:
                    c.expect(abs(d.get_timestamp(k) - (model[k][0] - timeout)) < 1e-6, 'timestamp', key_=k)
                elif k not in model:
                    c.raises(KeyError, lambda: d.get_timestamp(k), 'timestamp')
            else:
                with Monitor.acquire(d):
                    c.eq({q: d[q] for q in d}, alive, 'use-when-acquired')
                    d[k] = i
                    model[k] = (now() + timeout, i)
                    c.expect(k in d, 'use-when-acquired')
            c.eq({q: d.get(q, MISSING) for q in KEYS}, {q: live().get(q, MISSING) for q in KEYS}, 'state') \
                if rng.random() < 0.3 else None
        c.eq(dict(d), live(), 'state')
        tick(timeout * 2)
        c.eq(len(d), 0, 'everything-expires')
        c.eq(list(d), [], 'everything-expires')
        d['x'] = 1
        c.eq(dict(d), {'x': 1}, 'state')


@CHECK.scenario(quick=1200, thorough=30000)
def expiring_concurrent(c):
    """threads use the dictionary while the background thread cleans it up: only KeyErrors for what has expired"""
    rng = c.rng
    timeout = rng.choice([1, 4, 5, 7])
    nthreads = rng.randrange(1, 4)
    ext = rng.random() < 0.8
    seqs = [[(rng.choice(['set', 'set', 'get', 'in', 'del', 'iter', 'len']), rng.choice('ab'),
              rng.choice([0, 0, 0.5, 3, 5, 6])) for _ in range(rng.randrange(2, 7))] for _ in range(nthreads)]
    c.rec(timeout, seqs, ext)
    m = fresh()

    def body(s):
        d = m.ExpiringEntryDict(timeout, external_cleanup=ext)
        puts = {}       # (key, value) -> (before, after)
        dels = []

        def worker(i, ops):
            for j, (op, k, dt) in enumerate(ops):
                time.sleep(dt)
                t0 = s.now
                if op == 'set':
                    v = (i, j)
                    puts[k, v] = (t0, None)
                    d[k] = v
                    puts[k, v] = (t0, s.now)
                elif op == 'get':
                    try:
                        v = d[k]
                        c.expect((k, v) in puts, 'value-from-nowhere', v=v)
                        after = puts[k, v][1]
                        if after is not None:
                            c.expect(t0 <= after + timeout + 1e-6, 'expired-value-served', t0=t0, put=after)
                    except KeyError:
                        c.expect(True, 'x')
                elif op == 'in':
                    c.expect((k in d) in (True, False), 'contains')
                elif op == 'del':
                    try:
                        del d[k]
                    except KeyError:
                        pass
                    dels.append(k)
                elif op == 'len':
                    c.expect(0 <= len(d) <= 2, 'len')
                else:
                    with Monitor.acquire(d):
                        for q in d:
                            c.expect(d.get(q, MISSING) is MISSING or (q, d[q]) in puts, 'iteration-when-acquired')
        c.go(*[lambda i=i, o=o: worker(i, o) for i, o in enumerate(seqs)])
        # what was put last, was not deleted and did not expire, is there
        end = s.now
        for k in 'ab':
            mine = [(a, v) for (q, v), (b, a) in puts.items() if q == k]
            if not mine or k in dels:
                continue
            last = max(a for a, _ in mine)
            if end < last + timeout - 1e-6:
                c.expect(k in d, 'value-lost', key_=k, end=end, last=last)
                c.expect(d[k] in [v for a, v in mine if a + timeout > end - 1e-6], 'value-from-the-past')
            elif end > last + timeout + 1e-6:
                c.expect(k not in d, 'expired-value-served')
        # and the cleaner is still alive
        d['a'] = 1
        time.sleep(timeout + 11)
        if ext:
            c.eq(len(d.data) if hasattr(d, 'data') else 0, 0, 'background-cleaner-works')
        c.eq(len(d), 0, 'everything-expires')
    c.sched(body, tick=0, gran='line')


@CHECK.scenario(quick=4000, thorough=100000)
def self_cleaning_sequential(c):
    rng = c.rng
    factory, vals = rng.choice([(int, [0, 1, 2, 0.0, False, True]), (str, ['', 'a', 'b']), (lambda: 7, [7, 8, 7.0, 0]),
                                (lambda: None, [None, 0, '', 1])])
    default = factory()
    init = {k: rng.choice(vals) for k in rng.sample(['a', 'b', 'c'], rng.randrange(0, 3))}
    d = SelfCleaningDefaultDict(factory, False, init) if rng.random() < 0.5 else SelfCleaningDefaultDict(
        factory, background_maintenance=False, **init)
    model = {k: v for k, v in init.items() if v != default}
    c.rec(repr(default), init)
    for i in range(rng.randrange(4, 30)):
        k = rng.choice(KEYS)
        op = rng.randrange(8)
        v = rng.choice(vals)
        c.rec(op, k, v)
        if op <= 2:
            d[k] = v
            if v == default:
                model.pop(k, None)
            else:
                model[k] = v
        elif op == 3:
            c.eq(d[k], model.get(k, default), 'value', key_=k)
        elif op == 4:
            c.eq(k in d, k in model, 'contains', key_=k)
            c.eq(d.get(k, 'none'), model.get(k, 'none'), 'get', key_=k)
        elif op == 5:
            c.eq(len(d), len(model), 'len')
        elif op == 6:
            c.eq(sorted(map(repr, d)), sorted(map(repr, model)), 'iter')
            c.eq(dict(d.items()), model, 'items')
        else:
            del d[k]
            model.pop(k, None)
    with Monitor.acquire(d):
        c.eq({k: d[k] for k in d}, model, 'use-when-acquired')


@CHECK.scenario(quick=1500, thorough=30000)
def self_cleaning_mutable(c):
    """values that became equal to the default are gone, values that did not are kept"""
    rng = c.rng
    d = SelfCleaningDefaultDict(list, False)
    model = {}
    for i in range(rng.randrange(4, 25)):
        k = rng.choice('abc')
        op = rng.randrange(5)
        if op == 0:
            d[k] = [i]
            model[k] = [i]
        elif op == 1:
            if k not in model:
                d[k] = [i]
                model[k] = [i]
            else:
                d[k].append(i)
                model[k].append(i)
        elif op == 2 and k in model:
            d[k].pop()
            model[k].pop()
            if not model[k]:
                del model[k]
        elif op == 3:
            c.eq(len(d), len(model), 'len')
        else:
            c.eq(k in d, k in model, 'contains')
        c.rec(op, k)
        c.eq({k: list(v) for k, v in d.items()}, model, 'items')
    if model:
        # somebody holds to a value that got out of the dictionary because of being the default
        k = rng.choice(list(model))
        held = d[k]
        held.clear()
        again = d[k]
        again.append('held')
        c.eq(d['another'], [], 'default-never-changes')
        c.eq(d.get('yet another', 'x'), 'x', 'default-never-changes')
    d['fresh'].append(1)
    c.eq(d['fresh'], [1], 'default-is-stored')
    c.eq(d['fresh 2'], [], 'default-never-changes')
    c.expect(d['fresh 2'] is not d['fresh 3'], 'default-never-changes')


@CHECK.scenario(quick=800, thorough=20000)
def self_cleaning_concurrent(c):
    rng = c.rng
    n = rng.randrange(1, 4)
    bg = rng.random() < 0.7
    seqs = [[(rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 3, 6]), rng.choice(['set', 'set', 'set', 'get', 'iter', 'len']))
             for _ in range(rng.randrange(2, 7))] for _ in range(n)]
    c.rec(seqs, bg)
    m = fresh()

    def body(s):
        d = m.SelfCleaningDefaultDict(int, bg)

        def worker(i, ops):
            mine = 0
            for v, dt, op in ops:
                time.sleep(dt)
                if op == 'set':
                    d[i] = v
                    mine = v
                elif op == 'get':
                    c.eq(d[i], mine, 'value')
                elif op == 'iter':
                    with Monitor.acquire(d):
                        ks = list(d)
                        c.eq(i in ks, mine != 0, 'iter')
                        c.expect(all(q in range(n) for q in ks), 'iter')
                else:
                    c.expect(len(d) >= (mine != 0), 'len')
            c.eq(d[i], mine, 'value')
            c.eq(i in d, mine != 0, 'contains')
            return mine
        c.go(*[lambda i=i, o=o: worker(i, o) for i, o in enumerate(seqs)])
        time.sleep(6)
    c.sched(body)


@CHECK.scenario(quick=100, thorough=2000)
def background_mutable(c):
    """background thread removes what became default, in every dictionary that is alive"""
    rng = c.rng
    n = rng.randrange(1, 4)
    m = fresh()
    c.rec(n)

    def body(s):
        ds = [m.SelfCleaningDefaultDict(list) for _ in range(n)]
        es = [m.ExpiringEntryDict(3, external_cleanup=True) for _ in range(n)]
        for d in ds:
            d['a'] = [1]
            d['b'] = [2]
        for e in es:
            e['a'] = 1
        ds[0]['q'].append(3)
        c.expect('q' not in ds[0] and ds[0].get('q', 7) == 7, 'default-is-not-stored')
        c.eq(ds[0]['q'], [], 'default-never-changes')
        for x in ds:
            x['a'].pop()
        if n > 1 and rng.random() < 0.5:
            del ds[1], es[1]
        time.sleep(11)
        for x in ds:
            c.expect('a' not in dict(getattr(x, 'data', {})), 'background-cleaner-works')
            c.eq(dict(x.items()), {'b': [2]}, 'items')
        for e in es:
            c.eq(len(getattr(e, 'data', ())), 0, 'background-cleaner-works')
    c.sched(body)


@CHECK.scenario(quick=300, thorough=6000)
def background_registration(c):
    """a dictionary made at any moment, e.g. during a pass of the background cleaner, is maintained from then on"""
    rng = c.rng
    kinds = [rng.choice(['expiring', 'self-cleaning']) for _ in range(rng.randrange(2, 5))]
    delays = [rng.choice([0, 0, 0.001, 5, 5.001]) for _ in kinds]
    c.rec(kinds, delays)
    m = fresh()

    def body(s):
        made = []

        def worker(kind, delay):
            time.sleep(delay)
            pause(1)
            if kind == 'expiring':
                d = m.ExpiringEntryDict(1, external_cleanup=True)
            else:
                d = m.SelfCleaningDefaultDict(list)
            made.append((kind, d))
        # something to keep the cleaner busy
        first = [m.ExpiringEntryDict(1, external_cleanup=True) for _ in range(2)]
        for f in first:
            f['x'] = 1
        c.go(*[lambda k=k, d=d: worker(k, d) for k, d in zip(kinds, delays)])
        for kind, d in made:
            if kind == 'expiring':
                d['a'] = 1
            else:
                d['a'] = [1]
                d['a'].pop()
        time.sleep(13)
        for kind, d in made:
            c.eq(len(getattr(d, 'data')), 0, 'registered-but-not-maintained', kind=kind)
        for f in first:
            c.eq(len(getattr(f, 'data')), 0, 'registered-but-not-maintained', kind='first')
    c.sched(body, gran=rng.choice(['line', 'opcode']))


@CHECK.scenario(quick=60, thorough=1000)
def after_failures(c):
    """an operation that fails leaves the dictionary usable for everybody"""
    def make(s):
        broken = [False]

        def clock():
            if broken[0]:
                raise Boom()
            return s.now

        def factory():
            if broken[0]:
                raise Boom()
            return 0

        def with_broken(f):
            def inner():
                broken[0] = True
                try:
                    f()
                finally:
                    broken[0] = False
            return inner
        e = ExpiringEntryDict(5, time_getter=clock)
        d = SelfCleaningDefaultDict(factory, background_maintenance=False)
        e['a'] = 1
        d['a'] = 1
        out = []
        for x, name in ((e, 'expiring'), (d, 'self-cleaning')):
            def works(x=x):
                x['z'] = 1
                assert x['z'] == 1 and 'z' in x and list(x) and len(x)
                del x['z']
            u = Unhashable()
            ops = [lambda x=x: x[u], lambda x=x: x.__setitem__(u, 1), lambda x=x: x.__delitem__(u), lambda x=x: u in x, lambda x=x: x.get(u),
                   lambda x=x: x.pop(u), lambda x=x: x.setdefault(u, 1), lambda x=x: x.__setitem__('inc', Incomparable())]
            ops += [with_broken(f) for f in (lambda x=x: x['a'], lambda x=x: x['q'], lambda x=x: x.__setitem__('a', 1), lambda x=x: 'a' in x, lambda x=x: x.get('a'),
                                             lambda x=x: len(x), lambda x=x: x.cleanup(), lambda x=x: list(x), lambda x=x: x.pop('q'))]
            out += [(f, works, '%s %d' % (name, i)) for i, f in enumerate(ops)]
        return [o for o in out if o[2] != 'self-cleaning 7']
    not_locked_out(c, make)


@CHECK.scenario(quick=200, thorough=5000)
def two_at_once(c):
    """What one dictionary holds is not in another"""
    rng = c.rng
    keys = [rng.randrange(6) for _ in range(rng.randrange(1, 6))]
    held = []

    def use(d):
        for k in keys:
            d[k] = k + 100

    def use_default(d):
        for k in keys:
            d[k].append(k)
        held.append([d[k] for k in keys])
    c.rec(keys)
    two_of_a_kind(c, [
        ('expiring', lambda: ExpiringEntryDict(1000, external_cleanup=True), use, lambda d: sorted(d.items())),
        ('self-cleaning', lambda: SelfCleaningDefaultDict(list, background_maintenance=False), use_default,
         lambda d: sorted((k, list(v)) for k, v in d.items())),
    ])
