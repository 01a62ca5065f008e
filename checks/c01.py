"""C01: critical sections guarded by satella's locking primitives are mutually exclusive"""
import copy
import threading
import time

from vlib.harness import Check, Violated
from checks.common import Section, pause, Boom, get_ident, not_locked_out, Unhashable

from satella.coding.concurrent import Monitor, RMonitor, MonitorList, MonitorDict, MonitorSet, LockedDataset, \
    LockedStructure
from satella.exceptions import ResourceNotLocked, WouldWaitMore, ResourceLockingError

CHECK = Check('C01', 'A case is one randomly composed workload executed under one controlled schedule (or one '
                     'sequential history); distinct by its operations and thread switches; non-trivial if at least two '
                     'oracle evaluations took place',
              ['preemption happens at source lines of satella and at synchronization operations, under the GIL'])


def make_guarded(rng, sec, reentrant):
    """build an object with many ways in to the same critical section"""
    base = RMonitor if reentrant else Monitor

    class Guarded(base):
        def __init__(self):
            super().__init__()

        @Monitor.synchronized
        def method(self, r, x, boom=False, *, kw=None):
            sec.work(r)
            if boom:
                raise Boom(x)
            return x, kw

        @Monitor.synchronized
        def releasing(self, r, boom=False):
            sec.work(r)
            with Monitor.release(self):
                pause(r.randrange(3))
                if boom:
                    try:
                        with Monitor.acquire(self):
                            sec.work(r)
                            raise Boom(1)
                    except Boom:
                        pass
            sec.work(r)
            return 'released'

        @Monitor.synchronized
        def nested(self, r):
            sec.enter()
            v = self.method(r, 5)
            with self:
                with Monitor.acquire(self):
                    sec.work(r)
            pause(r.randrange(3))
            sec.leave()
            return v

    return Guarded()


@CHECK.scenario(quick=1500, thorough=60000)
def monitor_sections(c):
    rng = c.rng
    sec = Section(c)
    reentrant = rng.random() < 0.4
    kinds = ['method', 'with', 'acquire', 'synchronize_on', 'attribute', 'releasing']
    if reentrant:
        kinds.append('nested')
    container = rng.choice([None, None, MonitorList, MonitorDict, MonitorSet])
    if container is not None:
        kinds = ['with', 'acquire', 'synchronize_on', 'attribute']
    plan = [[(rng.choice(kinds), rng.random() < 0.25, rng.randrange(100)) for _ in range(rng.randrange(1, 5))]
            for _ in range(rng.randrange(2, 5))]
    c.rec(reentrant, container and container.__name__, plan)
    seeds = [rng.random() for _ in plan]

    def body(s):
        import random
        g = container() if container is not None else make_guarded(rng, sec, reentrant)

        @Monitor.synchronize_on(g)
        def free(r, x, boom=False, *, kw=None):
            sec.work(r)
            if boom:
                raise Boom(x)
            return x, kw

        class Holder:
            def __init__(self):
                self.mon = g

            @Monitor.synchronize_on_attribute('mon')
            def method(self, r, x, boom=False, *, kw=None):
                sec.work(r)
                if boom:
                    raise Boom(x)
                return x, kw

        holder = Holder()
        done = []

        def run(i):
            r = random.Random(seeds[i])
            for kind, boom, x in plan[i]:
                try:
                    if kind in ('method', 'synchronize_on', 'attribute'):
                        fn = {'method': getattr(g, 'method', None), 'synchronize_on': free,
                              'attribute': holder.method}[kind]
                        v = fn(r, x, boom, kw=i)
                        c.expect(not boom, 'exception-swallowed', kind=kind)
                        c.eq(v, (x, i), 'result-passed-through', kind=kind)
                    elif kind == 'with':
                        with g as gg:
                            c.expect(gg is g, 'enter-returns-self')
                            sec.work(r)
                            if boom:
                                raise Boom(x)
                        c.expect(not boom, 'exception-swallowed', kind=kind)
                    elif kind == 'acquire':
                        with Monitor.acquire(g):
                            sec.work(r)
                            if boom:
                                raise Boom(x)
                        c.expect(not boom, 'exception-swallowed', kind=kind)
                    elif kind == 'releasing':
                        c.eq(g.releasing(r, boom), 'released', 'result-passed-through')
                    elif kind == 'nested':
                        c.eq(g.nested(r), (5, None), 'result-passed-through')
                except Boom as e:
                    c.expect(boom and e.args[0] == x, 'exception-passed-through')
                done.append(1)

        c.go(*[lambda i=i: run(i) for i in range(len(plan))])
        c.eq(len(done), sum(map(len, plan)), 'every-operation-completes')
        c.eq(sec.depth, 0, 'sections-left')
        # the lock must be free again, a fresh thread would hang otherwise
        def last():
            with g:
                sec.work(random.Random(1))
        c.go(last)
    c.sched(body)


@CHECK.scenario(quick=300, thorough=10000)
def release_lets_others_in(c):
    """Monitor.release has to really give the lock up for its duration"""
    rng = c.rng
    n = rng.randrange(1, 4)
    reentrant = rng.random() < 0.5
    hold = rng.choice([0, 0, 1, 3, 20, 1000])
    fails = rng.random() < 0.3
    c.rec(n, reentrant, hold, fails)

    def body(s):
        class M(RMonitor if reentrant else Monitor):
            @Monitor.synchronized
            def run(self):
                order.append('in')
                ev.set()
                try:
                    with Monitor.release(self):
                        other.wait()
                        if fails:
                            raise Boom()
                except Boom:
                    pass
                order.append('back')
        m, order = M(), []
        ev, other = threading.Event(), threading.Event()

        def intruder():
            ev.wait()
            with m:
                order.append('intruder')
                if order.count('intruder') == n:
                    other.set()     # the owner is to return while we are still inside, however long it takes
                pause(rng.randrange(3))
                if hold:
                    time.sleep(hold)
                order.append('intruder-out')
        c.go(m.run, *[intruder] * n)
        c.eq(order[0], 'in', 'order')
        c.eq(order[-1], 'back', 'order')
        for i in range(n):
            c.eq(order[1 + 2 * i:3 + 2 * i], ['intruder', 'intruder-out'], 'order')
    c.sched(body)


@CHECK.scenario(quick=900, thorough=40000)
def separate_monitors_are_independent(c):
    """holding one monitor must not stand in the way of another one of the same class"""
    rng = c.rng
    which = rng.randrange(6)
    c.rec(which)

    class Data(LockedDataset):
        def __init__(self):
            super().__init__()
            with self:
                self.value = 0

    def make():
        if which == 0:
            return Monitor()
        if which == 1:
            return RMonitor()
        if which == 2:
            return MonitorList([1])
        if which == 3:
            return copy.copy(proto) if rng.random() < 0.5 else copy.deepcopy(proto)
        if which == 5:
            return Data()
        return LockedStructure({})
    proto = rng.choice([MonitorList([[1], 2]), MonitorDict({1: [2]})])

    def body(s):
        a = make()
        b = proto if which == 3 and rng.random() < 0.5 else make()
        got = []

        def second():
            with b:
                got.append(1)
        with a:
            c.go(second)
        c.eq(got, [1], 'independent')
        if which == 5:
            with a:
                a.value = 7
            with b:
                c.eq(b.value, 0, 'independent-values')
        if which == 3:
            c.expect(a.data == proto.data and a.data is not proto.data, 'copy-is-equal-but-separate')
    c.sched(body)


@CHECK.scenario(quick=1500, thorough=60000)
def locked_dataset(c):
    rng = c.rng
    sec = Section(c, 'dataset')
    holders = []        # (start, end) of holding
    kinds = ['plain', 'plain', 'nonblocking', 'timeout', 'method', 'method-nb', 'method-timeout']
    plan = [[(rng.choice(kinds), rng.random() < 0.2, rng.choice([0.01, 0.5, 3, 50]))
             for _ in range(rng.randrange(1, 5))] for _ in range(rng.randrange(2, 5))]
    c.rec(plan)
    stats = dict(ok=0)

    def body(s):

        def hold(md, boom, dur):
            me = get_ident()
            sec.enter()
            v = md.value
            pause(rng.randrange(3))
            if dur:
                time.sleep(dur)
            md.value = v + 1
            pause(rng.randrange(2))
            c.eq(md.value, v + 1, 'lost-update')
            md.last = me
            c.eq(md.last, me, 'lost-update')
            stats['ok'] += 1
            sec.leave()
            if boom:
                raise Boom()
            return v

        class DS(LockedDataset):
            def __init__(self):
                super().__init__()
                with self:
                    self.value = 0
                    self.last = None

            @LockedDataset.locked()
            def inc(self, boom, dur):
                return hold(self, boom, dur)

            @LockedDataset.locked(blocking=False)
            def inc_nb(self, boom, dur):
                return hold(self, boom, dur)

            @LockedDataset.locked(timeout=0.3)
            def inc_t(self, boom, dur):
                return hold(self, boom, dur)

        ds = DS()
        releasing = [0]     # operations in progress
        started = [0]       # operations ever started

        def run(i):
            for kind, boom, tmo in plan[i]:
                t0 = s.now
                contended = releasing[0] > 0
                started[0] += 1
                e0 = started[0]
                dur = rng.choice([0, 0, 0, 0.2, 1])
                try:
                    releasing[0] += 1
                    if kind == 'plain':
                        with ds as md:
                            c.expect(md is ds, 'yields-dataset')
                            hold(md, boom, dur)
                    elif kind == 'nonblocking':
                        with ds(blocking=False) as md:
                            c.expect(md is ds, 'yields-dataset')
                            hold(md, boom, dur)
                    elif kind == 'timeout':
                        with ds(blocking=True, timeout=tmo) as md:
                            c.expect(md is ds, 'yields-dataset')
                            hold(md, boom, dur)
                    elif kind == 'method':
                        ds.inc(boom, dur)
                    elif kind == 'method-nb':
                        ds.inc_nb(boom, dur)
                    else:
                        ds.inc_t(boom, dur)
                    c.expect(not boom, 'exception-swallowed')
                except Boom:
                    c.expect(boom, 'exception-passed-through')
                except ResourceNotLocked as e:
                    c.fail('holder-denied-access', repr(e), kind=kind)
                except WouldWaitMore:
                    c.expect(kind not in ('plain', 'method'), 'blocking-acquisition-gave-up', kind=kind)
                    c.expect(len(plan) > 1, 'spurious-WouldWaitMore')
                    limit = tmo if kind == 'timeout' else 0.3
                    if kind in ('timeout', 'method-timeout'):
                        c.expect(s.now - t0 >= limit - 1e-6, 'gave-up-too-early', waited=s.now - t0, limit=limit)
                    else:
                        c.expect(contended or started[0] > e0, 'spurious-WouldWaitMore')
                finally:
                    releasing[0] -= 1
        c.go(*[lambda i=i: run(i) for i in range(len(plan))])
        with ds:
            c.eq(ds.value, stats['ok'], 'lost-update')
        c.raises(ResourceNotLocked, lambda: ds.value, 'access-without-lock')
        c.raises(ResourceNotLocked, lambda: setattr(ds, 'value', 3), 'access-without-lock')
    c.sched(body)


@CHECK.scenario(quick=300, thorough=5000)
def locked_dataset_sequential(c):
    rng = c.rng

    class DS(LockedDataset):
        def __init__(self):
            super().__init__()
            with self:
                self.a = 1

        def unlocked_method(self):
            return self.a

        @LockedDataset.locked()
        def locked_method(self, x, *, y=2):
            self.a = x
            return self.a, y

        @LockedDataset.locked(blocking=False)
        def impatient_method(self, x):
            self.a = x
            return x

        @LockedDataset.locked(timeout=1.5)
        def patient_method(self, x):
            self.a = x
            return x

    ds = DS()
    model = 1
    for _ in range(rng.randrange(3, 15)):
        k = rng.randrange(11)
        c.rec(k)
        if k == 9:
            model = rng.randrange(100)
            c.eq((ds.impatient_method if rng.random() < 0.5 else ds.patient_method)(model), model, 'locked-method')
        elif k == 10:
            with c.virtual_time() as vt:
                with ds:
                    t0 = vt.now
                    c.raises(WouldWaitMore, lambda: ds.impatient_method(-1), 'not-reentrant')
                    c.expect(vt.now - t0 <= 1e-3, 'timeout-honored', waited=vt.now - t0)
                    t0 = vt.now
                    c.raises(WouldWaitMore, lambda: ds.patient_method(-1), 'not-reentrant')
                    c.expect(1.5 - 1e-9 <= vt.now - t0 <= 1.75, 'timeout-honored', waited=vt.now - t0)
                    c.eq(ds.a, model, 'value')
        elif k == 0:
            c.raises(ResourceNotLocked, lambda: ds.a, 'access-without-lock')
        elif k == 1:
            def setit():
                ds.a = 99
            c.raises(ResourceNotLocked, setit, 'access-without-lock')
        elif k == 2:
            c.raises(ResourceNotLocked, ds.unlocked_method, 'access-without-lock')
        elif k == 3:
            model = rng.randrange(100)
            c.eq(ds.locked_method(model, y=4), (model, 4), 'locked-method')
        elif k == 4:
            with ds as d:
                c.expect(d is ds, 'yields-dataset')
                c.eq(d.a, model, 'value')
                c.eq(ds.unlocked_method(), model, 'value')
                model = d.a = rng.randrange(100)
        elif k == 5:
            with ds(blocking=False) as d:
                c.expect(d is ds, 'yields-dataset')
                c.eq(d.a, model, 'value')
                c.raises(WouldWaitMore, lambda: ds(blocking=False).__enter__(), 'not-reentrant')
                c.eq(d.a, model, 'value')
        elif k == 6:
            with c.virtual_time() as vt:
                with ds:
                    t0 = vt.now

                    def inner():
                        with ds(timeout=0.75):
                            pass
                    c.raises(WouldWaitMore, inner, 'not-reentrant')
                    c.expect(0.75 - 1e-9 <= vt.now - t0 <= 1, 'timeout-honored', waited=vt.now - t0)
                    c.eq(ds.a, model, 'value')
        elif k == 7:
            try:
                with ds as d:
                    model = d.a = rng.randrange(100)
                    raise Boom()
            except Boom:
                pass
            c.raises(ResourceNotLocked, lambda: ds.a, 'access-without-lock')
        else:
            with ds:
                ds.fresh = 3
                c.eq(ds.fresh, 3, 'value')
                del ds.fresh
                c.raises(AttributeError, lambda: ds.fresh, 'value')
    with ds:
        c.eq(ds.a, model, 'value')


@CHECK.scenario(quick=700, thorough=20000)
def locked_structure(c):
    rng = c.rng
    sec = Section(c, 'structure')
    own_lock = rng.random() < 0.5
    shared = rng.random() < 0.5 and own_lock
    n = rng.randrange(2, 5)
    ops = rng.randrange(1, 4)
    c.rec(own_lock, shared, n, ops)

    def body(s):
        lock = (threading.RLock() if rng.random() < 0.3 else threading.Lock()) if own_lock else None
        d = {'x': 0}
        ls = LockedStructure(d, lock) if own_lock else LockedStructure(d)
        ls2 = LockedStructure([0], lock) if shared else None

        def run(i):
            for j in range(ops):
                if shared and rng.random() < 0.5:
                    with ls2 as q:
                        sec.enter()
                        v = q[0]
                        pause(rng.randrange(3))
                        q[0] = v + 1
                        sec.leave()
                    with ls as q:
                        sec.enter()
                        q['x'] = q['x'] - 1
                        sec.leave()
                try:
                    with ls as q:
                        c.expect(q is ls, 'enter-returns-self')
                        sec.enter()
                        v = ls['x']
                        pause(rng.randrange(3))
                        q['x'] = v + 1
                        q[(i, j)] = 1
                        sec.leave()
                        if rng.random() < 0.2:
                            raise Boom()
                except Boom:
                    pass
        c.go(*[lambda i=i: run(i) for i in range(n)])
        c.eq(d['x'] + (ls2[0] if shared else 0), n * ops, 'lost-update')
        c.eq(len(ls), 1 + n * ops, 'lost-update')
        c.expect(((0, 0) in ls) and ls.get('x') == d['x'], 'passes-through')

        class Plain:
            pass
        obj = Plain()
        wrapped = LockedStructure(obj)
        with wrapped as w:
            w.attr = 5
            w.other = 6
            del w.other
        c.eq(vars(obj), {'attr': 5}, 'passes-through')
        c.eq(wrapped.attr, 5, 'passes-through')
    c.sched(body)


@CHECK.scenario(quick=600, thorough=20000)
def monitor_set_insert(c):
    """insert_and_check is an atomic test-and-set"""
    rng = c.rng
    n = rng.randrange(2, 5)
    items = [rng.randrange(3) for _ in range(rng.randrange(1, 4))]
    pre = [rng.randrange(3) for _ in range(rng.randrange(2))]
    c.rec(n, items, pre)

    def body(s):
        ms = MonitorSet(pre)
        won = {}

        def run():
            mine = items[:]
            rng.shuffle(mine)
            for it in mine:
                r = ms.insert_and_check(it)
                c.expect(r is True or r is False, 'boolean')
                if r:
                    won[it] = won.get(it, 0) + 1
                c.expect(it in ms, 'inserted')
        c.go(*[run] * n)
        c.eq(won, {i: 1 for i in items if i not in pre}, 'exactly-one-winner')
        c.eq(set(ms), set(items) | set(pre), 'contents')
    c.sched(body, gran=rng.choice(['line', 'opcode']))


@CHECK.scenario(quick=300, thorough=8000)
def containers(c):
    """a list, dictionary or set that is a monitor acts like the plain one, and its copies have locks of their own"""
    rng = c.rng
    kind = rng.choice([list, dict, set])
    cls = {list: MonitorList, dict: MonitorDict, set: MonitorSet}[kind]
    base = [rng.randrange(5) for _ in range(rng.randrange(6))]
    init = {x: str(x) for x in base} if kind is dict else base
    c.rec(kind.__name__, base)
    model = kind(init)
    if not base and rng.random() < 0.5:
        m = cls()
    elif kind is dict and rng.random() < 0.3:
        model = dict(model, key=1)
        m = MonitorDict(init, key=1)
    else:
        m = cls(init)
    for _ in range(rng.randrange(1, 12)):
        k, x, y = rng.randrange(6), rng.randrange(6), rng.randrange(6)
        if kind is list:
            op = [lambda t: t.append(x), lambda t: t[x], lambda t: t.__setitem__(x, y), lambda t: t.__delitem__(x), lambda t: list(t[x:y]),
                  lambda t: t.__delitem__(slice(x, y))][k]
        elif kind is dict:
            op = [lambda t: t.__setitem__(x, y), lambda t: t[x], lambda t: t.get(x), lambda t: t.__delitem__(x), lambda t: t.setdefault(x, y),
                  lambda t: t.pop(x, None)][k]
        else:
            op = [lambda t: t.add(x), lambda t: x in t, lambda t: t.discard(x), lambda t: t.remove(x), lambda t: len(t), lambda t: t.update([x, y])][k]
        want, have = c.attempt(lambda: op(model)), c.attempt(lambda: op(m))
        c.rec(k, x, y, want[0])
        c.expect(want[0] == have[0] and (want[1] == have[1] if want[0] == 'ok' else type(want[1]) is type(have[1])), 'container-operation',
                 'result of an operation', kind=kind.__name__, op=(k, x, y), answer=repr(have), wanted=repr(want))
        c.expect(m == model and len(m) == len(model) and list(m) == list(model), 'container-contents', have=repr(m), wanted=repr(model))
    with Monitor.acquire(m):
        for dup in (copy.copy, copy.deepcopy):
            d = dup(m)
            c.expect(d == model and d is not m, 'container-copy', copied=repr(d))
            c.expect(type(d) is cls, 'container-copy-type', copied=type(d).__name__)
            got = []
            with Monitor.acquire(d):
                got.append(1)
            c.eq(got, [1], 'container-copy-lock')
        d = m.copy()
        with Monitor.acquire(d):
            c.expect(d == model and type(d) is cls, 'container-copy', copied=repr(d))
    if kind is not set:
        inner = [1]
        m = MonitorList([inner]) if kind is list else MonitorDict({0: inner})
        out = copy.deepcopy([inner, m, m])
        c.expect(out[1] is out[2] and out[1][0] is out[0] and out[0] is not inner, 'container-deepcopy-identity')
        c.expect(copy.copy(m)[0] is inner, 'container-copy-shallow')


@CHECK.scenario(quick=60, thorough=1000)
def after_failures(c):
    """whatever fails while locked, the lock is given back"""
    def boom(*args):
        raise Boom()

    def make(s):
        out = []
        for cls in (Monitor, RMonitor):
            class M(cls):
                @Monitor.synchronized
                def fails(self):
                    boom()

                @Monitor.synchronized
                def ok(self):
                    return 5
            m = M()

            class Other:
                def __init__(self, mon):
                    self.mon = mon

                @Monitor.synchronize_on_attribute('mon')
                def fails(self):
                    boom()

            @Monitor.synchronize_on(m)
            def guarded():
                boom()

            def inside(how):
                with how(m):
                    boom()

            def released():
                with m:
                    with Monitor.release(m):
                        boom()
            out += [(m.fails, m.ok, 'synchronized'), (Other(m).fails, m.ok, 'synchronize_on_attribute'), (guarded, m.ok, 'synchronize_on'),
                    (lambda inside=inside: inside(Monitor.acquire), m.ok, 'acquire'), (lambda inside=inside: inside(lambda x: x), m.ok, 'with'),
                    (released, m.ok, 'release')]
        ms, md, ml = MonitorSet(), MonitorDict(), MonitorList()

        def used(x):
            with x:
                pass
        out += [(lambda: ms.insert_and_check(Unhashable()), lambda: ms.insert_and_check(1), 'insert_and_check'),
                (lambda: md[Unhashable()], lambda: used(md), 'dict'), (lambda: ml[7], lambda: used(ml), 'list')]
        ls = LockedStructure([1])

        def in_structure():
            with ls:
                ls[7]
        out.append((in_structure, lambda: used(ls), 'structure'))

        class DS(LockedDataset):
            def __init__(self):
                super().__init__()
                with self:
                    self.x = 1

            @LockedDataset.locked()
            def fails(self):
                boom()
        ds = DS()

        def in_dataset():
            with ds:
                ds.nothing
        out += [(in_dataset, lambda: used(ds), 'dataset'), (ds.fails, lambda: used(ds), 'dataset method'),
                (lambda: ds.x, lambda: used(ds), 'dataset not locked')]
        return out
    not_locked_out(c, make)
