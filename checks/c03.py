"""C03: identifiers are unique while in use, and things meant to happen once happen once"""
import threading
import time

from vlib.harness import Check
from checks.common import Boom, BoomBase, Clock, Incomparable, Unhashable, linearizable, not_locked_out, pause, two_of_a_kind

from satella.coding.concurrent import IDAllocator, SequentialIssuer, DeferredValue, SingleStartThread
from satella.exceptions import Empty, AlreadyAllocated, WouldWaitMore
from satella.coding.structures import Singleton, SingletonWithRegardsTo, get_instances_for_singleton, delete_singleton_for

CHECK = Check('C03', 'A case is one history of allocations/frees/sets, sequential or under one controlled schedule; distinct '
                     'by operations, results and thread switches; non-trivial if at least two oracle evaluations took '
                     'place')


def model_alloc(start, top):
    def apply(state, op):
        """state: frozenset of allocated, op: (name, argument, outcome). Returns whether it is legal"""
        name, x, out = op
        if name == 'alloc':
            if out == 'Empty':
                full = top is not None and len([i for i in state if start <= i < top]) == max(0, top - start)
                return state, full
            ok = isinstance(out, int) and out >= start and (top is None or out < top) and out not in state
            return state | {out}, ok
        if name == 'free':
            if x < start or x not in state:
                return state, out == 'ValueError'
            return state - {x}, out == 'ok'
        if name == 'mark':
            if x < start or (top is not None and x >= top):
                return state, out == 'ValueError'
            if x in state:
                return state, out == 'AlreadyAllocated'
            return state | {x}, out == 'ok'
    return apply


def do(al, name, x):
    try:
        if name == 'alloc':
            return al.allocate_int()
        if name == 'free':
            r = al.mark_as_free(x)
        else:
            r = al.mark_as_allocated(x)
        return 'ok' if r is None else r
    except Empty:
        return 'Empty'
    except AlreadyAllocated:
        return 'AlreadyAllocated'
    except ValueError:
        return 'ValueError'


@CHECK.scenario(quick=1500, thorough=60000)
def allocator_sequential(c):
    rng = c.rng
    start = rng.choice([0, 0, 1, 5, 100, -7])
    top = rng.choice([None, start + rng.randrange(0, 45), start, start + 10, start + 11, start + 9, 0])
    kw = {}
    if start or rng.random() < 0.5:
        kw['start_at'] = start
    if top is not None:
        kw['top_limit'] = top
    al = IDAllocator(**kw)
    apply = model_alloc(start, top)
    state = frozenset()
    c.rec(kw)
    bias = rng.choice([0.4, 0.6, 0.85])
    for _ in range(rng.randrange(5, 90)):
        k = rng.random()
        if k < bias:
            name, x = 'alloc', None
        elif k < bias + (1 - bias) / 2:
            name = 'free'
            x = rng.choice(sorted(state)) if state and rng.random() < 0.8 else start + rng.randrange(-3, 40)
        else:
            name, x = 'mark', start + rng.randrange(-3, 45)
        out = do(al, name, x)
        c.rec(name, x, out)
        state, ok = apply(state, (name, x, out))
        c.expect(ok, 'allocator', op=(name, x), outcome=out, allocated=sorted(state), limits=kw)


@CHECK.scenario(quick=1200, thorough=50000)
def allocator_concurrent(c):
    rng = c.rng
    start = rng.choice([0, 3])
    top = rng.choice([None, start + 2, start + 3, start + 4])
    plan = [[rng.choice(['alloc', 'alloc', 'free', 'mark']) for _ in range(rng.randrange(1, 4))]
            for _ in range(rng.randrange(2, 4))]
    pre = rng.randrange(0, 2) if rng.random() < 0.7 else 10
    c.rec(start, top, plan, pre)
    clock = Clock()
    hist = []

    def body(s):
        al = IDAllocator(start_at=start, top_limit=top)
        for _ in range(pre):
            t0 = clock()
            hist.append((t0, clock(), ('alloc', None, do(al, 'alloc', None)), True))

        def run(ops):
            mine = []
            for name in ops:
                x = None
                if name == 'free':
                    if not mine:
                        continue
                    x = mine.pop()
                elif name == 'mark':
                    x = start + rng.randrange(-1, 5)
                t0 = clock()
                out = do(al, name, x)
                hist.append((t0, clock(), (name, x, out), True))
                if name == 'alloc' and out != 'Empty':
                    mine.append(out)
        c.go(*[lambda p=p: run(p) for p in plan])
        for _ in range(3):
            t0 = clock()
            hist.append((t0, clock(), ('alloc', None, do(al, 'alloc', None)), True))
    c.sched(body, gran=rng.choice(['line', 'opcode']))
    c.rec(hist)
    c.expect(linearizable(hist, frozenset(), model_alloc(start, top)), 'allocator-linearizability', history=hist)


@CHECK.scenario(quick=900, thorough=30000)
def allocator_ownership(c):
    """many threads allocating and freeing: nobody is ever given an id that somebody else has"""
    rng = c.rng
    start = rng.choice([0, 7])
    n = rng.randrange(2, 5)
    top = rng.choice([None, start + n, start + 12])
    c.rec(start, top, n)
    seeds = [rng.random() for _ in range(n)]

    def body(s):
        import random
        al = IDAllocator(start_at=start, top_limit=top)
        owned = {}

        def run(i):
            r = random.Random(seeds[i])
            mine = []
            for _ in range(r.randrange(3, 12)):
                if mine and r.random() < 0.45:
                    x = mine.pop(r.randrange(len(mine)))
                    del owned[x]
                    al.mark_as_free(x)
                else:
                    try:
                        x = al.allocate_int()
                    except Empty:
                        c.expect(top is not None, 'empty-without-limit')
                        continue
                    c.expect(x not in owned, 'id-issued-twice', id=x)
                    c.expect(x >= start and (top is None or x < top), 'bounds', id=x)
                    owned[x] = i
                    mine.append(x)
        c.go(*[lambda i=i: run(i) for i in range(n)])
        free = (top - start - len(owned)) if top is not None else 15
        got = [al.allocate_int() for _ in range(free)]
        c.eq(len(set(got) | set(owned)), free + len(owned), 'id-issued-twice')
        if top is not None:
            c.raises(Empty, al.allocate_int, 'limit')
            c.eq(set(got) | set(owned), set(range(start, top)), 'every-id-is-issued')
    c.sched(body)


@CHECK.scenario(quick=900, thorough=30000)
def sequential_issuer(c):
    rng = c.rng
    start = rng.choice([0, 5, -3])
    kw = {} if start == 0 and rng.random() < 0.5 else {'start': start}
    plan = [[rng.choice([None, None, rng.randrange(-5, 30)]) for _ in range(rng.randrange(1, 5))]
            for _ in range(rng.randrange(1, 4))]
    c.rec(start, plan)
    clock = Clock()
    hist = []

    def body(s):
        si = SequentialIssuer(**kw)

        def run(ops):
            for nlt in ops:
                t0 = clock()
                v = si.issue() if nlt is None else si.no_less_than(nlt)
                hist.append((t0, clock(), nlt, v))
        c.go(*[lambda p=p: run(p) for p in plan])
    c.sched(body, gran=rng.choice(['line', 'opcode']))
    c.rec(hist)
    vals = [h[3] for h in hist]
    c.eq(len(set(vals)), len(vals), 'issued-twice', values=vals)
    c.expect(min(vals) >= start, 'below-start', values=vals)
    for t0, t1, nlt, v in hist:
        if nlt is not None:
            c.expect(v >= nlt, 'less-than-required', got=v, no_less_than=nlt)
    for a in hist:
        for b in hist:
            if a[1] < b[0]:
                c.expect(a[3] < b[3], 'monotonic', first=a, second=b)

    def apply(state, nlt):
        v = state if nlt is None else max(state, nlt)
        return v + 1, v
    c.expect(linearizable(hist, start, apply), 'issuer-linearizability', history=hist)


@CHECK.scenario(quick=900, thorough=30000)
def deferred_value(c):
    rng = c.rng
    setters = rng.randrange(1, 4)
    waiters = [rng.choice([None, None, 0.5, 5]) for _ in range(rng.randrange(0, 4))]
    delay = rng.choice([0, 0, 2])
    vals = [rng.choice([None, 0, False, '', i, (i,)]) for i in range(setters)]
    c.rec(setters, waiters, delay, vals)

    def body(s):
        dv = DeferredValue()
        winners, results = [], []

        def setter(v):
            if delay:
                time.sleep(delay)
            try:
                dv.set_value(v)
                winners.append(v)
            except ValueError:
                c.expect(True, 'x')

        def waiter(t):
            t0 = s.now
            try:
                f = dv.value if rng.random() < 0.5 else dv.result
                v = f() if t is None else f(t)
                results.append(('v', v))
                c.expect(s.now - t0 <= delay + 1e-6, 'late', waited=s.now - t0)
            except WouldWaitMore:
                c.expect(t is not None and t <= delay, 'spurious-timeout', timeout=t, delay=delay)
                c.expect(s.now - t0 >= t - 1e-6, 'early-timeout')
        c.go(*[lambda v=v: setter(v) for v in vals], *[lambda t=t: waiter(t) for t in waiters])
        c.eq(len(winners), 1, 'exactly-one-setter-wins')
        w = winners[0]
        for _, v in results:
            c.expect(v is w, 'everybody-sees-the-value', got=v, want=w)
        c.expect(dv.value() is w and dv.result(0) is w and dv.value(timeout=0) is w, 'everybody-sees-the-value')
        c.raises(ValueError, lambda: dv.set_value(3), 'set-once')
        c.expect(dv.value() is w, 'set-once')
    c.sched(body, gran=rng.choice(['line', 'opcode']))


@CHECK.scenario(quick=600, thorough=15000)
def single_start(c):
    rng = c.rng
    n = rng.randrange(1, 5)
    c.rec(n)

    def body(s):
        ran = []
        t = SingleStartThread(target=lambda: ran.append(1), daemon=True)

        def starter():
            for _ in range(2):
                c.expect(t.start() is t, 'returns-self')
        c.go(*[starter] * n)
        t.join()
        c.eq(ran, [1], 'ran-once')
        c.expect(t.start() is t, 'returns-self')
        c.eq(ran, [1], 'ran-once')
    c.sched(body, gran=rng.choice(['line', 'opcode']))


@CHECK.scenario(quick=800, thorough=20000)
def singleton_race(c):
    """whoever asks, and whenever, gets the very same, fully constructed instance"""
    rng = c.rng
    n = rng.randrange(2, 5)
    fails = rng.randrange(0, 3)
    kind = rng.choice(['plain', 'args', 'weak'])
    keys = [rng.randrange(2) for _ in range(n)]
    c.rec(n, fails, kind, keys)

    def body(s):
        made = []
        boom = rng.choice([Boom, BoomBase])
        left = [fails]
        deco = {'plain': Singleton, 'args': SingletonWithRegardsTo(num_args=1),
                'weak': SingletonWithRegardsTo(1, weak_refs=True)}[kind]

        @deco
        class A:
            def __init__(self, key, other=None):
                self.key = key
                if left[0]:
                    left[0] -= 1
                    raise boom('no')
                pause(2)
                made.append(key)
                self.ready = True

        out = []

        def asker(k):
            for _ in range(2):
                try:
                    a = A(k) if rng.random() < 0.5 else A(k, other=3)
                except (Boom, BoomBase):
                    continue
                c.expect(getattr(a, 'ready', False), 'half-built-instance')
                out.append((None if kind == 'plain' else k, a))
        c.go(*[lambda k=k: asker(k) for k in keys])
        if kind == 'plain':
            c.expect(len({id(a) for _, a in out}) <= 1, 'one-instance', n=len({id(a) for _, a in out}))
            c.expect(len(made) <= 1, 'constructed-once', made=made)
        else:
            for k in set(keys):
                c.expect(len({id(a) for q, a in out if q == k}) <= 1, 'one-instance', key_=k)
                c.expect(made.count(k) <= 1, 'constructed-once', made=made)
            c.expect(all(a.key == k for k, a in out), 'instance-for-its-arguments')
            c.eq(sorted(get_instances_for_singleton(A)) if out else [], sorted({(k,) for k, _ in out}), 'instances')
            if out:
                k, a = out[0]
                delete_singleton_for(A, k)
                b = A(k)
                c.expect(b is not a and A(k) is b and b.key == k, 'deleted-singleton')
    c.sched(body, gran=rng.choice(['line', 'opcode']))


@CHECK.scenario(quick=100, thorough=2000)
def weak_singletons(c):
    """instances that nobody holds are let go of"""
    rng = c.rng

    @SingletonWithRegardsTo(2, weak_refs=True)
    class A:
        def __init__(self, a, b, *rest):
            self.args = (a, b)

    held = {}
    for _ in range(rng.randrange(3, 25)):
        k = (rng.randrange(3), rng.choice('ab'))
        if k in held and rng.random() < 0.4:
            del held[k]
        else:
            a = A(*k, rng.random())
            c.expect(held.get(k, a) is a and a.args == k, 'one-instance')
            held[k] = a
            del a
        c.rec(len(held))
        c.eq(sorted(get_instances_for_singleton(A)), sorted(held), 'instances')


@CHECK.scenario(quick=600, thorough=15000)
def freed_once(c):
    """Of many that free the same identifier one succeeds and the others are refused; it can be allocated once afterwards, by number too"""
    rng = c.rng
    start = rng.choice([0, 5])
    n = rng.randrange(2, 4)
    k = rng.randrange(1, 4)
    c.rec(start, n, k)

    def body(s):
        al = IDAllocator(start_at=start, top_limit=start + k)
        ids = [al.allocate_int() for _ in range(k)]
        x = rng.choice(ids)
        freed, refused, again = [], [], []

        def free():
            try:
                al.mark_as_free(x)
                freed.append(1)
            except ValueError:
                refused.append(1)

        def alloc():
            try:
                again.append(al.allocate_int())
            except Empty:
                pass

        def mark():
            try:
                al.mark_as_allocated(x)
                again.append(x)
            except AlreadyAllocated:
                pass
        fns = [free] * n + rng.choice([[], [alloc], [mark], [alloc, mark]])
        c.go(*fns)
        c.expect(len(freed) + len(refused) == n, 'freed-once', freed=len(freed), refused=len(refused))
        c.expect(len(again) <= len(freed) <= len(again) + 1, 'freed-once', 'allocations after freeing', freed=len(freed), again=again)
        if len(fns) == n:
            c.eq(len(freed), 1, 'freed-once')
        c.expect(all(y == x for y in again), 'freed-once', again=again)
    c.sched(body, gran=rng.choice(['line', 'opcode']))


@CHECK.scenario(quick=60, thorough=1000)
def after_failures(c):
    """what has failed can be tried again by anybody"""
    def make(s):
        si, ia, dv = SequentialIssuer(), IDAllocator(top_limit=2), DeferredValue()
        state = {'fail': True}

        @Singleton
        class One:
            def __init__(self):
                if state['fail']:
                    raise Boom()

        @SingletonWithRegardsTo(1)
        class Per:
            def __init__(self, x):
                if state['fail']:
                    raise Boom()

        def now(f):
            def inner():
                state['fail'] = False
                try:
                    return f()
                finally:
                    state['fail'] = True
            return inner

        def cannot_start():
            # a thread that cannot be started
            t = SingleStartThread(target=print, args=5)
            t.run = None
            raise Boom()

        def set_twice():
            d = DeferredValue()
            d.set_value(1)
            d.set_value(2)
        return [(lambda: si.no_less_than(Incomparable()), si.issue, 'no_less_than'), (lambda: si.no_less_than('x'), si.issue, 'no_less_than'),
                (lambda: ia.mark_as_free(99), lambda: ia.mark_as_free(ia.allocate_int()), 'mark_as_free'),
                (lambda: ia.mark_as_free(Unhashable()), lambda: ia.mark_as_free(ia.allocate_int()), 'mark_as_free'),
                (lambda: ia.mark_as_allocated('x'), lambda: ia.mark_as_free(ia.allocate_int()), 'mark_as_allocated'),
                (lambda: ia.mark_as_allocated(-1), lambda: ia.mark_as_free(ia.allocate_int()), 'mark_as_allocated'),
                (lambda: dv.result(timeout=0), lambda: c.attempt(lambda: dv.set_value(1)), 'deferred'), (set_twice, lambda: None, 'deferred set'),
                (One, now(One), 'singleton'), (lambda: Per(1), now(lambda: Per(1)), 'singleton with regards'),
                (lambda: Per(Unhashable()), now(lambda: Per(2)), 'singleton with regards')]
    not_locked_out(c, make)


@CHECK.scenario(quick=200, thorough=5000)
def two_at_once(c):
    """Two allocators, issuers or values are independent of each other"""
    rng = c.rng
    n, start = rng.randrange(1, 8), rng.randrange(5)

    def peek(a):
        held = []
        for v in range(start, start + 20):
            if c.attempt(lambda: a.mark_as_free(v))[0] == 'ok':
                held.append(v)
        for v in held:
            a.mark_as_allocated(v)
        got = []
        while True:
            try:
                got.append(a.allocate_int())
            except Empty:
                break
        for v in got:
            a.mark_as_free(v)
        return len(held), len(set(got))
    c.rec(n, start)
    two_of_a_kind(c, [
        ('ids', lambda: IDAllocator(start, start + 20), lambda a: len({a.allocate_int() for _ in range(n)}), peek),
        ('issuer', lambda: SequentialIssuer(start), lambda a: [a.issue() for _ in range(n)] and a.no_less_than(start + n + 3), lambda a: None),
        ('deferred', DeferredValue, lambda a: a.set_value(n), lambda a: c.attempt(lambda: a.value(timeout=0))[:1]),
    ])
