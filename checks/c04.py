"""C04: queues deliver every element exactly once, in order, and nobody sleeps while there is something to take"""
import queue
import threading
import time

from vlib.harness import Check
from checks.common import Boom, Clock, Unhashable, linearizable, not_locked_out, pause, two_of_a_kind

from satella.coding.concurrent import PeekableQueue
from satella.coding.structures import Subqueue
from satella.exceptions import Empty, WouldWaitMore

CHECK = Check('C04', 'A case is one history of queue operations by several producers and consumers under one controlled '
                     'schedule (or one sequential history); distinct by operations, results and thread switches; '
                     'non-trivial if at least two oracle evaluations took place')


def apply_queue(state, op):
    name, x, out = op
    if name == 'put':
        return state + (x,), True
    if name == 'put_many':
        return state + tuple(x), True
    if name == 'get':
        if out == 'Empty':
            return state, not state
        return state[1:], bool(state) and state[0] == out
    if name == 'peek':
        if out == 'Empty':
            return state, not state
        return state, bool(state) and state[0] == out
    if name == 'qsize':
        return state, len(state) == out


def breaking(xs):
    yield from xs
    raise Boom()


@CHECK.scenario(quick=1000, thorough=30000)
def peekable_sequential(c):
    rng = c.rng
    q = PeekableQueue()
    model = []
    items = [None, 0, '', (), [], 'x', 5]
    with c.virtual_time() as vt:
        for i in range(rng.randrange(4, 40)):
            k = rng.randrange(7)
            if k <= 1:
                x = rng.choice(items) if rng.random() < 0.4 else (i, 'v')
                c.expect(q.put(x) is None, 'put')
                model.append(x)
            elif k == 2:
                xs = [(i, j) for j in range(rng.randrange(0, 4))]
                q.put_many(rng.choice([xs, tuple(xs), iter(xs), (y for y in xs)]))
                model += xs
                if rng.random() < 0.1:      # what has been given before the source failed is there
                    c.raises(Boom, lambda: q.put_many(breaking(xs)), 'source-failure-passed')
                    if q.qsize() != len(model):
                        model += xs
            elif k == 3 and model:
                v = q.get() if rng.random() < 0.5 else q.get(timeout=rng.choice([0, 1]))
                c.eq(v, model.pop(0), 'fifo')
            elif k == 4 and model:
                v = q.peek() if rng.random() < 0.5 else q.peek(timeout=rng.choice([0, 1]))
                c.eq(v, model[0], 'peek-is-the-head')
            elif k == 5 and model:
                v = q.get(rng.choice([None, 0, 3]))
                c.eq(v, model.pop(0), 'fifo')
            elif not model:
                t = rng.choice([0, 0.5, 2, -1])
                t0 = vt.now
                c.raises(Empty, lambda: (q.get if rng.random() < 0.5 else q.peek)(timeout=t), 'empty')
                c.expect(max(t, 0) - 1e-6 <= vt.now - t0 <= max(t, 0) + 0.2, 'timeout-honored', t=t, took=vt.now - t0)
            c.rec(k, len(model))
            c.eq(q.qsize(), len(model), 'size')
        while model:
            c.eq(q.get(), model.pop(0), 'fifo')
        c.eq(q.qsize(), 0, 'size')


@CHECK.scenario(quick=1500, thorough=60000)
def peekable_linearizable(c):
    rng = c.rng
    nprod, ncons = rng.randrange(1, 3), rng.randrange(1, 4)
    prods = []
    total = 0
    for p in range(nprod):
        ops = []
        for j in range(rng.randrange(1, 4)):
            if rng.random() < 0.6:
                ops.append(('put', (p, j)))
                total += 1
            else:
                m = rng.randrange(0, 4)
                ops.append(('put_many', [(p, j, i) for i in range(m)]))
                total += m
        prods.append(ops)
    budget = total
    cons = []
    for k in range(ncons):
        ops = []
        for j in range(rng.randrange(1, 4)):
            kind = rng.random()
            if kind < 0.5 and budget > 0:
                ops.append(('get', None))
                budget -= 1
            elif kind < 0.65 and budget > 0:
                # may be served before it gives up, so takes its share of the budget as well
                ops.append(('get', rng.choice([0, 0.5, 3])))
                budget -= 1
            elif budget > 0:
                ops.append(('peek', rng.choice([0, 0.5, 3])))
        cons.append(ops)
    delays = [rng.choice([0, 0, 0, 1]) for _ in range(nprod)]
    jumps = rng.choice([0, 0, 0.02])
    c.rec(prods, cons, delays, jumps)
    hist = []
    clock = Clock()

    def body(s):
        q = PeekableQueue()

        def prod(ops, d):
            for name, x in ops:
                if d:
                    time.sleep(d)
                t0 = clock()
                q.put(x) if name == 'put' else q.put_many(x)
                hist.append((t0, clock(), (name, x, None), True))

        def con(ops):
            for name, t in ops:
                t0 = clock()
                v0 = s.now
                try:
                    f = q.get if name == 'get' else q.peek
                    out = f() if t is None else f(timeout=t)
                except Empty:
                    out = 'Empty'
                    c.expect(t is not None, 'blocking-get-gave-up')
                    c.expect(s.now - v0 >= t - 1e-6, 'gave-up-too-early', t=t, waited=s.now - v0)
                hist.append((t0, clock(), (name, None, out), True))
        c.go(*[lambda o=o, d=d: prod(o, d) for o, d in zip(prods, delays)], *[lambda o=o: con(o) for o in cons])
        while q.qsize():
            t0 = clock()
            hist.append((t0, clock(), ('get', None, q.get(0)), True))
        c.raises(Empty, lambda: q.get(0), 'drained')
    c.sched(body, jumps=jumps)
    put = [x for h in hist if h[2][0].startswith('put') for x in (h[2][1] if h[2][0] == 'put_many' else [h[2][1]])]
    got = [h[2][2] for h in hist if h[2][0] == 'get' and h[2][2] != 'Empty']
    c.eq(sorted(map(str, got)), sorted(map(str, put)), 'exactly-once')
    c.expect(linearizable(hist, (), apply_queue), 'fifo-linearizability', history=hist)


@CHECK.scenario(quick=1200, thorough=40000)
def no_sleeping_while_there_is_work(c):
    """blocked consumers, all kinds of them, are served as soon as elements arrive - time does not need to pass"""
    rng = c.rng
    n = rng.randrange(1, 5)
    peekers = rng.randrange(0, 4)
    timed = [rng.choice([None, 100]) for _ in range(n)]
    ptimed = [rng.choice([None, 100]) for _ in range(peekers)]
    many = rng.random() < 0.5
    late = rng.random() < 0.6
    extra = 1 if peekers else rng.randrange(2)
    split = rng.random() < 0.5
    c.rec(n, peekers, timed, ptimed, many, late, extra, split)
    breaks = rng.random() < 0.3
    # is what has been given before the source failed kept?
    q = PeekableQueue()
    c.raises(Boom, lambda: q.put_many(breaking('x')), 'source-failure-passed')
    keeps = q.qsize() > 0

    def body(s):
        q = PeekableQueue()
        got = []

        def getter(t):
            got.append(q.get() if t is None else q.get(timeout=t))
            c.expect(s.now < 50, 'served-only-after-timeout', at=s.now)

        def peeker(t):
            x = q.peek() if t is None else q.peek(timeout=t)
            c.expect(s.now < 50, 'served-only-after-timeout', at=s.now)
            c.expect(x in range(n + extra), 'peeked-something-strange', x=x)

        def producer():
            if late:
                time.sleep(1)       # by now everybody is blocked
            if many and split:
                q.put_many(range(n // 2))
                q.put_many(range(n // 2, n + extra))
            elif many and breaks:
                c.raises(Boom, lambda: q.put_many(breaking(range(n + extra))), 'source-failure-passed')
                if not keeps:
                    q.put_many(range(n + extra))
            elif many:
                q.put_many(range(n + extra))
            else:
                for i in range(n + extra):
                    q.put(i)
        c.go(*[lambda t=t: getter(t) for t in timed], *[lambda t=t: peeker(t) for t in ptimed], producer)
        c.eq(sorted(got), list(range(n)), 'exactly-once')
        c.eq(q.qsize(), extra, 'size')
    c.sched(body)


@CHECK.scenario(quick=900, thorough=30000)
def subqueues(c):
    rng = c.rng
    names = ['a', 'b', 'c', '', 0][:rng.randrange(1, 6)]
    nprod = rng.randrange(1, 4)
    plan = [[rng.choice(names) for _ in range(rng.randrange(1, 5))] for _ in range(nprod)]
    total = {}
    for p in plan:
        for x in p:
            total[x] = total.get(x, 0) + 1
    consumers = []
    left = dict(total)
    for _ in range(rng.randrange(1, 4)):
        ops = []
        for _ in range(rng.randrange(1, 4)):
            name = rng.choice(names)
            if left.get(name, 0) > 0 and rng.random() < 0.6:
                ops.append(('get', name))
                left[name] -= 1
        consumers.append(ops)
    anyget = rng.randrange(0, 3)
    # get_any would take what is promised to blocking consumers, so only if there are none
    if any(consumers):
        anyget = 0
    c.rec(names, plan, consumers, anyget)

    def body(s):
        sq = Subqueue()
        got = {n: [] for n in names}

        def prod(i):
            for j, name in enumerate(plan[i]):
                sq.put(name, (i, j))

        def con(ops):
            for _, name in ops:
                got[name].append(sq.get(name))

        def takeany():
            for _ in range(3):
                try:
                    name, x = sq.get_any()
                    got[name].append(x)
                except queue.Empty:
                    pass
                c.expect(sq.qsize() >= 0, 'size')
        c.go(*[lambda i=i: prod(i) for i in range(nprod)], *[lambda o=o: con(o) for o in consumers],
             *[takeany] * anyget)
        remaining = sum(map(len, plan)) - sum(map(len, got.values()))
        c.eq(sq.qsize(), remaining, 'size')
        while remaining:
            if rng.random() < 0.5:
                name, x = sq.get_any()
            else:
                name = rng.choice(names)
                try:
                    x = sq.get(name, block=False)
                except queue.Empty:
                    c.expect(sum(p.count(name) for p in plan) == len(got[name]), 'lost-element')
                    continue
            got[name].append(x)
            remaining -= 1
        for name in names:
            want = [(i, j) for i, p in enumerate(plan) for j, x in enumerate(p) if x == name]
            c.eq(sorted(got[name]), want, 'exactly-once', queue=name)
        if len(consumers) <= 1 and anyget <= 1:
            for name in names:
                for i in range(nprod):
                    mine = [x for x in got[name] if x[0] == i]
                    c.eq(mine, sorted(mine), 'fifo')
        c.raises(queue.Empty, sq.get_any, 'drained')
        c.raises(queue.Empty, lambda: sq.get(names[0], block=False), 'drained')
        t0 = s.now
        c.raises(queue.Empty, lambda: sq.get(names[0], timeout=2), 'drained')
        c.expect(s.now - t0 >= 2 - 1e-6, 'timeout-honored')
        c.eq(sq.qsize(), 0, 'size')
    c.sched(body)


@CHECK.scenario(quick=60, thorough=1000)
def after_failures(c):
    """an operation that fails leaves the queue usable for everybody"""
    def make(s):
        q, sub = PeekableQueue(), Subqueue()
        return [(lambda: q.put_many(breaking('ab')), lambda: q.put(1), 'put_many'),
                (lambda: q.put_many(None), lambda: q.qsize(), 'put_many'),
                (lambda: PeekableQueue().get(timeout=0), lambda: q.put(1), 'get'),
                (lambda: q.get(timeout='x'), lambda: q.put(1), 'get'),
                (lambda: q.peek(timeout='x'), lambda: q.put(1), 'peek'),
                (lambda: sub.put(Unhashable(), 1), lambda: sub.put('a', 1), 'subqueue put'),
                (lambda: sub.get(Unhashable()), lambda: (sub.put('b', 1), sub.get('b')), 'subqueue get'),
                (lambda: Subqueue().get_any(), lambda: sub.put('a', 1), 'subqueue get_any')]
    not_locked_out(c, make)


@CHECK.scenario(quick=200, thorough=5000)
def two_at_once(c):
    """What is put into one queue is not to be had from another one"""
    rng = c.rng
    names = [rng.choice('abc') for _ in range(rng.randrange(1, 8))]

    def use(q):
        for i, name in enumerate(names):
            q.put(name, i)

    def look(q):
        got = []
        for name in 'abc':
            n = 0
            try:
                while True:
                    got.append((name, q.get(name, False)))
                    n += 1
            except queue.Empty:
                pass
            for item in got[len(got) - n:]:
                q.put(*item)
        return got, q.qsize()

    def use_one(q):
        for i, name in enumerate(names):
            q.put((name, i))

    def look_one(q):
        got = []
        while q.qsize():
            got.append(q.get(timeout=0))
        for item in got:
            q.put(item)
        return got
    c.rec(names)
    two_of_a_kind(c, [('subqueue', Subqueue, use, look), ('peekable', PeekableQueue, use_one, look_one)])
