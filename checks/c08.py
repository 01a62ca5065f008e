"""C08: heaps hand out their elements smallest first, none lost and none repeated"""
import collections
import copy
import time

from vlib.harness import Check
from checks.common import Boom, MyInt, MyList, fresh, two_of_a_kind

from satella.coding.structures import Heap, SetHeap, TimeBasedHeap, TimeBasedSetHeap

CHECK = Check('C08', 'A case is one history of operations on a heap compared with a list that is sorted anew for each query; '
                     'distinct by operations and results; non-trivial if at least two oracle evaluations took place')


class Job:
    """can not be ordered"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Job) and other.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'Job(%s)' % (self.n,)


def value(rng, kind):
    if kind == 'int':
        return rng.randrange(-4, rng.choice([8, 40]))
    if kind == 'float':
        return rng.choice([rng.random(), rng.randrange(4), -1.5, float('inf')])
    if kind == 'str':
        return rng.choice('abcdABC') * rng.randrange(0, 3)
    return (rng.randrange(3), rng.choice('abc'))


@CHECK.scenario(quick=5000, thorough=200000)
def heap(c):
    rng = c.rng
    unique = rng.random() < 0.5
    kind = rng.choice(['int', 'float', 'str', 'tuple'])
    cls = SetHeap if unique else Heap
    init = [value(rng, kind) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 15]))]

    def norm(x):
        return sorted(set(x)) if unique else sorted(x)
    form = rng.randrange(4)
    h = cls(init if form == 0 else (tuple(init) if form == 1 else (list(init) if form == 2 else iter(init)))) \
        if init or rng.random() < 0.5 else cls()
    orig = list(init)
    model = norm(init)

    def verify(h, model, key='contents'):
        c.eq(len(h), len(model), key + '-len')
        c.eq(bool(h), bool(model), key + '-bool')
        c.eq(sorted(h), model, key)
        c.eq(list(h.iter_ascending()), model, key + '-ascending')
        c.eq(list(h.iter_descending()), model[::-1], key + '-descending')
        c.eq(len(h), len(model), key + '-len')

    verify(h, model)
    c.rec(unique, kind, init)
    for _ in range(rng.randrange(3, 25)):
        k = rng.randrange(9)
        v = value(rng, kind)
        if k <= 1:
            if kind == 'tuple' and not unique and rng.random() < 0.3:
                h.push(*v)
            else:
                h.push(v)
            model = norm(model + [v])
        elif k == 2:
            vs = [value(rng, kind) for _ in range(rng.randrange(0, 5))]
            h.push_many(rng.choice([list, tuple, iter])(vs))
            model = norm(model + vs)
        elif k == 3:
            if model:
                got = h.pop()
                c.eq(got, model.pop(0), 'smallest-first')
            else:
                c.raises(IndexError, h.pop, 'empty')
        elif k == 4:
            if v in model:
                c.eq(h.pop_item(v), v, 'pop-item')
                model.remove(v)
            else:
                c.raises(ValueError, lambda: h.pop_item(v), 'pop-item-missing')
        elif k == 5:
            c.eq(v in h, v in model, 'contains', v=v)
        elif k == 6:
            pred = rng.choice([None, lambda x: x != v, lambda x: hash(x) % 2 == 0])
            fun = rng.choice([None, {'int': lambda x: -x, 'float': lambda x: -x, 'str': lambda x: x.swapcase(),
                                     'tuple': lambda x: (-x[0], x[1])}[kind],
                              {'int': abs, 'float': abs, 'str': lambda x: x.lower(), 'tuple': lambda x: (0, x[1])}[kind]])
            h.filter_map(filter_fun=pred, map_fun=fun)
            model = [x for x in model if pred is None or pred(x)]
            model = norm([x if fun is None else fun(x) for x in model])
        elif k == 7:
            h2 = rng.choice([copy.copy, copy.deepcopy])(h)
            c.expect(type(h2) is cls, 'copy-type')
            verify(h2, model, 'copy')
            h2.push(v)
            if len(h2):
                h2.pop()
            if rng.random() < 0.5:
                while h2:
                    h2.pop()
            verify(h, model, 'copy-independent')
        else:
            it = h.iter_ascending()
            got = [x for x, _ in zip(it, range(2))]
            c.eq(got, model[:2], 'ascending')
        c.rec(k, len(model))
        verify(h, model)
    c.eq(init, orig, 'source-not-changed')
    out = []
    while h:
        out.append(h.pop())
    c.eq(out, model, 'smallest-first')
    c.raises(IndexError, h.pop, 'empty')


@CHECK.scenario(quick=5000, thorough=200000)
def time_heap(c):
    rng = c.rng
    unique = rng.random() < 0.5
    cls = TimeBasedSetHeap if unique else TimeBasedHeap
    clock = [100]
    own_clock = rng.random() < 0.5
    kind = rng.choice(['job', 'int', 'mixed', 'tuple', 'zero'])

    def item():
        n = rng.randrange(6)
        return {'job': Job(n), 'int': n + 1, 'zero': n, 'mixed': [Job(n), 'a', n + 1][n % 3], 'tuple': (n, 'x')}[kind]

    with c.virtual_time() as vt:
        if own_clock:
            src = lambda: clock[0]  # noqa
            h = cls(src) if rng.random() < 0.5 else cls(default_clock_source=src)
        else:
            h = cls()

        def now():
            return clock[0] if own_clock else vt.now
        model = []      # (ts, item)

        def put(ts, it):
            nonlocal model
            if unique:
                model = [m for m in model if m[1] != it]
            model.append((ts, it))

        def same(h, model, key='contents'):
            c.eq(len(h), len(model), key + '-len')
            c.eq(bool(h), bool(model), key + '-bool')
            left = list(model)
            for e in h:
                ts, it = e
                c.expect((ts, it) in left, key, entry=(ts, it), model=model)
                left.remove((ts, it))
            c.eq(len(left), 0, key)
            c.eq(sorted(map(repr, h.items())), sorted(repr(m[1]) for m in model), key + '-items')
            c.eq([x[0] for x in h.iter_ascending()], sorted(m[0] for m in model), key + '-ascending')
            if model:
                p = h.peek_closest() if hasattr(h, 'peek_closest') else next(iter(h.iter_ascending()))
                c.expect(tuple(p) in model and p[0] == min(m[0] for m in model), 'closest', p=tuple(p), model=model)
            elif hasattr(h, 'peek_closest'):
                c.raises(IndexError, h.peek_closest, 'closest-empty')

        big = rng.random() < 0.5
        if big:
            for i in range(rng.randrange(6, 40)):
                ts, it = rng.randrange(200), Job(i + 100)
                h.put(ts, it)
                put(ts, it)
        for _ in range(rng.randrange(3, 25)):
            k = rng.randrange(13)
            if big and rng.random() < 0.5:
                k = rng.choice([6, 7, 7, 9, 0])
            it = item()
            if big and rng.random() < 0.7 and model:
                it = rng.choice(model)[1]
            ts = rng.choice([rng.choice(model)[0], rng.choice(model)[0], rng.randrange(60)]) if big and rng.random() < 0.7 and model \
                else rng.choice([0, 1, 2, 3, 0.5, -1, 100, 1000, now(), now() + 1])
            if k <= 2:
                h.put(ts, it)
                put(ts, it)
            elif k == 3:
                t = now()
                h.put(it)
                put(t, it)
            elif k == 4:
                if model:
                    got = tuple(h.pop())
                    c.expect(got in model and got[0] == min(m[0] for m in model), 'smallest-first', popped=got)
                    model.remove(got)
                else:
                    c.raises(IndexError, h.pop, 'empty')
            elif k == 5:
                if rng.random() < 0.5:
                    less = ts
                    gen = h.pop_less_than(less)
                else:
                    less = now()
                    gen = h.pop_less_than()
                if rng.random() < 0.2:
                    # stop halfway
                    limit = 1
                else:
                    limit = 10 ** 9
                got = []
                for e in gen:
                    got.append(tuple(e))
                    if len(got) >= limit:
                        break
                due = [m for m in model if m[0] < less]
                c.eq(len(got), min(len(due), limit), 'all-less-than', less=less, due=due)
                c.eq([g[0] for g in got], sorted(m[0] for m in due)[:limit], 'all-less-than-ordered')
                for g in got:
                    c.expect(g in model, 'all-less-than', entry=g)
                    model.remove(g)
            elif k == 6:
                mine = [m for m in model if m[1] == it]
                if mine:
                    got = tuple(h.pop_item(it))
                    c.expect(got in mine, 'pop-item', popped=got)
                    model.remove(got)
                else:
                    c.raises(ValueError, lambda: h.pop_item(it), 'pop-item-missing')
            elif k == 7:
                mine = [m for m in model if m[0] == ts]
                if mine:
                    got = h.pop_timestamp(ts)
                    c.expect((ts, got) in mine, 'pop-timestamp', popped=got)
                    model.remove((ts, got))
                else:
                    c.raises(ValueError, lambda: h.pop_timestamp(ts), 'pop-timestamp-missing')
            elif k == 8:
                mine = [m[0] for m in model if m[1] == it]
                if mine:
                    c.expect(h.get_timestamp(it) in mine, 'timestamp-of-item', item=it)
                elif unique:
                    c.raises(ValueError, lambda: h.get_timestamp(it), 'timestamp-missing')
            elif k == 9:
                h.remove(it)
                model = [m for m in model if m[1] != it]
            elif k == 11:
                bound = ts
                pred = rng.choice([None, lambda e: e[0] > bound, lambda e: e[1] != it, lambda e: False])
                # entries made by a mapping are plain tuples, so compared as these in case of a tie
                fun = rng.choice([None, lambda e: (e[0] + 1.5, e[1]), lambda e: (-e[0], e[1])]) if kind in ('int', 'tuple') and not big else None
                h.filter_map(**{k2: v for k2, v in (('filter_fun', pred), ('map_fun', fun)) if v is not None or rng.random() < 0.5})
                model = [m for m in model if pred is None or pred(m)]
                model = [m if fun is None else fun(m) for m in model]
            elif k == 12 and kind in ('int', 'tuple') and not big:
                many = [(rng.choice([0, 1, 2, 5.5, 77]), item()) for _ in range(rng.randrange(4))]
                h.push_many(rng.choice([list, tuple, iter])(many))
                for pair in many:
                    put(*pair)
                c.expect(all((m in h) for m in model), 'contains')
            else:
                h2 = rng.choice([copy.copy, copy.deepcopy])(h)
                c.expect(type(h2) is cls, 'copy-type')
                same(h2, model, 'copy')
                h2.put(5, 'other')
                t = now()
                h2.put('another')
                c.eq(h2.get_timestamp('another'), t, 'copy-clock')
                same(h, model, 'copy-independent')
            if rng.random() < 0.3:
                clock[0] += rng.choice([1, 5])
                time.sleep(rng.choice([1, 5]))
            c.rec(k, len(model))
            same(h, model)
        last = None
        while h:
            got = tuple(h.pop())
            c.expect(last is None or last <= got[0], 'smallest-first')
            last = got[0]
            c.expect(got in model, 'contents')
            model.remove(got)
        c.eq(model, [], 'contents')


@CHECK.scenario(quick=1500, thorough=60000)
def like_a_list(c):
    """What heaps have as they are lists keeps them heaps"""
    rng = c.rng
    cls = rng.choice([Heap, SetHeap, TimeBasedHeap, TimeBasedSetHeap])
    timed, unique = cls in (TimeBasedHeap, TimeBasedSetHeap), cls in (SetHeap, TimeBasedSetHeap)
    span = rng.choice([6, 30, 10 ** 6])
    clock = [rng.randrange(100)]
    h = cls(lambda: clock[0]) if timed else cls()
    model = []

    def item():
        n = rng.randrange(span)
        return (rng.randrange(50), MyInt(n) if rng.random() < 0.3 else n) if timed else rng.choice([int, MyInt, float])(n)

    def add(x):
        if timed and unique:
            model[:] = [m for m in model if m[1] != x[1]]
        if not (unique and x in model):
            model.append(x)

    def put(h, x):
        if timed:
            h.put(*x) if rng.random() < 0.5 else h.push(x)
        else:
            h.push(x)
    c.rec(cls.__name__, span)
    for _ in range(rng.randrange(3, 20)):
        k = rng.randrange(9)
        if k <= 1:
            x = item()
            put(h, x)
            add(x)
        elif k == 2:
            x = item()
            h.append(x)
            add(x)
        elif k == 3:
            xs = [item() for _ in range(rng.choice([0, 1, 3, 8]))]
            given = rng.choice([list, tuple, iter, collections.deque, collections.UserList])(xs)
            if rng.random() < 0.5:
                h.extend(given)
            else:
                before = h
                h += given
                c.expect(h is before, 'inplace-add')
            for x in xs:
                add(x)
        elif k == 4:
            if not timed:
                if model and rng.random() < 0.7:
                    x = fresh(rng.choice(model))
                    h.remove(x)
                    model.remove(x)
                else:
                    c.raises(ValueError, lambda: h.remove(-5), 'remove-missing')
            else:
                x = fresh(rng.choice(model)[1]) if model and rng.random() < 0.7 else item()[1]
                h.remove(x)
                model[:] = [m for m in model if m[1] != x]
        elif k == 5:
            if rng.random() < 0.3:
                h.clear()
                model.clear()
        elif k == 6:
            h2 = rng.choice([lambda: h.copy(), lambda: copy.copy(h), lambda: copy.deepcopy(h)])()
            c.expect(type(h2) is cls, 'copy-type')
            c.eq(sorted(tuple(x) if timed else x for x in h2), sorted(model), 'copy')
            if rng.random() < 0.5:
                h2.clear()
            else:
                put(h2, item())
        elif k == 7:
            if model:
                got = h.pop()
                got = tuple(got) if timed else got
                c.expect(got in model and (got[0] == min(m[0] for m in model) if timed else got == min(model)), 'smallest-first', popped=got)
                model.remove(got)
        elif not timed:
            x = fresh(rng.choice(model)) if model and rng.random() < 0.6 else item()
            c.eq(x in h, x in model, 'contains', x=x)
        c.rec(k, len(model))
        c.eq(len(h), len(model), 'contents-len')
        c.eq(sorted(tuple(x) if timed else x for x in h), sorted(model), 'contents')
        c.eq([x[0] if timed else x for x in h.iter_ascending()], sorted(m[0] if timed else m for m in model), 'contents-ascending')
    out = []
    while h:
        out.append(h.pop())
    c.eq([x[0] if timed else x for x in out], sorted(m[0] if timed else m for m in model), 'smallest-first')


@CHECK.scenario(quick=20, thorough=400)
def many(c):
    """Heaps of many elements that are equal without being the same"""
    rng = c.rng
    n = rng.randrange(257, 900)
    values = [rng.choice([int, MyInt, float])(rng.randrange(10 ** 6)) for _ in range(n)]
    c.rec(n, values[:5])
    for cls in (Heap, SetHeap):
        h = cls(rng.choice([list, MyList, tuple, iter])(values))
        again = cls(list(values))
        want = sorted(set(values)) if cls is SetHeap else sorted(values)
        c.eq(len(h), len(want), 'contents-len')
        c.expect(len(h) == len(again) and list(h.iter_ascending()) == list(again.iter_ascending()), 'contents')
        x = fresh(rng.choice(values))
        c.expect(x in h and -1 not in h, 'contains')
        c.eq(h.pop_item(x), x, 'pop-item')
        want.remove(x)
        h.push(x)
        h.push(fresh(x))
        want.append(x)
        if cls is Heap:
            want.append(x)
        want.sort()
        c.eq(list(h.iter_descending()), want[::-1], 'contents-descending')
        c.eq([h.pop() for _ in range(len(want))], want, 'smallest-first')
        c.expect(not h and len(h) == 0, 'contents-len')
    for cls in (TimeBasedHeap, TimeBasedSetHeap):
        h = cls()
        for i, v in enumerate(values):
            h.put(v, 10 ** 6 + i)
        i = rng.randrange(n)
        c.eq(h.get_timestamp(fresh(10 ** 6 + i)), values[i], 'get-timestamp')
        c.eq(tuple(h.pop_item(fresh(10 ** 6 + i))), (values[i], 10 ** 6 + i), 'pop-item')
        h.put(values[i], 10 ** 6 + i)
        limit = fresh(rng.choice(values))
        c.eq(sorted(map(tuple, h.pop_less_than(limit))), sorted((v, 10 ** 6 + i) for i, v in enumerate(values) if v < limit), 'pop-less-than')
        c.eq(len(h), sum(v >= limit for v in values), 'contents-len')
        j = h.pop_timestamp(limit)
        c.eq(values[j - 10 ** 6], limit, 'pop-timestamp')


@CHECK.scenario(quick=200, thorough=5000)
def two_at_once(c):
    """What is pushed into one heap is not in another, whether they began empty or with the same elements"""
    rng = c.rng
    values = [rng.randrange(20) for _ in range(rng.randrange(1, 9))]
    shared = [rng.randrange(20) for _ in range(rng.randrange(4))]
    push = lambda h: [h.push(v) for v in values] and None
    put = lambda h: [h.put(v % 5, v) for v in values] and None
    c.rec(values, shared)
    two_of_a_kind(c, [
        ('heap', Heap, push, lambda h: sorted(h)),
        ('set-heap', SetHeap, push, lambda h: (sorted(h), [v in h for v in range(20)])),
        ('heap-of-some', lambda: Heap(tuple(shared)), push, lambda h: sorted(h)),
        ('set-heap-of-some', lambda: SetHeap(list(shared)), push, lambda h: (sorted(h), [v in h for v in range(20)])),
        ('time-based', lambda: TimeBasedHeap(default_clock_source=lambda: 7), put, lambda h: sorted(h.items())),
        ('time-based-set', TimeBasedSetHeap, put, lambda h: (sorted(h.items()), [v in h for v in range(20)])),
    ])
