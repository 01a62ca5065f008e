"""C12: ordered containers, deques, sparse matrices and friends contain and order exactly what they were given"""
import copy
import random

from vlib.harness import Check
from checks.common import Boom, MyInt, MyList, MyTuple, fresh, two_of_a_kind

from satella.coding.structures import SortedList, SliceableDeque, Ranking, SparseMatrix, LRU, PushIterable, Vector, SetZip

CHECK = Check('C12', 'A case is one history of operations on a container compared with a plain reference implementation; distinct '
                     'by operations and results; non-trivial if at least two oracle evaluations took place')


class Twin:
    """equal to others while having a different sort key"""

    def __init__(self, key, tag):
        self.key, self.tag = key, tag

    def __eq__(self, other):
        return isinstance(other, Twin) and self.tag == other.tag

    def __hash__(self):
        return hash(self.tag)

    def __repr__(self):
        return 'Twin(%s,%s)' % (self.key, self.tag)


class Thing:
    """comparable for equality only"""

    def __init__(self, key, tag):
        self.key = key
        self.tag = tag

    def __repr__(self):
        return 'Thing(%s,%s)' % (self.key, self.tag)


def some_slice(rng):
    def n():
        return rng.choice([None, rng.randrange(-7, 8)])
    return slice(n(), n(), rng.choice([None, 1, 2, -1, -2, 3]))


@CHECK.scenario(quick=4000, thorough=150000)
def sorted_list(c):
    rng = c.rng
    kind = rng.choice(['plain', 'things', 'negated', 'twins'])
    if kind == 'plain':
        def mk():
            return rng.randrange(-5, 12)
        key = None
    elif kind == 'negated':
        def mk():
            return rng.choice([rng.randrange(10), rng.random() * 5])
        def key(x): return -x
    elif kind == 'twins':
        def mk():
            return Twin(rng.randrange(6), rng.randrange(3))
        def key(x): return x.key
    else:
        def mk():
            return Thing(rng.randrange(5), rng.randrange(1000))
        def key(x): return x.key
    identity = kind in ('things', 'twins')

    def forget(v):
        for i, x in enumerate(model):
            if x is v:
                del model[i]
                return
    keyf = key or (lambda x: x)
    init = [mk() for _ in range(rng.choice([0, 1, 3, 8]))]
    src = list(init)
    args = (rng.choice([list, tuple, iter])(init),) if init or rng.random() < 0.5 else ()
    sl = SortedList(*args) if key is None else SortedList(*(args or ((),)), key=key)
    model = list(init)
    c.rec(kind, init)

    def verify():
        got = list(sl)
        c.expect(len(sl) == len(model) and bool(sl) == bool(model), 'len', items=len(sl))
        c.expect([keyf(x) for x in got] == sorted(keyf(x) for x in model), 'sorted', items=got, model=model)
        c.eq(sorted(map(id, got)) if identity else sorted(got),
             sorted(map(id, model)) if identity else sorted(model), 'contents')
        return got
    verify()
    for _ in range(rng.randrange(2, 25)):
        op = rng.randrange(8)
        before = list(sl)
        if op <= 1:
            v = mk()
            i = sl.add(v)
            model.append(v)
            after = verify()
            c.expect(after[i] is v or after[i] == v, 'add-returns-index', i=i)
            c.eq(after[:i] + after[i + 1:], before, 'add-keeps-others')
        elif op == 2:
            vs = [mk() for _ in range(rng.randrange(4))]
            sl.extend(iter(vs))
            model += vs
        elif op == 3:
            v = rng.choice(before) if before and rng.random() < 0.8 else mk()
            if v in model:
                sl.remove(v)
                i = before.index(v)
                forget(before[i])
                c.eq(list(sl), before[:i] + before[i + 1:], 'remove')
            else:
                c.raises(ValueError, lambda: sl.remove(v), 'remove-missing')
        elif op == 4:
            last = rng.random() < 0.5
            if before:
                v = sl.pop() if last else sl.popleft()
                c.expect(v is before[-1 if last else 0], 'pop', v=v, before=before)
                forget(v)
            else:
                c.raises(IndexError, sl.pop if last else sl.popleft, 'pop-empty')
        elif op == 5:
            s = some_slice(rng)
            c.eq(list(sl[s]), before[s], 'slice', s=s)
        elif op == 6:
            i = rng.randrange(-10, 10)
            if -len(before) <= i < len(before):
                c.expect(sl[i] is before[i], 'index', i=i)
            else:
                c.raises(IndexError, lambda: sl[i], 'index')
        else:
            v = rng.choice(before) if before and rng.random() < 0.7 else mk()
            c.eq(v in sl, v in model, 'contains')
            if v in model:
                c.eq(sl.index(v), before.index(v), 'index-of')
            else:
                c.raises(ValueError, lambda: sl.index(v), 'index-of')
        c.rec(op, len(model))
        verify()
        if rng.random() < 0.15 and key is not None:
            # neither a key nor a comparison that fails leaves a trace
            c.expect(c.attempt(lambda: sl.add(None))[0] == 'exc', 'add-without-key')
            verify()
        elif rng.random() < 0.15 and model and key is None:
            c.expect(c.attempt(lambda: sl.add('no order'))[0] == 'exc', 'add-without-order')
            verify()
            more = [mk(), 'no order', mk()]
            c.expect(c.attempt(lambda: sl.extend(more))[0] == 'exc', 'add-without-order')
            if len(sl) == len(model) + 1:
                model.append(more[0])
            verify()
    c.eq(init, src, 'source-not-changed')
    if rng.random() < 0.1:
        st, twin = c.attempt(lambda: copy.deepcopy(sl))
        c.expect(st == 'ok' and [keyf(x) for x in twin] == [keyf(x) for x in sl], 'deep-copy', twin=twin)
        before = list(sl)
        twin.add(mk())
        c.expect(len(twin) == len(before) + 1 and [keyf(x) for x in twin] == sorted(keyf(x) for x in twin) and list(sl) == before, 'deep-copy')
        raw = SliceableDeque(before)
        st, got = c.attempt(lambda: (list(copy.copy(raw)), [keyf(x) for x in copy.deepcopy(raw)]))
        c.expect(st == 'ok' and got == (before, [keyf(x) for x in before]), 'deep-copy', got_=got)


@CHECK.scenario(quick=3000, thorough=100000)
def ranking(c):
    rng = c.rng
    init = [Thing(rng.randrange(6), i) for i in range(rng.randrange(0, 8))]
    src = list(init)
    r = Ranking(init, lambda t: t.key)
    model = list(init)
    c.rec([t.key for t in init])
    removed = []
    n = 100
    for _ in range(rng.randrange(2, 16)):
        op = rng.randrange(4)
        if op == 0:
            t = Thing(rng.randrange(6), n)
            n += 1
            r.add(t)
            model.append(t)
        elif op == 1 and model:
            t = rng.choice(model)
            r.remove(t)
            model.remove(t)
            removed.append(t)
        elif op == 2 and removed:
            t = removed.pop(rng.randrange(len(removed)))
            r.add(t)
            model.append(t)
        elif op == 3:
            t = Thing(0, -1)
            c.raises(ValueError, lambda: r.remove(t), 'remove-missing')
            c.raises(AttributeError, lambda: r.add(None), 'add-without-key')
        c.rec(op, len(model))
        got = list(r.get_sorted())
        c.eq([t.key for t in got], sorted(t.key for t in model), 'sorted')
        c.eq(sorted(map(id, got)), sorted(map(id, model)), 'contents')
        for i, t in enumerate(got):
            c.eq(r.get_position_of(t), i, 'position')
            c.eq(r.calculate_ranking_for(t), i, 'position')
            c.expect(r[i] is t and r[i - len(got)] is t, 'n-th')
        s = some_slice(rng)
        c.expect(list(r[s]) == got[s], 'slice', s=s)
        for t in removed:
            c.raises(ValueError, lambda: r.get_position_of(t), 'removed')
            c.raises(KeyError, lambda: r.calculate_ranking_for(t), 'removed')


@CHECK.scenario(quick=3000, thorough=100000)
def sliceable_deque(c):
    rng = c.rng
    init = [rng.randrange(6) for _ in range(rng.randrange(8))]
    d = SliceableDeque(init) if init or rng.random() < 0.5 else SliceableDeque()
    model = list(init)
    c.rec(init)
    for _ in range(rng.randrange(2, 20)):
        op = rng.randrange(13)
        v = rng.randrange(6)
        i = rng.randrange(-8, 9)
        ok = -len(model) <= i < len(model)
        if op == 0:
            d.append(v), model.append(v)
        elif op == 1:
            d.appendleft(v), model.insert(0, v)
        elif op == 2:
            d.insert(i, v), model.insert(i, v)
        elif op == 3:
            if ok:
                d[i] = v
                model[i] = v
            else:
                c.raises(IndexError, lambda: d.__setitem__(i, v), 'set-out-of-range')
        elif op == 4:
            if ok:
                del d[i]
                del model[i]
            else:
                c.raises(IndexError, lambda: d.__delitem__(i), 'del-out-of-range')
        elif op == 5:
            if model:
                c.eq(d.pop(), model.pop(), 'pop')
            else:
                c.raises(IndexError, d.pop, 'pop-empty')
        elif op == 6:
            if model:
                c.eq(d.popleft(), model.pop(0), 'popleft')
            else:
                c.raises(IndexError, d.popleft, 'pop-empty')
        elif op == 7:
            vs = [rng.randrange(6) for _ in range(rng.randrange(4))]
            d.extend(vs), model.extend(vs)
        elif op == 8:
            s = some_slice(rng)
            c.eq(list(d[s]), model[s], 'slice', s=s)
        elif op == 9:
            if ok:
                c.eq(d[i], model[i], 'index')
            else:
                c.raises(IndexError, lambda: d[i], 'index')
        elif op == 10:
            c.eq(v in d, v in model, 'contains')
            c.eq(d.count(v), model.count(v), 'count')
            if v in model:
                c.eq(d.index(v), model.index(v), 'index-of')
        elif op == 11:
            if v in model:
                d.remove(v), model.remove(v)
            else:
                c.raises(ValueError, lambda: d.remove(v), 'remove-missing')
        else:
            k = rng.randrange(-3, 4)
            d.rotate(k)
            if model:
                k %= len(model)
                model[:] = model[-k:] + model[:-k] if k else model
        c.rec(op, len(model))
        c.eq(list(d), model, 'contents')
        c.eq(list(reversed(d)), model[::-1], 'reversed')
        c.eq(len(d), len(model), 'len')
        c.eq(bool(d), bool(model), 'bool')


@CHECK.scenario(quick=5000, thorough=150000)
def sparse_matrix(c):
    rng = c.rng
    m = {}      # (col, row) -> value

    def dims():
        return (max((k[0] for k in m), default=-1) + 1, max((k[1] for k in m), default=-1) + 1)

    def dense(m):
        cols, rows = dims()
        return [[m.get((x, y)) for x in range(cols)] for y in range(rows)]

    def load(data):
        m.clear()
        for y, row in enumerate(data):
            for x, v in enumerate(row):
                if v is not None:
                    m[x, y] = v

    def mkdata():
        return [[rng.choice([None, rng.randrange(10), rng.randrange(10)]) for _ in range(rng.randrange(0, 4))]
                for _ in range(rng.randrange(0, 4))]
    data = mkdata()
    how = rng.randrange(3)
    if how == 0:
        sm = SparseMatrix(data)
        load(data)
    elif how == 1:
        sm = SparseMatrix.from_iterable(iter([iter(x) for x in data]))
        load(data)
    else:
        sm = SparseMatrix()
    c.rec(how, data)
    ALL = [slice(None), ...]

    def neg(i, n):
        return i - n if 0 <= i < n and rng.random() < 0.3 else i

    for _ in range(rng.randrange(2, 18)):
        cols, rows = dims()
        op = rng.randrange(14)
        x, y = rng.randrange(0, 5), rng.randrange(0, 5)
        v = rng.choice([None, rng.randrange(10), rng.randrange(10), 'x'] if op == -1 else
                       [None, rng.randrange(10), rng.randrange(-9, 1)])
        if op <= 2:
            sm[neg(x, cols), neg(y, rows)] = v
            if v is None:
                m.pop((x, y), None)
            else:
                m[x, y] = v
        elif op == 3:
            del sm[neg(x, cols), neg(y, rows)]
            m.pop((x, y), None)
        elif op == 4:
            vs = [rng.choice([None, rng.randrange(10)]) for _ in range(max(cols, rng.randrange(1, 5)))]
            sm[rng.choice(ALL), neg(y, rows)] = iter(vs)
            for x, v in enumerate(vs):
                if v is None:
                    m.pop((x, y), None)
                else:
                    m[x, y] = v
        elif op == 5:
            vs = [rng.choice([None, rng.randrange(10)]) for _ in range(max(rows, rng.randrange(1, 5)))]
            sm[neg(x, cols), rng.choice(ALL)] = vs
            for y, v in enumerate(vs):
                if v is None:
                    m.pop((x, y), None)
                else:
                    m[x, y] = v
        elif op == 6:
            data = mkdata()
            sm[rng.choice(ALL), rng.choice(ALL)] = data
            load(data)
        elif op == 7:
            which = rng.randrange(4)
            if which == 0:
                del sm[rng.choice(ALL), neg(y, rows)]
                for k in [k for k in m if k[1] == y]:
                    del m[k]
            elif which == 1:
                del sm[neg(x, cols), rng.choice(ALL)]
                for k in [k for k in m if k[0] == x]:
                    del m[k]
            elif which == 2:
                sm.delete_row(y)
                for k in [k for k in m if k[1] == y]:
                    del m[k]
            elif rng.random() < 0.3:
                if rng.random() < 0.5:
                    del sm[:, :]
                else:
                    sm.clear()
                m.clear()
        elif op == 8:
            vs = [rng.choice([None, rng.randrange(10)]) for _ in range(rng.randrange(0, 4))]
            sm.append_row(iter(vs))
            for x, v in enumerate(vs):
                if v is not None:
                    m[x, rows] = v
        elif op == 9:
            got = sm.shoot()
            want = {(x * 2, y * 2): v for (x, y), v in m.items()}
            w = SparseMatrix()
            for k, v in want.items():
                w[k] = v
            c.eq(list(got), list(w), 'shoot')
            c.eq((got.columns, got.rows), (max(0, 2 * cols - 1), max(0, 2 * rows - 1)), 'shoot')
        elif op == 10:
            if m:
                c.eq(sm.max(), max(m.values()), 'max')
                c.eq(sm.min(), min(m.values()), 'min')
        elif op == 11:
            diag = rng.random() < 0.5
            got = list(sm.get_neighbour_coordinates(x, y) if diag else sm.get_neighbour_coordinates(x, y, False))
            want = [(a, b) for a in range(cols) for b in range(rows) if (a, b) != (x, y) and
                    max(abs(a - x), abs(b - y)) == 1 and (diag or abs(a - x) + abs(b - y) == 1)]
            c.eq(sorted(got), want, 'neighbours')
        elif op == 12:
            what = rng.randrange(3)
            bad = (x, y) if x >= cols or y >= rows else (-cols - 1, 0) if what == 0 else (0, -rows - 1)
            c.raises(IndexError, lambda: sm[bad], 'out-of-range')
            if bad[0] < 0 or bad[1] < 0:
                c.raises(IndexError, lambda: sm.__setitem__(bad, 5), 'out-of-range')
            for sl in (slice(0, 1), slice(0, None), slice(None, 0), slice(None, None, 0), slice(None, None, 1), slice(1, None)):
                c.raises(IndexError, lambda: sm[sl, 0], 'custom-slices', sl=sl)
                c.raises(IndexError, lambda: sm[0, sl], 'custom-slices', sl=sl)
        else:
            other = SparseMatrix()
            for k, v in rng.sample(sorted(m.items()), len(m)):
                other[k] = v
            c.expect(sm == other and not (sm != other), 'equal')
            if m:
                k = rng.choice(sorted(m))
                other[k] = 99
                c.expect(sm != other and not (sm == other), 'not-equal')
                other[k] = m[k]
                c.expect(sm == other, 'equal')
                del other[k]
                c.expect(sm != other, 'not-equal')
        c.rec(op, len(m))
        cols, rows = dims()
        c.eq((sm.columns, sm.rows, len(sm), bool(sm)), (cols, rows, rows, bool(rows)), 'dimensions', m=sorted(m))
        d = dense(m)
        c.eq(list(sm), d, 'contents')
        c.eq(sm[rng.choice(ALL), rng.choice(ALL)], d, 'contents')
        if m:
            x, y = rng.randrange(cols), rng.randrange(rows)
            c.eq(sm[neg(x, cols), neg(y, rows)], m.get((x, y)), 'get')
            c.eq(sm[rng.choice(ALL), neg(y, rows)], d[y], 'get-row')
            c.eq(sm.get_row(y), d[y], 'get-row')
            c.eq(sm[neg(x, cols), rng.choice(ALL)], [r[x] for r in d], 'get-column')
    again = SparseMatrix(dense(m))
    c.expect(again == sm, 'round-trip')


@CHECK.scenario(quick=2000, thorough=60000)
def small_ones(c):
    rng = c.rng
    what = rng.randrange(4)
    c.rec(what)
    if what == 0:
        lru = LRU()
        order = []
        for _ in range(rng.randrange(2, 25)):
            k = rng.randrange(6)
            op = rng.randrange(5)
            if op == 0 and k not in order:
                lru.add(k)
                order.append(k)
            elif op <= 2:
                lru.mark_as_used(k)
                if k in order:
                    order.remove(k)
                order.append(k)
            elif op == 3:
                if k in order:
                    lru.remove(k)
                    order.remove(k)
                else:
                    c.raises(KeyError, lambda: lru.remove(k), 'lru-remove')
            elif order:
                c.eq(lru.get_item_to_evict(), order.pop(0), 'lru-evicts-least-recent')
            else:
                c.raises(KeyError, lru.get_item_to_evict, 'lru-empty')
            c.eq(len(lru), len(order), 'lru-len')
            c.eq([k in lru for k in range(6)], [k in order for k in range(6)], 'lru-contains')
            c.rec(op, k)
        while order:
            c.eq(lru.get_item_to_evict(), order.pop(0), 'lru-evicts-least-recent')
    elif what == 1:
        src = list(range(rng.randrange(6)))
        p = PushIterable(rng.choice([list, iter, tuple])(src))
        rest = list(src)
        stack = []
        c.expect(iter(p) is p, 'push-iter')
        for _ in range(rng.randrange(2, 20)):
            op = rng.randrange(4)
            v = rng.randrange(100, 200)
            if op == 0:
                p.push(v)
                stack.append(v)
            elif op == 1:
                p.push_left(v)
                stack.insert(0, v)
            else:
                fn = p.pop if rng.random() < 0.5 else p.__next__
                if stack:
                    c.eq(fn(), stack.pop(), 'push-order')
                elif rest:
                    c.eq(fn(), rest.pop(0), 'push-order')
                else:
                    c.raises(StopIteration, fn, 'push-empty')
            c.rec(op)
        c.eq(list(p), stack[::-1] + rest, 'push-order')
    elif what == 2:
        n = rng.randrange(0, 5)
        a, b = [tuple(rng.choice([rng.randrange(-5, 9), rng.randrange(1, 9) / 2]) for _ in range(n)) for _ in range(2)]
        k = rng.choice([2, 0.5, -3, 7])
        va, vb = Vector(a), Vector(b)
        orig = va
        c.eq(tuple(va + vb), tuple(x + y for x, y in zip(a, b)), 'vector-add')
        c.eq(tuple(va - vb), tuple(x - y for x, y in zip(a, b)), 'vector-sub')
        c.eq(tuple(va * k), tuple(x * k for x in a), 'vector-mul')
        c.eq(tuple(va / k), tuple(x / k for x in a), 'vector-div')
        for r in (va + vb, va - vb, va * k, va / k):
            c.expect(isinstance(r, Vector), 'vector-type')
        z = va
        z += vb
        z *= k
        z -= vb
        z /= k
        c.eq(tuple(z), tuple(((x + y) * k - y) / k for x, y in zip(a, b)), 'vector-in-place')
        c.expect(tuple(orig) == a and tuple(vb) == b, 'vector-operands-untouched')
        c.rec(a, b, k)
    else:
        sets = [set(rng.sample(range(i * 10, i * 10 + 8), rng.randrange(0, 5))) for i in range(rng.randrange(0, 4))]
        k = rng.randrange(0, len(sets) + 1)
        z = SetZip(*sets[:k])
        for s in sets[k:]:
            z += s
        c.rec(sets, k)
        union = set().union(*sets)
        c.eq(len(z), len(union), 'zip-len')
        c.eq(sorted(z), sorted(union), 'zip-iter')
        c.eq([x for x in range(40) if x in z], sorted(union), 'zip-contains')
        if sets:
            sets[-1].add(99)
            c.expect(99 in z and len(z) == len(union) + 1, 'zip-live')


@CHECK.scenario(quick=1500, thorough=50000)
def bounded_deque(c):
    """A sliceable deque of bounded length forgets at its other end, like a deque"""
    import collections
    rng = c.rng
    size = rng.choice([None, 0, 1, 3, 6, 300])
    values = lambda: [rng.randrange(9) for _ in range(rng.choice([0, 1, 2, 5, 9]))]     # noqa
    init = values()
    d = SliceableDeque(init, size) if rng.random() < 0.5 else SliceableDeque(iter(init), maxlen=size)
    m = collections.deque(init, maxlen=size)
    c.rec(size, init)
    for _ in range(rng.randrange(2, 20)):
        op = rng.randrange(9)
        v, vs = rng.randrange(9), values()
        given = rng.choice([list, tuple, iter, collections.deque])(vs)
        if op == 0:
            d.append(v), m.append(v)
        elif op == 1:
            d.appendleft(v), m.appendleft(v)
        elif op == 2:
            d.extend(given), m.extend(vs)
        elif op == 3:
            d.extendleft(given), m.extendleft(vs)
        elif op == 4:
            before = d
            d += given
            m += vs
            c.expect(d is before, 'inplace-add')
        elif op == 5:
            i = rng.randrange(-9, 10)
            if size is not None and len(m) >= size:
                c.raises(IndexError, lambda: d.insert(i, v), 'insert-into-full')
            else:
                d.insert(i, v), m.insert(i, v)
        elif op == 6:
            if len(m) < 200:
                d.extend(d)
                m.extend(list(m))
        elif op == 7:
            d.reverse(), m.reverse()
        elif rng.random() < 0.2:
            d.clear(), m.clear()
        s = some_slice(rng)
        c.rec(op, len(m))
        c.eq(list(d), list(m), 'contents')
        c.eq((len(d), bool(d), d.maxlen), (len(m), bool(m), size), 'len')
        c.eq(list(d[s]), list(m)[s], 'slice', s=s)
        if m:
            i = rng.randrange(-len(m), len(m))
            c.eq((d[i], d[MyInt(i)]), (m[i], m[i]), 'index', i=i)


@CHECK.scenario(quick=60, thorough=2000)
def large_ones(c):
    """Matrices, sorted lists and rankings of values far apart, equal without being the same, reached by what only equals an index"""
    rng = c.rng
    n = rng.randrange(257, 500)
    x, y = rng.choice([(n, 0), (0, n), (n, n)]) if rng.random() < 0.5 else (rng.randrange(3), rng.randrange(3))
    v = rng.choice([10 ** 6 + n, 'v%d' % n, 2.5 + n])
    c.rec(n, x, y)
    sm = SparseMatrix()
    sm[MyInt(x), MyInt(y)] = v
    c.eq((sm.columns, sm.rows), (x + 1, y + 1), 'dimensions')
    c.eq(sm[fresh(x), fresh(y)], v, 'get')
    c.eq(sm[MyInt(-1), MyInt(-1)], v, 'get')
    other = SparseMatrix()
    other[fresh(x), fresh(y)] = fresh(v)
    c.expect(sm == other and not (sm != other), 'equal')
    c.expect(SparseMatrix([MyTuple(r) for r in sm]) == sm, 'equal')
    sm[fresh(x), fresh(y)] = None
    c.expect(sm.columns == 0 and sm.rows == 0 and sm != other, 'dimensions')
    values = [rng.randrange(10 ** 5) for _ in range(n)]
    sl = SortedList(MyList(values), key=lambda k: -k)
    want = sorted(values, key=lambda k: -k)
    c.eq(list(sl), want, 'sorted')
    i = rng.randrange(n)
    c.eq((sl[MyInt(i)], sl[i - n]), (want[i], want[i]), 'sorted-index')
    w = fresh(rng.choice(values))
    c.eq(sl.index(w), want.index(w), 'sorted-index')
    sl.remove(w)
    want.remove(w)
    c.eq(list(sl), want, 'sorted')
    c.eq(w in sl, w in want, 'sorted-contains')


@CHECK.scenario(quick=300, thorough=8000)
def two_at_once(c):
    """What is put into one container is not in another of its kind, whether they began empty or with the same elements"""
    rng = c.rng
    values = [rng.randrange(20) for _ in range(rng.randrange(1, 9))]
    shared = [rng.randrange(20) for _ in range(rng.randrange(1, 4))]

    def seen(p):
        got = list(p)
        for v in reversed(got):
            p.push(v)
        return got

    def fill(m):
        for i, v in enumerate(values):
            m[v % 3, i] = v

    def rank(r):
        for v in values:
            r.add(50 + v)

    elements = [Boom(v) for v in rng.sample(range(50), 6)]

    def keyed(sign):
        return Ranking(list(elements), lambda e: sign * e.args[0])
    one, other = keyed(1), keyed(-1)
    places = [one.calculate_ranking_for(e) for e in elements]
    c.eq(places, [5 - other.calculate_ranking_for(e) for e in elements], 'of-its-own')
    other.remove(elements[0])
    c.eq([one.calculate_ranking_for(e) for e in elements], places, 'of-its-own')

    def use_lru(d):
        for v in values:
            d.add(v)

    def look_lru(d):
        got = []
        while True:
            try:
                got.append(d.get_item_to_evict())
            except KeyError:
                break
        for v in got:
            d.add(v)
        return got
    c.rec(values, shared)
    two_of_a_kind(c, [
        ('sorted', lambda: SortedList(list(shared)), lambda x: x.extend(values), lambda x: (list(x), len(x))),
        ('sorted-empty', SortedList, lambda x: x.extend(values), lambda x: (list(x), len(x))),
        ('deque', lambda: SliceableDeque(list(shared)), lambda x: x.extend(values), lambda x: (list(x), list(x[0:5]), len(x))),
        ('matrix', SparseMatrix, fill, lambda m: (m.rows, m.columns, [list(r) for r in m], m.no_elements() if hasattr(m, 'no_elements') else 0)),
        ('matrix-of-some', lambda: SparseMatrix([[1, None], [None, 2]]), fill, lambda m: (m.rows, m.columns, [list(r) for r in m])),
        ('push-iterable', lambda: PushIterable(()), lambda p: [p.push(v) for v in values] and [p.push_left(v) for v in values] and None, seen),
        ('ranking', lambda: Ranking([-v for v in range(3)], lambda v: v), rank, lambda r: list(r.get_sorted())),
        ('lru', LRU, use_lru, look_lru),
    ])
