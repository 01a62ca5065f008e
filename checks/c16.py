"""C16: iterator and sequence helpers yield exactly the elements they should, lazily, for iterables of every kind and length"""
import collections
import itertools
import operator
import warnings
from fractions import Fraction

from vlib.harness import Check
from checks.common import Boom, BoomBase, MyInt, MyList, MyTuple, two_of_a_kind

import satella.coding.sequences as S
from satella.coding import chain, exhaust, SelfClosingGenerator, hint_with_length, run_when_generator_completes

warnings.simplefilter('ignore')

CHECK = Check('C16', 'A case is one helper applied to a random iterable (list, tuple, generator, custom iterator; empty, short '
                     'and long) with random parameters, compared with slicing and loops written down; distinct by inputs and '
                     'results; non-trivial if at least two oracle evaluations took place')


class Seq:
    """reiterable, neither sequence nor iterator"""

    def __init__(self, data):
        self.data = data

    def __iter__(self):
        return iter(list(self.data))


class Watched:
    """an iterator that counts how many elements were taken out of it"""

    def __init__(self, data):
        self.it = iter(list(data))
        self.taken = 0

    def __iter__(self):
        return self

    def __next__(self):
        v = next(self.it)
        self.taken += 1
        return v


def any_iterable(rng, data, one_shot=True):
    k = rng.randrange(5 if one_shot else 3)
    return [lambda: list(data), lambda: tuple(data), lambda: Seq(data), lambda: (x for x in data),
            lambda: Watched(data)][k]()


def outcome(fn, exc=Exception):
    try:
        return fn()
    except exc as e:
        return type(e)


def data_of(rng, lo=0):
    n = rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 13])
    return [rng.randrange(5) for _ in range(max(n, lo))]


Row = collections.namedtuple('Row', 'x i')


@CHECK.scenario(quick=8000, thorough=250000)
def helpers(c):
    rng = c.rng
    d = data_of(rng)
    n = rng.randrange(0, 7)
    k = rng.randrange(0, 7)
    it = any_iterable(rng, d)
    what = rng.randrange(26)
    c.rec(what, d, n, k)
    e = [any_iterable(rng, d) for _ in range(2)]
    if what == 0:
        c.eq(list(S.is_last(it)), [(i == len(d) - 1, v) for i, v in enumerate(d)], 'is-last')
    elif what == 1:
        c.eq(list(S.add_next(it)), list(zip(d, d[1:] + [None])), 'add-next')
        c.eq(list(S.add_next(e[0], wrap_over=True)), list(zip(d, d[1:] + d[:1])), 'add-next')
        c.eq(list(S.add_next(e[1], skip_last=True)), list(zip(d, d[1:])), 'add-next')
    elif what == 2:
        it = any_iterable(rng, d, False)
        c.eq(list(S.half_cartesian(it)), [(d[i], d[j]) for i in range(len(d)) for j in range(i, len(d))], 'half-cartesian')
        c.eq(list(S.half_cartesian(it, include_same_pairs=False)),
             [(d[i], d[j]) for i in range(len(d)) for j in range(i + 1, len(d))], 'half-cartesian')
    elif what == 3:
        n += 1
        c.eq([list(x) for x in S.group_quantity(n, it)], [d[i:i + n] for i in range(0, len(d), n)], 'group-quantity')
        c.eq([list(x) for x in S.group_quantity(n, range(k))],
             [list(range(k))[i:i + n] for i in range(0, k, n)], 'group-quantity')
        s = 'abcdefgh'[:k]
        c.eq([''.join(x) for x in S.group_quantity(n, s)], [s[i:i + n] for i in range(0, k, n)], 'group-quantity')
    elif what == 4:
        d = [rng.choice([None, 0, 1, '', 'x', [], False]) for _ in d]
        c.eq(S.filter_out_nones(any_iterable(rng, d)), [x for x in d if x is not None], 'filter-out-nones')
        c.eq(S.filter_out_false(any_iterable(rng, d)), [x for x in d if x], 'filter-out-false')
    elif what == 5:
        if d:
            c.eq(S.index_of_max(d), d.index(max(d)), 'index-of-max')
            c.eq(S.index_of_max(tuple(d)), d.index(max(d)), 'index-of-max')
        else:
            c.raises(ValueError, lambda: S.index_of_max(d), 'index-of-max')
        if k in d:
            c.eq(S.index_of(lambda v: v == k, it), d.index(k), 'index-of')
        else:
            c.raises(ValueError, lambda: S.index_of(lambda v: v == k, it), 'index-of')
    elif what == 6:
        m = [x for x in d if x == k]
        want = k if m else ValueError
        c.eq(outcome(lambda: S.choose(lambda v: v == k, it)), want, 'choose')
        c.eq(outcome(lambda: S.choose_one(lambda v: v == k, e[0])), k if len(m) == 1 else ValueError, 'choose-one')
        c.eq(outcome(lambda: S.choose(lambda v: v == k, any_iterable(rng, d), check_multiple=True)),
             k if len(m) == 1 else ValueError, 'choose-one')
        c.eq(outcome(lambda: S.choose_with_index(lambda v: v == k, e[1])), (k, d.index(k)) if m else ValueError,
             'choose-with-index')
        falsy = [0, None, 7]
        c.eq(S.choose_one(lambda v: not v and v is not None, falsy), 0, 'choose-one')
        c.raises(ValueError, lambda: S.choose_one(lambda v: not v, falsy), 'choose-one')
    elif what == 7:
        c.eq(S.length(it), len(d), 'length')
        c.eq(S.is_empty(e[0]), not d, 'is-empty')
        w = Watched(d)
        c.eq(S.is_empty(w, exhaust=False), not d, 'is-empty')
        c.expect(w.taken <= 1, 'is-empty-lazy', taken=w.taken)
    elif what == 8:
        c.eq(list(S.even(it)), d[::2], 'even')
        c.eq(list(S.odd(e[0])), d[1::2], 'odd')
    elif what == 9:
        st, step = rng.randrange(-3, 5), rng.choice([1, 2, -1, 5, 0])
        c.eq(list(S.count(it, start=st, step=step)), [st + i * step for i in range(len(d))], 'count')
        c.eq(list(S.enumerate2(e[0], st, step)), [(st + i * step, v) for i, v in enumerate(d)], 'enumerate')
        pairs = [(x, x + 1) for x in d]
        src = [list(p) if rng.random() < 0.3 else p for p in pairs]
        c.eq(list(S.smart_enumerate(any_iterable(rng, src), st, step)),
             [(st + i * step,) + p for i, p in enumerate(pairs)], 'smart-enumerate')
        c.eq(list(itertools.islice(S.infinite_counter(st, step), 4)), [st + i * step for i in range(4)], 'infinite-counter')
    elif what == 10:
        dd = {i: [rng.randrange(3) for _ in range(rng.randrange(3))] for i in range(k)}
        c.eq(list(S.iter_dict_of_list(dd)), [(i, v) for i in dd for v in dd[i]], 'iter-dict-of-list')
    elif what == 11:
        o = data_of(rng)
        w = Watched(o)
        c.eq(list(S.other_sequence_no_longer_than(it, w)), o[:len(d)], 'no-longer-than')
        c.expect(w.taken <= len(d), 'no-longer-than-lazy')
    elif what == 12:
        f = rng.randrange(-len(d), len(d) + 1)
        c.eq(list(S.shift(it, f)), d[f:] + d[:f], 'shift', f=f)
        f = rng.choice([len(d) + 1 + n, -len(d) - 1 - n])
        c.eq(sorted(S.shift(e[0], f)), sorted(d), 'shift-too-far', f=f)
    elif what == 13:
        o = data_of(rng, 1)
        f, g = rng.randrange(-len(d), len(d) + 1), rng.randrange(-len(o), len(o) + 1)
        c.eq(list(S.zip_shifted((it, f), (any_iterable(rng, o), g))), list(zip(d[f:] + d[:f], o[g:] + o[:g])), 'zip-shifted')
        c.eq(list(S.zip_shifted(list(d), (o, g))), list(zip(d, o[g:] + o[:g])), 'zip-shifted')
    elif what == 14:
        c.eq(list(S.skip_first(it, n)), d[n:], 'skip-first')
        w = Watched(d)
        c.eq(list(S.stop_after(w, n)), d[:n], 'stop-after')
        c.expect(w.taken <= n, 'stop-after-lazy', taken=w.taken)
    elif what == 15:
        c.eq(outcome(lambda: S.n_th(it, n)), d[n] if n < len(d) else IndexError, 'n-th')
        c.eq(outcome(lambda: S.n_th(e[0])), d[0] if d else IndexError, 'n-th')
    elif what == 16:
        w = Watched(d)
        c.eq(S.take_n(w, n), d[:n], 'take-n')
        c.eq(w.taken, min(n, len(d)), 'take-n-lazy')
        c.eq(list(w), d[n:], 'take-n-lazy')
        c.eq(S.take_n(it, n, skip=k), d[k:k + n], 'take-n', k=k)
        c.eq(S.take_n(e[1], n, k), d[k:k + n], 'take-n', k=k)
    elif what == 17:
        want = list(dict.fromkeys(d))
        c.eq(list(S.unique(it)), want, 'unique')
        seen = S.AlreadySeen()
        mixed = [rng.choice([x, [x], (x,), {'a': x}]) for x in d + d]
        for i, x in enumerate(mixed):
            c.eq(seen.is_unique(x), x not in mixed[:i], 'already-seen', x=x)
    elif what == 18:
        c.eq(S.map_list(lambda x: x * 2, it), [x * 2 for x in d], 'map-list')
        fn = S.to_iterator(lambda x: x + 1)
        w = Watched(d)
        g = fn(w)
        c.eq(list(itertools.islice(g, n)), [x + 1 for x in d][:n], 'to-iterator')
        c.expect(w.taken <= n, 'to-iterator-lazy')
        c.eq(list(g), [x + 1 for x in d][n:], 'to-iterator')
    elif what == 19:
        o = [rng.choice([(x, x), x]) for x in data_of(rng)]
        want = []
        for a, b in zip(d, o):
            want.append((a,) + (b if isinstance(b, tuple) else (b,)))
        c.eq(list(S.smart_zip(it, any_iterable(rng, o))), want, 'smart-zip')
        tup = [(x,) if rng.random() < 0.5 else [x] for x in d]
        c.eq(list(S.append_sequence(any_iterable(rng, tup), 7, 'q')), [(x, 7, 'q') for x in d], 'append-sequence')
        rows = [rng.choice([MyTuple, Row._make, tuple, list, MyList])([x, i]) for i, x in enumerate(d)]
        c.eq(list(S.append_sequence(any_iterable(rng, rows), 7)), [(x, i, 7) for i, x in enumerate(d)], 'append-sequence')
        c.eq(list(S.smart_enumerate(any_iterable(rng, rows))), [(i, x, i) for i, x in enumerate(d)], 'smart-enumerate')
        rows = [r for r in rows if isinstance(r, tuple)]
        c.eq(list(S.smart_zip(any_iterable(rng, rows), any_iterable(rng, range(len(rows))))), [tuple(r) + (i,) for i, r in enumerate(rows)], 'smart-zip')
        for r, x in zip(rows, S.smart_zip(rows)):
            c.expect(type(x) is tuple and x == tuple(r), 'smart-zip')

    elif what == 20:
        start, stop = rng.randrange(-8, 9) / 2, rng.randrange(-8, 9) / 2
        step = rng.choice([0.5, 1, 2, -0.5, -1, 0.25])
        want = []
        v = start
        while v < stop if step > 0 else v > stop:
            want.append(v)
            v += step
        c.eq(list(S.f_range(start, stop, step)), want, 'f-range')
        c.eq(list(S.f_range(n)), list(range(n)), 'f-range')
        c.eq(list(S.f_range(k, n)), list(range(k, n)), 'f-range')
        c.raises(TypeError, lambda: S.f_range(), 'f-range')
    elif what == 21:
        exc = rng.choice([IndexError, ValueError, KeyError])
        calls = []

        def nth(i):
            calls.append(i)
            if i >= n:
                raise exc(i)
            return i * 3
        st = rng.randrange(0, 3)
        if exc is KeyError and rng.random() < 0.5:
            g = S.iterate_callable(nth, st)
            got = []
            c.raises(KeyError, lambda: got.extend(g), 'iterate-callable')
        else:
            kw = {} if exc is not KeyError else {'exc_classes': (KeyError,)}
            c.eq(list(S.iterate_callable(nth, st, **kw)), [i * 3 for i in range(st, n)], 'iterate-callable')
        c.eq(calls, list(range(st, max(n, st) + 1)), 'iterate-callable')
    elif what == 22:
        x = rng.choice([[1], {'a': [1]}, 5])
        deep = rng.random() < 0.5
        got = S.make_list(x, n, deep_copy=deep)
        c.eq(got, [x] * n, 'make-list')
        if not isinstance(x, int):
            c.expect(all(g is not x for g in got) and len(set(map(id, got))) == n, 'make-list-copies')
            if isinstance(x, dict) and n:
                c.eq(got[0]['a'] is x['a'], not deep, 'make-list-deep')
        m = []
        g = S.infinite_iterator(return_factory=lambda: m.append(1) or len(m))
        c.eq(list(itertools.islice(g, 4)), [1, 2, 3, 4], 'infinite-iterator')
        c.expect(all(y is x for y in itertools.islice(S.infinite_iterator(x), 3)), 'infinite-iterator')
        c.eq(list(itertools.islice(S.infinite_iterator(), 2)), [None, None], 'infinite-iterator')
        for falsy in (0, '', [], False):
            c.expect(next(S.infinite_iterator(falsy)) is falsy and next(S.infinite_iterator(return_factory=lambda: falsy)) is falsy,
                     'infinite-iterator', falsy=falsy)
    elif what == 23:
        avg = S.RollingArithmeticAverage(n + 1)
        vals = []
        c.raises(ZeroDivisionError, avg.avg, 'average-empty')
        for x in d + [3]:
            x = Fraction(x, 3)
            avg.insert(x)
            vals.append(x)
            last = vals[-(n + 1):]
            c.eq(avg.avg(), sum(last) / len(last), 'average')
            if rng.random() < 0.1:
                avg.clear()
                vals = []
    elif what == 24:
        objs = [Seq([x]) for x in d]

        def push(self, v, w=0):
            self.data.append((v, w))
        Seq.push = push
        quiet = rng.random() < 0.5
        mr = S.Multirun(objs, dont_return_list=True) if quiet else S.Multirun(objs)
        c.eq(bool(mr), bool(objs), 'multirun')
        res = mr.push(1, w=2)
        if not quiet:
            c.expect(len(res) == len(objs) and all(a is b for a, b in zip(res, objs)), 'multirun')
        else:
            c.expect(res is None, 'multirun')
        c.eq([o.data for o in objs], [[x, (1, 2)] for x in d], 'multirun')
        lists = [[x] for x in d]
        mr = S.Multirun(lists)
        mr += [9]
        c.eq(lists, [[x, 9] for x in d], 'multirun')
        mr *= 2
        c.eq(lists, [[x, 9] * 2 for x in d], 'multirun')
        c.expect(isinstance(mr, S.Multirun), 'multirun')
    else:
        args, want = [], []
        for _ in range(rng.randrange(4)):
            x = rng.choice([1, None, 'ab', [1, 2], (), {5: 6}, 3.5])
            args.append(iter(x) if isinstance(x, list) and rng.random() < 0.5 else x)
            want += list(x) if hasattr(x, '__iter__') else [x]
        c.eq(list(chain(*args)), want, 'chain')

        def bad():
            yield 1
            raise TypeError('inside')
        got = []
        c.raises(TypeError, lambda: got.extend(chain([0], bad(), 5)), 'chain-exceptions')
        w = Watched(d)
        exhaust(w)
        c.eq(w.taken, len(d), 'exhaust')
    c.events += 1


@CHECK.scenario(quick=3000, thorough=80000)
def wrapped(c):
    """ListWrapperIterator: a list made of an iterator, that takes no more out of it than it needs"""
    rng = c.rng
    d = data_of(rng)
    w = Watched(d)
    lw = S.ListWrapperIterator(w)
    need = 0
    iterated = 0
    its = []
    c.rec(d)
    lazy = True
    for _ in range(rng.randrange(1, 8)):
        op = rng.randrange(8)
        before = w.taken
        c.rec(op)
        if op == 6:
            # every iteration starts anew, and they may be interleaved
            its.append([iter(lw), 0])
        elif op == 7 and its:
            it = rng.choice(its)
            for _ in range(rng.randrange(1, 4)):
                v = outcome(lambda: next(it[0]), StopIteration)
                c.eq(v, d[it[1]] if it[1] < len(d) else StopIteration, 'iterates')
                it[1] = min(it[1] + 1, len(d))
                c.expect(w.taken <= max(before, it[1]), 'takes-only-what-it-needs')
            hint = operator.length_hint(it[0])
            c.expect(max(w.taken - it[1], 0) <= hint <= len(d) - it[1], 'length-hint', hint=hint, taken=w.taken, at=it[1], n=len(d))
        elif op == 0:
            i = rng.randrange(-8, 10)
            if -len(d) <= i < len(d):
                c.eq(lw[i], d[i], 'index', i=i)
            else:
                c.raises(IndexError, lambda: lw[i], 'index', i=i)
            if i >= 0:
                c.expect(w.taken <= max(before, i + 1), 'takes-only-what-it-needs', i=i)
        elif op == 1:
            a, b = rng.randrange(0, 8), rng.randrange(0, 8)
            c.eq(lw[a:b], d[a:b], 'slice')
            c.expect(w.taken <= max(before, b), 'takes-only-what-it-needs', b=b)
        elif op == 2:
            s = slice(rng.choice([None, rng.randrange(-5, 6)]), rng.choice([None, rng.randrange(-5, 6)]),
                      rng.choice([None, 1, 2, -1]))
            c.eq(lw[s], d[s], 'slice', s=s)
        elif op == 3:
            v = rng.randrange(7)
            needle = rng.choice([v, float(v), Fraction(v)])      # equal, not identical
            c.eq(needle in lw, v in d, 'contains', v=v)
            if v in d:
                c.expect(w.taken <= max(before, d.index(v) + 1), 'takes-only-what-it-needs', v=v)
            lazy = False
        elif op == 4 and lazy:
            v = outcome(lambda: next(lw), StopIteration)
            c.eq(v, d[iterated] if iterated < len(d) else StopIteration, 'next')
            iterated = min(iterated + 1, len(d))
            c.expect(w.taken <= max(before, iterated), 'takes-only-what-it-needs')
        elif op == 5 and rng.random() < 0.3:
            c.eq(len(lw), len(d), 'len')
    for it, pos in its:
        c.eq(list(it), d[pos:], 'iterates')
    for _ in range(rng.randrange(3)):
        c.eq(list(lw), d, 'iterates')
    c.eq(lw.count(3), d.count(3), 'list-methods')
    c.eq(list(reversed(lw)), d[::-1], 'list-methods')
    c.eq(outcome(lambda: lw.index(2), ValueError), d.index(2) if 2 in d else ValueError, 'list-methods')
    if lazy:
        c.eq(outcome(lambda: next(lw), StopIteration), d[iterated] if iterated < len(d) else StopIteration, 'next')
    c.eq(lw[:], d, 'whole')
    c.eq(len(lw), len(d), 'len')
    a = S.IteratorListAdapter(any_iterable(rng, d))
    k = rng.randrange(3)
    got = list(itertools.islice(a, k))
    c.eq(got, d[:k], 'adapter')
    rest = d[k:]
    op = rng.randrange(4)
    if op == 0:
        c.eq(list(a), rest, 'adapter')
    elif op == 1:
        c.eq(len(a), len(rest), 'adapter')
        c.eq(list(a), rest, 'adapter')
        c.eq(list(a), rest, 'adapter')
    elif op == 2:
        c.eq(3 in a, 3 in rest, 'adapter')
    elif rest:
        c.eq((a[0], a[-1]), (rest[0], rest[-1]), 'adapter')


@CHECK.scenario(quick=3000, thorough=80000)
def trees(c):
    rng = c.rng

    def tree(depth=0):
        if depth == 3 or rng.random() < 0.3:
            return rng.randrange(100)
        return [tree(depth + 1) for _ in range(rng.randrange(0, 4))]
    t = [tree(1) for _ in range(rng.randrange(0, 4))]
    c.rec(t)

    def kids(x):
        return x if isinstance(x, list) else rng.choice([None, []])

    def pre(x):
        for y in x:
            yield y
            if isinstance(y, list):
                yield from pre(y)

    def bfs(x):
        level = list(x)
        while level:
            y = level.pop(0)
            yield y
            if isinstance(y, list):
                level += y
    leaf = lambda y: not (isinstance(y, list) and y)
    c.eq(list(S.walk(t, kids)), list(pre(t)), 'walk-depth-first')
    c.eq(list(S.walk(t, lambda o: kids(o) if o is t else iter(kids(o) or ()))), list(kids(t)), 'walk-unsized', 'children of unknown number are no children')
    is_it = S.is_instance(rng.choice([list, (list, int)]))
    c.eq([is_it(v) for v in ([], 'x', {}, None)], [True, False, False, False], 'is-instance')
    c.eq(list(S.walk(t, kids, deep_first=False)), list(bfs(t)), 'walk-breadth-first')
    c.eq(list(S.walk(t, kids, leaves_only=True)), [y for y in pre(t) if leaf(y)], 'walk-leaves')
    c.eq(list(S.walk(t, kids, deep_first=False, leaves_only=True)), [y for y in bfs(t) if leaf(y)], 'walk-leaves')
    # construable iterator
    init = data_of(rng)
    ci = S.ConstruableIterator(init)
    m = list(init)
    for _ in range(rng.randrange(2, 14)):
        op = rng.randrange(6)
        v = rng.randrange(100)
        vs = [rng.randrange(100) for _ in range(rng.randrange(4))]
        if op == 0:
            ci.add(v), m.append(v)
        elif op == 1:
            ci.add_immediate(v), m.insert(0, v)
        elif op == 2:
            ci.add_many(iter(vs)), m.extend(vs)
        elif op == 3:
            ci.add_many_immediate(iter(vs))
            m[:0] = vs
        elif m:
            c.eq(next(ci), m.pop(0), 'construable')
        else:
            c.raises(StopIteration, lambda: next(ci), 'construable')
        c.eq(operator.length_hint(ci), len(m), 'construable-hint')
        c.rec(op)
    c.eq(list(ci), m, 'construable')


@CHECK.scenario(quick=3000, thorough=80000)
def generators(c):
    rng = c.rng
    n = rng.randrange(0, 5)
    c.rec(n)
    log = []

    def gen():
        for i in range(n):
            x = yield i
            log.append(x)
        log.append('finished')

    # actions upon completion
    ran = []
    args, kw = tuple(range(rng.randrange(3))), {'k': 1} if rng.random() < 0.5 else {}
    g = run_when_generator_completes(gen(), lambda *a, **k: ran.append((a, k)), *args, **kw)
    i = 0
    closed = False
    finished = False
    for _ in range(rng.randrange(1, 10)):
        op = rng.randrange(10)
        c.rec(op)
        if op == 0 and not finished:
            g.close()
            closed = True
        elif op == 1 and i and not closed and not finished:
            c.raises(Boom, lambda: g.throw(Boom()), 'throw')
            closed = True
        else:
            send = op >= 6 and i
            v = outcome(lambda: g.send('msg') if send else next(g), StopIteration)
            if closed or finished or i >= n:
                c.eq(v, StopIteration, 'generator')
                if not closed:
                    finished = True
            else:
                c.eq(v, i, 'generator')
                if i:
                    c.eq(log[-1], 'msg' if send else None, 'generator-send')
                i += 1
        c.eq(ran, [(args, kw)] if finished else [], 'action-runs-once-upon-completion')
    # an action is not run if the generator has failed, whatever with
    exc = rng.choice([Boom, KeyboardInterrupt, SystemExit, BoomBase])
    where = rng.randrange(3)

    def failing_gen():
        yield 0
        raise exc()
    ran2 = []
    g = run_when_generator_completes(failing_gen(), ran2.append, 'ran')
    c.eq(next(g), 0, 'generator')
    try:
        next(g) if where == 0 else g.send('x') if where == 1 else g.throw(exc())
        c.fail('throw', 'the failure is lost', exc=repr(exc))
    except exc:
        pass
    c.eq(outcome(lambda: next(g), StopIteration), StopIteration, 'generator')
    c.eq(ran2, [], 'action-runs-once-upon-completion', exc=repr(exc), where=where)
    # self-closing generators
    log2 = []

    def gen2(k):
        for i in range(k):
            x = yield i
            log2.append(x)
        log2.append('finished')
    take = rng.randrange(0, n + 2)
    how = rng.randrange(4)
    g2 = SelfClosingGenerator(gen2(n)) if rng.random() < 0.5 else SelfClosingGenerator(gen2)(n)
    got = []
    if how == 0:
        with g2 as z:
            for _ in range(take):
                got.append(outcome(lambda: next(z), StopIteration))
    else:
        for j in range(take):
            if j and how == 3:
                got.append(outcome(lambda: g2.send('q'), StopIteration))
            else:
                got.append(outcome(lambda: next(g2), StopIteration))
        if how == 1:
            g2.close()
        else:
            del g2
    c.eq(got, (list(range(n)) + [StopIteration] * 2)[:take], 'self-closing-values')
    c.eq(log2[-1:], ['finished'], 'self-closing-completes')
    c.eq(len(log2), n + 1, 'self-closing-completes')
    # hints
    k = rng.choice([0, 0, rng.randrange(50)])
    mode = rng.randrange(2)
    h = hint_with_length(gen2(n), k) if mode == 0 else hint_with_length(gen2(n), None, lambda: k)
    c.eq(operator.length_hint(h), k, 'hint')
    c.eq(list(h), list(range(n)), 'hint')
    f = hint_with_length(gen2, k) if mode == 0 else hint_with_length(gen2, None, length_factory=lambda: k)
    for _ in range(2):
        h = f(n)
        c.eq(operator.length_hint(h), k, 'hint')
        if n:
            c.eq(next(h), 0, 'hint')
        c.eq(list(h), list(range(1, n)), 'hint')
    def echo():
        got = yield 'first'
        while True:
            got = yield ('sent', got)
    h = hint_with_length(echo(), k)
    c.eq((next(h), h.send(n), h.send(None), next(h)), ('first', ('sent', n), ('sent', None), ('sent', None)), 'hint-send')
    h.close()
    c.eq(list(h), [], 'hint-closed')
    c.raises(ValueError, lambda: hint_with_length(gen2, None), 'hint')
    c.raises(ValueError, lambda: hint_with_length(gen2, 5, lambda: 5), 'hint')
    c.raises(ValueError, lambda: hint_with_length(gen2, 0, lambda: 5), 'hint')


class Broken:
    """an iterator that fails after some elements; going on after that is an error of whoever does so"""

    def __init__(self, data, exc):
        self.it = iter(list(data))
        self.exc = exc
        self.failed = 0

    def __iter__(self):
        return self

    def __next__(self):
        try:
            return next(self.it)
        except StopIteration:
            self.failed += 1
            raise self.exc


@CHECK.scenario(quick=3000, thorough=60000)
def broken_sources(c):
    """an exception of what is being iterated over (or of a given function) reaches the caller as it is, after just what came before it"""
    rng = c.rng
    d = data_of(rng)
    exc = rng.choice([Boom('x'), TypeError('x'), AttributeError('x'), KeyError('x'), RuntimeError('x'), ValueError('x'), IndexError('x')])
    n = rng.randrange(0, 4)
    src = Broken(d, exc)
    other = [rng.randrange(5) for _ in range(20)]
    name, fn, want = rng.choice([
        ('is_last', lambda: S.is_last(src), [(False, v) for v in d[:-1]]),
        ('add_next', lambda: S.add_next(src), list(zip(d, d[1:]))),
        ('group_quantity', lambda: (list(x) for x in S.group_quantity(n + 1, src)), [d[i:i + n + 1] for i in range(0, len(d) - n, n + 1)]),
        ('even', lambda: S.even(src), d[::2]),
        ('odd', lambda: S.odd(src), d[1::2]),
        ('count', lambda: S.count(src), list(range(len(d)))),
        ('enumerate2', lambda: S.enumerate2(src), list(enumerate(d))),
        ('unique', lambda: S.unique(src), list(dict.fromkeys(d))),
        ('skip_first', lambda: S.skip_first(src, n), d[n:]),
        ('stop_after', lambda: S.stop_after(src, 20), d),
        ('no_longer', lambda: S.other_sequence_no_longer_than(src, other), other[:len(d)]),
        ('no_longer2', lambda: S.other_sequence_no_longer_than(other, src), d),
        ('smart_zip', lambda: S.smart_zip(src, other), list(zip(d, other))),
        ('smart_enumerate', lambda: S.smart_enumerate(([x] for x in src)), list(enumerate(d))),
        ('append_sequence', lambda: S.append_sequence(((x,) for x in src), 1), [(x, 1) for x in d]),
        ('to_iterator', lambda: S.to_iterator(lambda x: x)(src), d),
        ('chain', lambda: chain(other, src, 5), other + d),
        ('list_wrapper', lambda: S.ListWrapperIterator(src), d),
        ('shift', lambda: S.shift(src, min(n, len(d))), d[n:]),
        ('hint', lambda: hint_with_length((x for x in src), 5), d),
        ('self_closing', lambda: SelfClosingGenerator(x for x in src), d),
        ('completes', lambda: run_when_generator_completes((x for x in src), lambda: done.append(1)), d),
        ('take_n', lambda: S.take_n(src, 20), None),
        ('n_th', lambda: S.n_th(src, 20), None),
        ('length', lambda: S.length(src), None),
        ('is_empty', lambda: S.is_empty(src), None),
        ('map_list', lambda: S.map_list(str, src), None),
        ('exhaust', lambda: exhaust(src), None),
        ('filter_out_nones', lambda: S.filter_out_nones(src), None),
        ('filter_out_false', lambda: S.filter_out_false(src), None),
        ('index_of', lambda: S.index_of(lambda x: False, src), None),
        ('choose', lambda: S.choose(lambda x: False, src), None),
        ('choose_one', lambda: S.choose_one(lambda x: False, src), None),
        ('choose_with_index', lambda: S.choose_with_index(lambda x: False, src), None),
        ('adapter', lambda: len(S.IteratorListAdapter(src)), None),
    ])
    done = []
    c.rec(name, d, type(exc).__name__, n)
    got = []
    caught = None
    try:
        r = fn()
        if want is not None:
            for x in r:
                got.append(x)
    except Exception as e:
        caught = e
    c.expect(caught is exc, 'exception-of-the-source', helper=name, raised=repr(caught), wanted=repr(exc), out=got)
    if want is not None:
        # a group may be given when it is complete or when the next one begins
        c.expect(got == want or name == 'group_quantity' and got == want[:-1], 'elements-before-the-exception', helper=name, out=got,
                 wanted=want)
    c.expect(src.failed == 1, 'not-asked-after-it-failed', helper=name, times=src.failed)
    c.eq(done, [], 'action-runs-once-upon-completion')
    # functions given
    bad = rng.choice([lambda f: S.choose(f, [1, 2]), lambda f: S.choose_one(f, [1, 2]), lambda f: S.choose_with_index(f, [1]),
                      lambda f: S.index_of(f, [1]), lambda f: S.map_list(f, [1]), lambda f: list(S.to_iterator(f)([1])),
                      lambda f: list(S.walk([1], lambda o: o if isinstance(o, list) else f(o))),
                      lambda f: next(S.infinite_iterator(return_factory=lambda: f(1)))])

    def failing(x):
        raise exc
    caught = None
    try:
        bad(failing)
    except Exception as e:
        caught = e
    c.expect(caught is exc, 'exception-of-a-function', raised=repr(caught))
    if not isinstance(exc, AttributeError):
        class Closeable:
            def close(self):
                raise exc
        caught = None
        try:
            S.try_close(Closeable())
        except Exception as e:
            caught = e
        c.expect(caught is exc, 'exception-of-a-function', raised=repr(caught))
    S.try_close(iter([1]))
    g = (x for x in [1, 2])
    next(g)
    S.try_close(g)
    c.eq(list(g), [], 'try-close')
    caught = None
    try:
        list(S.iterate_callable(failing, exc_classes=(IndexError, ValueError)) if rng.random() < 0.5 else S.iterate_callable(failing))
    except Exception as e:
        caught = e
    c.expect((caught is None) is isinstance(exc, (IndexError, ValueError)), 'exception-of-a-function', raised=repr(caught))


@CHECK.scenario(quick=1500, thorough=40000)
def generator_failures(c):
    """generators that swallow, change or raise exceptions behave the same when they are wrapped, and count as completed only if they complete"""
    rng = c.rng
    n = rng.randrange(0, 4)
    plan = [rng.choice(['swallow', 'change', 'stop', 'let']) for _ in range(6)]
    end = rng.choice(['return', 'return', 'raise'])
    c.rec(n, plan, end)
    exc = rng.choice([TypeError('end'), Boom('end'), KeyError('end')])

    def gen(log):
        i = 0
        while i < n:
            try:
                x = yield i
                log.append(x)
            except GeneratorExit:
                log.append('exit')
                raise
            except Boom as e:
                log.append('caught')
                p = plan[i]
                if p == 'change':
                    raise ValueError('changed')
                elif p == 'stop':
                    return 'stopped'
                elif p == 'let':
                    raise
            i += 1
        log.append('end')
        if end == 'raise':
            raise exc
        return 'returned'

    def act(f):
        try:
            return 'ok', f()
        except StopIteration as e:
            return 'stop', e.value
        except BaseException as e:
            return 'raised', e
    l1, l2, done = [], [], []
    plain, wrapped = gen(l1), run_when_generator_completes(gen(l2), lambda: done.append(1))
    completed = over = False
    started = False
    for _ in range(rng.randrange(1, 8)):
        op = rng.randrange(5)
        c.rec(op)
        b = Boom('thrown')
        if op == 0 and started and rng.random() < 0.5:
            f = lambda g: g.close()     # noqa
        elif op == 1 and started:
            f = lambda g: g.throw(b)    # noqa
        elif op == 2 and started:
            f = lambda g: g.send('m')   # noqa
        elif op == 3:
            f = lambda g: g.next() if g is wrapped else next(g)     # noqa
        else:
            f = lambda g: next(g)       # noqa
        started = True
        want, have = act(lambda: f(plain)), act(lambda: f(wrapped))
        c.expect(want[0] == have[0] and (want[1] == have[1] if want[0] != 'raised' else type(want[1]) is type(have[1])),
                 'wrapped-generator-behaves', have=repr(have), wanted=repr(want))
        c.eq(l1, l2, 'wrapped-generator-behaves')
        if not over:
            if want[0] == 'stop':
                over = completed = True
            elif want[0] == 'raised' or op == 0 and want == ('ok', None):
                over = True
        c.eq(done, [1] if completed else [], 'action-runs-once-upon-completion')
    # closing a self-closing generator runs what has been left of it, and shows what it raises
    log = []
    g = SelfClosingGenerator(gen(log))
    k = rng.randrange(n + 1)
    for _ in range(k):
        next(g)
    how = rng.randrange(3)
    caught = None
    body = Boom('body')
    try:
        if how == 0:
            g.close()
        else:
            with g:
                if how == 2:
                    raise body
    except Exception as e:
        caught = e
    c.expect(caught is (exc if end == 'raise' else body if how == 2 else None), 'self-closing-exceptions', raised=repr(caught))
    c.eq(log, [None] * n + ['end'], 'self-closing-completes')
    g.close()
    c.eq(log, [None] * n + ['end'], 'self-closing-completes')
    # a wrapped function that is a source of generators is left alone
    made = []

    def source():
        made.append(1)
        yield 1
    s = SelfClosingGenerator(source)
    s.close()
    c.eq(made, [], 'self-closing-function')
    c.eq(list(s()), [1], 'self-closing-function')
    h = hint_with_length(gen([]), 3)
    if n:
        c.eq(next(h), 0, 'hint')
        h.close()
        c.eq(list(h), [], 'hint-close')
    # one call does for many objects, whatever the operation
    objs = [Seq([x]) for x in range(n)]
    ops = {'iadd': operator.iadd, 'isub': operator.isub, 'imul': operator.imul, 'itruediv': operator.itruediv,
           'ifloordiv': operator.ifloordiv, 'imod': operator.imod, 'ipow': operator.ipow, 'ilshift': operator.ilshift,
           'irshift': operator.irshift}
    name = rng.choice(sorted(ops))
    setattr(Seq, '__%s__' % name, lambda self, o: self.data.append((name, o)) or self)
    m = S.Multirun(objs)
    if hasattr(S.Multirun, '__%s__' % name):
        back = ops[name](m, 3)
        c.expect(back is m, 'multirun')
        c.eq([o.data for o in objs], [[x, (name, 3)] for x in range(n)], 'multirun', operation=name)


@CHECK.scenario(quick=150, thorough=4000)
def seldom_given(c):
    """Arguments in their older or longer forms: throw() of three, count(start_at=), bounded ConstruableIterator"""
    rng = c.rng
    d = list(range(rng.randrange(0, 5)))
    k, step = rng.randrange(0, 5), rng.choice([1, 2, -3])
    c.rec(d, k, step)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        c.eq(list(S.count(d, start_at=k, step=step)), [k + i * step for i in range(len(d))], 'count-start-at')
        seen, ran = [], []

        def gen():
            while True:
                try:
                    yield 1
                except Boom as e:
                    seen.append(e)
                    if e.args == ('stop',):
                        return
        for _ in range(2):
            del seen[:], ran[:]
            g = run_when_generator_completes(gen(), ran.append, 'ran')
            c.eq(next(g), 1, 'throw-three')
            try:
                raise Boom('other')
            except Boom as e:
                tb = e.__traceback__
            e1 = Boom('first')
            how = rng.randrange(3)
            out = g.throw(Boom, e1, tb) if how == 0 else g.throw(Boom, e1) if how == 1 else g.throw(e1)
            c.eq(out, 1, 'throw-three', 'what came of throw')
            c.expect(len(seen) == 1 and seen[0] is e1, 'throw-three', 'something else was thrown', seen=repr(seen))
            if how == 0:
                last = e1.__traceback__
                c.expect(last is not None, 'throw-three-traceback', 'traceback lost')
            c.eq(outcome(lambda: g.throw(Boom('stop')), StopIteration), StopIteration, 'throw-end')
            c.eq(ran, ['ran'], 'throw-completes')
    n = rng.randrange(0, 4)
    ci = S.ConstruableIterator(d, maxlen=n) if rng.random() < 0.5 else S.ConstruableIterator(d, n)
    m = d[-n:] if n else []
    c.eq(operator.length_hint(ci), len(m), 'construable-bounded')
    if n:
        ci.add(77)
        m = (m + [77])[-n:]
    c.eq(list(ci), m, 'construable-bounded')


@CHECK.scenario(quick=300, thorough=8000)
def two_at_once(c):
    """Iterators and filters of the same kind know nothing of each other"""
    from satella.coding.sequences import AlreadySeen, ConstruableIterator, ListWrapperIterator, RollingArithmeticAverage
    rng = c.rng
    values = [rng.randrange(20) for _ in range(rng.randrange(1, 9))]
    shared = [rng.randrange(20) for _ in range(rng.randrange(4))]

    def look(it):
        got = list(it)
        it.add_many(got)
        return got
    def averaging():
        a = RollingArithmeticAverage(5)
        a.insert(3)
        return a

    class Filter(AlreadySeen):
        def __init__(self):
            super().__init__()
            self.told = []

        def tell(self, wrap):
            self.told.append([self.is_unique(wrap(v)) for v in values])
    c.rec(values, shared)
    two_of_a_kind(c, [
        ('construable', lambda: ConstruableIterator(shared), lambda i: i.add_many(values), look),
        ('construable-empty', ConstruableIterator, lambda i: i.add_many_immediate(values), look),
        ('seen', Filter, lambda f: f.tell(lambda v: v), lambda f: list(f.told)),
        ('seen-unhashable', Filter, lambda f: f.tell(lambda v: [v]), lambda f: list(f.told)),
        ('wrapper', lambda: ListWrapperIterator(iter(shared + values)), lambda w: [w[0], values[0] in w], lambda w: list(w)),
        ('average', averaging, lambda a: [a.insert(v) for v in values] and None, lambda a: a.avg()),
    ])
