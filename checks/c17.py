"""C17: data transforms compute exactly what they are said to compute, for every input"""
import base64
import collections
import decimal
import enum
import itertools
import json
import math
import os
import random
import string
from fractions import Fraction

from vlib.harness import Check
from checks.common import Boom, MyInt, MyStr, disguise, fresh

import satella.coding.transforms as T
from satella.coding.algos import merge_dicts
from satella.json import JSONAble
import satella.random as R

CHECK = Check('C17', 'A case is one transform applied to random inputs (numbers, nested structures, series, lists of key-value '
                     'pairs) and compared with a direct computation, exact where the transform is; distinct by inputs; '
                     'non-trivial if at least two oracle evaluations took place')


class Unorderable:
    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Unorderable) and self.v == other.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'U%r' % (self.v,)


def as_iter(rng, d):
    k = rng.randrange(3)
    return [lambda: list(d), lambda: tuple(d), lambda: (x for x in d)][k]()


@CHECK.scenario(quick=3000, thorough=100000)
def series(c):
    """merge_series: a row for each moment at which every series has a value, with the latest value of each"""
    rng = c.rng
    n = rng.randrange(1, 5)
    far = rng.choice([0, 0, 5000])
    ser = []
    for i in range(n):
        k = rng.choice([0, 1, 1, 2, 3, 5, 9]) if rng.random() < 0.9 else 0
        at = sorted(rng.sample(range(rng.choice([6, 12, 30])), min(k, 6)))
        off = rng.choice([0, 0, 3, 10]) + far
        ser.append([(rng.choice([int, float, MyInt])(t + off), rng.choice([None, 'x', 1, Unorderable(t)])) for t in at])
    c.rec(ser)
    got = list(T.merge_series(*[as_iter(rng, s) for s in ser]))
    want = []
    if all(ser):
        start = max(s[0][0] for s in ser)
        for ts in sorted({t for s in ser for t, _ in s if t >= start}):
            want.append((ts,) + tuple([v for t, v in s if t <= ts][-1] for s in ser))
    c.eq(got, want, 'merge-series', series=ser)
    c.eq(len(got), len(want), 'merge-series')


@CHECK.scenario(quick=3000, thorough=100000)
def lists(c):
    """merge_list: keys ascending, each once; its value made of all the values of that key"""
    rng = c.rng
    n = rng.randrange(0, 5)
    ls = []
    serial = 0
    kinds, far = rng.choice([[int], [int, float, MyInt], [str], [lambda x: (x, 'some text')]]), rng.choice([0, 1000])
    for i in range(n):
        keys = sorted(rng.randrange(rng.choice([2, 6, 30])) for _ in range(rng.choice([0, 1, 2, 4, 9])))
        row = []
        for k in sorted(kinds[0](k + far) for k in keys) if len(kinds) == 1 else [rng.choice(kinds)(k + far) for k in keys]:
            row.append((k, [Unorderable(serial)]))
            serial += 1
        ls.append(row)
    big = rng.random() < 0.01 and kinds[0] is int
    if big:
        ls.append([(3, [Unorderable(10 ** 6 + i)]) for i in range(2500)])
    c.rec(ls if not big else 'big')
    calls = [0]

    def merge(a, b):
        calls[0] += 1
        return a + b
    taken = [0]

    def counting(x):
        for y in x:
            taken[0] += 1
            yield y
    # values are opaque for the merge, whatever they may be
    nasty = [[(0, v) for v in rng.choices([None, 0, '', (), False, 5], k=rng.randrange(1, 4))] for _ in range(rng.randrange(1, 4))]
    total = sum(map(len, nasty))
    got = list(T.merge_list(*nasty, merge_function=lambda a, b: (a, b)))
    c.eq(len(got), 1, 'merge-list-keys')

    def leaves(v, depth):
        return [v] if not depth else leaves(v[0], depth - 1) + [v[1]]
    c.eq(sorted(map(repr, leaves(got[0][1], total - 1))), sorted(repr(v) for row in nasty for _, v in row),
         'merge-list-values', 'a value that is false got lost', nasty=nasty, result=got)
    m = T.merge_list(*[counting(x) if rng.random() < 0.5 else x for x in ls], merge_function=merge)
    # another merge goes on in the meantime
    others = [[(k, 1) for k in sorted(rng.sample(range(12), rng.randrange(1, 6)))] for _ in range(rng.randrange(1, 4))] if rng.random() < 0.5 else []
    aside = T.merge_list(*others, merge_function=lambda a, b: a + b)
    seen_aside = []
    got = []
    lazy_ok = True
    for row in m:
        got.append(row)
        if others and rng.random() < 0.5:
            seen_aside += itertools.islice(aside, 1)
    seen_aside += aside
    c.eq(seen_aside, sorted(collections.Counter(k for x in others for k, _ in x).items()), 'merge-list-aside')
    every = collections.defaultdict(list)
    for row in ls:
        for k, v in row:
            every[k] += v
    c.eq([k for k, _ in got], sorted(every), 'merge-list-keys')
    for k, v in got:
        c.eq(sorted(u.v for u in v), sorted(u.v for u in every[k]), 'merge-list-values', k=k)
    c.eq(calls[0], sum(len(r) for r in ls) - len(every), 'merge-list-merges')
    c.raises(StopIteration, lambda: next(m), 'merge-list-end')


@CHECK.scenario(quick=6000, thorough=200000)
def numbers(c):
    rng = c.rng
    what = rng.randrange(6)
    fr = lambda: Fraction(rng.randrange(-40, 41), rng.choice([1, 2, 3, 7]))
    if what == 0:
        lo, hi = sorted((fr(), fr()))
        v = rng.choice([fr(), lo, hi])
        c.rec(lo, hi, v)
        c.eq(T.clip(v, lo, hi), min(max(v, lo), hi), 'clip')
        c.eq(T.clip(lo, lo, hi), lo, 'clip')
    elif what == 1:
        d = sorted(fr() for _ in range(rng.randrange(1, 9)))
        p = Fraction(rng.randrange(0, 13), 12)
        c.rec(d, p)
        pos = p * (len(d) - 1)
        i = math.floor(pos)
        want = d[i] if i == pos else d[i] + (pos - i) * (d[i + 1] - d[i])
        c.eq(T.percentile(d, p), want, 'percentile', d=d, p=p)
        c.eq(T.percentile(d, 0), d[0], 'percentile')
        c.eq(T.percentile(d, 1), d[-1], 'percentile')
        f = [float(x) for x in d]
        c.expect(abs(T.percentile(f, float(p)) - float(want)) < 1e-6, 'percentile')
    elif what == 2:
        ts = sorted({fr() for _ in range(rng.randrange(1, 8))})
        s = [(t, fr()) for t in ts]
        t = rng.choice([rng.choice(ts), fr(), ts[0] - 1, ts[-1] + 1])
        c.rec(s, t)
        if t < ts[0] or t > ts[-1]:
            c.raises(ValueError, lambda: T.linear_interpolate(s, t), 'interpolate-outside')
            c.eq(T.linear_interpolate(s, t, clip=True), s[0][1] if t < ts[0] else s[-1][1], 'interpolate-clip')
        else:
            if t in ts:
                want = dict(s)[t]
            else:
                i = max(i for i in range(len(ts)) if ts[i] <= t)
                want = s[i][1] + (t - ts[i]) / (ts[i + 1] - ts[i]) * (s[i + 1][1] - s[i][1])
            c.eq(T.linear_interpolate(s, t), want, 'interpolate', t=t)
            c.eq(T.linear_interpolate(tuple(s), t, clip=True), want, 'interpolate', t=t)
    elif what == 3:
        v = rng.choice([None, 5, 5.7, '12', 'abc', [], [1, 2], {}, (1,), True, '-3', b'7', b'xx', Fraction(7, 2), ''])
        c.rec(repr(v))
        try:
            want = 0 if v is None else int(v)
        except (TypeError, ValueError):
            want = len(v)
        c.eq(T.intify(v), want, 'intify', v=v)
        c.raises(ValueError, lambda: T.intify(rng.choice([object(), Boom(), float('inf'), float('nan'), lambda: 1])), 'intify')
    elif what == 4:
        d = [rng.randrange(9) for _ in range(rng.randrange(0, 9))]
        n = rng.randrange(1, 6)
        c.rec(d, n)
        orig = list(d)
        mode = rng.randrange(3)
        if mode == 0:
            got = T.pad_to_multiple_of_length(d, n, 'p')
        elif mode == 1:
            cnt = []
            got = T.pad_to_multiple_of_length(tuple(d), n, pad_with_factory=lambda: cnt.append(1) or 'p')
            c.eq(len(cnt), (-len(orig)) % n, 'pad')
        else:
            got = [x if x is not None else 'p' for x in T.pad_to_multiple_of_length(iter(d), n)]
        c.eq(got, orig + ['p'] * ((-len(orig)) % n), 'pad')
        c.eq(d, orig, 'pad-argument-changed')
        for value in (1, 0, '', False):
            c.raises(ValueError, lambda: T.pad_to_multiple_of_length([], 2, value, lambda: 2), 'pad')
            c.eq(T.pad_to_multiple_of_length([5], 3, value), [5, value, value], 'pad')
        c.eq(list(T.one_tuple(as_iter(rng, d))), [(x,) for x in d], 'one-tuple')
        b = bytes(rng.randrange(256) for _ in range(rng.randrange(20)))
        e = T.b64encode(b)
        c.expect(isinstance(e, str), 'b64encode')
        c.eq(base64.b64decode(e), b, 'b64encode')
    else:
        v = rng.choice([0, 1, '', 'a', None, [], [0], False, True, 0.0])
        c.rec(repr(v))
        got = T.none_if_false(v)
        c.expect(got is (v if v else None), 'none-if-false')
        d = [rng.choice('abcdef') for _ in range(rng.randrange(7))]
        h = T.hashables_to_int(d)
        c.eq(set(h), set(d), 'hashables-to-int')
        c.eq(sorted(h.values()), list(range(len(set(d)))), 'hashables-to-int')
        if len(set(d)) == len(d):
            c.eq(T.list_values_to_indices(d), {x: i for i, x in enumerate(d)}, 'list-values-to-indices')
        else:
            c.raises(ValueError, lambda: T.list_values_to_indices(d), 'list-values-to-indices')
        a = {rng.randrange(4): rng.randrange(2) for _ in range(rng.randrange(4))}
        b = {rng.randrange(4): rng.randrange(2) for _ in range(rng.randrange(5))}
        c.eq(T.is_subset(a, b), all(k in b and b[k] == v for k, v in a.items()), 'is-subset', a=a, b=b)
        c.eq(T.is_subset({1: None}, {}), False, 'is-subset')
        keys = [rng.randrange(4) for _ in range(rng.randrange(4))]
        c.eq(list(T.unpack_dict(a, *keys, raise_if_not_found=False, map_through=lambda x: -x)),
             [-a[k] if k in a else None for k in keys], 'unpack-dict')
        if all(k in a for k in keys):
            c.eq(list(T.unpack_dict(a, *keys)), [a[k] for k in keys], 'unpack-dict')
        else:
            c.raises(KeyError, lambda: list(T.unpack_dict(a, *keys)), 'unpack-dict')


class E(enum.Enum):
    A = 1
    B = 'two'
    C = (1, 2)
    D = decimal.Decimal('1.5')


class IE(enum.IntEnum):
    X = 7


class J(JSONAble):
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return {'j': self.v}


class S:
    def __init__(self, v):
        self.v = v

    def __str__(self):
        return 'S(%s)' % (self.v,)


class NoStr:
    def __str__(self):
        raise TypeError('no')

    def __repr__(self):
        return 'NoStr!'


def tree(rng, depth=0):
    """returns object, its jsonified form"""
    k = rng.randrange(16 if depth < 3 else 9)
    if k == 0:
        return None, None
    if k <= 2:
        v = rng.choice([1, 0, -5, 2.5, True, 'str', '', 'zażółć'])
        return v, v
    if k == 3:
        e = rng.choice([(E.A, 1), (E.B, 'two'), (E.C, [1, 2]), (E.D, '1.5'), (IE.X, 7)])
        return e
    if k == 4:
        return S(3), 'S(3)'
    if k == 5:
        return NoStr(), 'NoStr!'
    if k == 6:
        return b'ab', [97, 98]
    if k == 7:
        return decimal.Decimal('2.50'), '2.50'
    if k == 8:
        return {5}, [5]
    kids = [tree(rng, depth + 1) for _ in range(rng.randrange(4))]
    if k == 9:
        o, w = tree(rng, depth + 1)
        return J(o), {'j': w}
    if k in (10, 11):
        keys = [rng.choice(['a', 'b', 'c', 5, (E.A, 1), (S(1), 'S(1)')]) for _ in kids]
        keys = [q if isinstance(q, tuple) else (q, q) for q in keys]
        o, w = {}, {}
        for (ko, kw), (vo, vw) in zip(keys, kids):
            if kw not in w:
                o[ko] = vo
                w[kw] = vw
        return collections.OrderedDict(o) if k == 11 else o, w
    if k == 12:
        return tuple(x for x, _ in kids), [w for _, w in kids]
    if k == 13:
        return (x for x in [x for x, _ in kids]), [w for _, w in kids]
    return [x for x, _ in kids], [w for _, w in kids]


@CHECK.scenario(quick=3000, thorough=100000)
def structures(c):
    rng = c.rng
    o, w = tree(rng)
    o = disguise(rng, o, rng.choice([0, 0.5]), False)
    c.rec(repr(w))
    got = T.jsonify(o)
    c.eq(got, w, 'jsonify')
    c.eq(json.loads(json.dumps(got)), json.loads(json.dumps(w)), 'jsonify-serializable')

    # stringify
    def strs(depth=0):
        k = rng.randrange(9 if depth < 3 else 6)
        mk = '<%s>'
        if k == 0:
            return None, None, mk % None
        if k == 1:
            v = rng.choice(['a', 'bcd', ''])
            return v, v, v
        if k == 2:
            return E.B, 'B', 'B'
        if k <= 5:
            v = rng.choice([1, 2.5, False])
            return v, mk % v, mk % v
        kids = [strs(depth + 1) for _ in range(rng.randrange(4))]
        if k == 6:
            keys = [('k%d' % i) if rng.random() < 0.5 else i for i in range(len(kids))]
            sk = [q if isinstance(q, str) else mk % q for q in keys]
            return ({q: x for q, (x, _, _) in zip(keys, kids)}, {q: y for q, (_, y, _) in zip(sk, kids)},
                    {q: z for q, (_, _, z) in zip(sk, kids)})
        t = tuple if k == 7 else list
        return t(x for x, _, _ in kids), [y for _, y, _ in kids], [z for _, _, z in kids]
    o, w, wn = strs()
    o = disguise(rng, o, rng.choice([0, 0.5]), False)
    c.eq(T.stringify(o, lambda x: '<%s>' % x, recursively=True), w, 'stringify')
    c.eq(T.stringify(o, lambda x: '<%s>' % x, recursively=True, str_none=True), wn, 'stringify')
    flat = [rng.choice([1, 2.5, 7]) for _ in range(3)]
    c.eq(T.stringify(flat, str), [str(x) for x in flat], 'stringify')
    c.eq(T.stringify({x: x for x in flat}), {str(x): str(x) for x in flat}, 'stringify')

    # merge_dicts
    def gen(depth=0):
        k = rng.randrange(5)
        if k < 2 and depth < 3:
            return {rng.choice('abc'): gen(depth + 1) for _ in range(rng.randrange(4))}
        if k == 2:
            return [rng.randrange(9) for _ in range(rng.randrange(3))]
        return rng.choice([1, 'x', None])

    def oracle(a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            return {k: oracle(a[k], b[k]) if k in a and k in b else (b[k] if k in b else a[k])
                    for k in list(a) + [q for q in b if q not in a]}
        if isinstance(a, list) and isinstance(b, list):
            return a + b
        return b
    a, b = gen(), gen()
    a, b = disguise(rng, a, rng.choice([0, 0.5])), disguise(rng, b, rng.choice([0, 0.5]))
    jb = json.dumps(b)
    want = oracle(json.loads(json.dumps(a)), json.loads(jb))
    c.eq(merge_dicts(a, b), want, 'merge-dicts')
    c.eq(json.dumps(b), jb, 'merge-dicts-changes-the-second')


@CHECK.scenario(quick=800, thorough=20000)
def failing_sources(c):
    """an exception of a source that is being merged, or of a function used to transform, reaches the caller as it is"""
    rng = c.rng
    exc = rng.choice([Boom('x'), TypeError('x'), IndexError('x'), KeyError('x'), ValueError('x'), RuntimeError('x')])
    n = rng.randrange(1, 4)
    bad = rng.randrange(n)
    rows = [[(t, [t, i]) for t in sorted(rng.sample(range(12), rng.randrange(1, 6)))] for i in range(n)]

    def source(i):
        for x in rows[i]:
            yield x
        if i == bad:
            raise exc
    what = rng.choice(['merge_series', 'merge_list', 'merge_function', 'stringify', 'unpack_dict', 'intify', 'jsonify', 'one_tuple', 'split'])
    c.rec(what, rows, bad, type(exc).__name__)
    got = []
    caught = None

    def failing(*args):
        raise exc

    class Bad:
        def __int__(self):
            raise exc

        def __len__(self):
            raise exc
    if what == 'intify' and isinstance(exc, (TypeError, ValueError)):
        exc = Boom('y')
    try:
        if what == 'merge_series':
            for row in T.merge_series(*[source(i) for i in range(n)]):
                got.append(row)
        elif what == 'merge_list':
            for row in T.merge_list(*[source(i) for i in range(n)], merge_function=lambda a, b: a + b):
                got.append(row)
        elif what == 'merge_function':
            list(T.merge_list([(1, 2), (2, 3)], [(2, 5)], merge_function=failing))
        elif what == 'stringify':
            T.stringify(rng.choice([[1], {1: 2}, 5]), failing)
        elif what == 'unpack_dict':
            list(T.unpack_dict({1: 2}, 1, map_through=failing))
        elif what == 'intify':
            T.intify(Bad())
        elif what == 'jsonify':
            T.jsonify(source(bad))
        elif what == 'split':
            T.split_shuffle_and_join([1, 2], failing)
        else:
            got += T.one_tuple(source(bad))
    except Exception as e:
        caught = e
    c.expect(caught is exc, 'exception-of-a-source', transform=what, raised=repr(caught), wanted=repr(exc), out=got)
    if what == 'merge_series':
        start = max(r[0][0] for r in rows)
        want = []
        for ts in sorted({t for s in rows for t, _ in s if t >= start}):
            want.append((ts,) + tuple([v for t, v in s if t <= ts][-1] for s in rows))
        c.eq(got, want[:len(got)], 'rows-before-the-exception')


@CHECK.scenario(quick=1500, thorough=50000)
def shuffles(c):
    rng = c.rng
    random.seed(rng.randrange(2 ** 32))
    d = [(rng.randrange(6), i) for i in range(rng.randrange(9))]
    front = rng.random() < 0.5
    pred = lambda x: x[0] % 2 == 0
    orig = list(d)
    c.rec(d, front)
    got = T.split_shuffle_and_join(d, pred, front)
    keep = [x for x in d if not pred(x)]
    sh = got[len(keep):] if front else got[:len(got) - len(keep)]
    c.eq((got[:len(keep)] if front else got[len(got) - len(keep):]), keep, 'split-shuffle')
    c.eq(sorted(sh), sorted(x for x in d if pred(x)), 'split-shuffle')
    c.eq(sorted(T.split_shuffle_and_join(d)), sorted(d), 'split-shuffle')
    c.eq(d, orig, 'split-shuffle-changes-its-argument')
    n = rng.randrange(7)
    cols = [[(k, i) for i in range(n)] for k in range(rng.randrange(1, 4))]
    got = R.shuffle_together(*cols)
    c.eq(len(got), len(cols), 'shuffle-together')
    for k, col in enumerate(got):
        c.eq(sorted(col), cols[k], 'shuffle-together')
        c.eq([i for _, i in col], [i for _, i in got[0]], 'shuffle-together-order')
    c.eq(R.shuffle_together(), [], 'shuffle-together')
    w = R.random_word(n)
    c.expect(len(w) == n and all(x in string.ascii_lowercase for x in w), 'random-word', w=w)
    w = R.random_word(n, [1, 2], join_fun=lambda x: x)
    c.expect(isinstance(w, list) and len(w) == n and set(w) <= {1, 2}, 'random-word', w=w)
    b = R.random_binary(n * 7)
    c.expect(isinstance(b, bytes) and len(b) == n * 7, 'random-binary')
    # where there is no /dev/random
    real = os.path.exists
    os.path.exists = lambda p: p != '/dev/random' and real(p)
    try:
        b = R.random_binary(n * 7)
    finally:
        os.path.exists = real
    c.expect(isinstance(b, bytes) and len(b) == n * 7, 'random-binary')


@CHECK.scenario(quick=6, thorough=60)
def shuffles_mix(c):
    """what is shuffled gets into every order, not just into some of them"""
    rng = c.rng
    random.seed(rng.randrange(2 ** 32))
    orders = collections.Counter(tuple(T.split_shuffle_and_join([1, 2, 3])) for _ in range(600))
    c.eq(len(orders), 6, 'shuffle-orders', orders=dict(orders))
    orders = collections.Counter(tuple(R.shuffle_together([1, 2, 3])[0]) for _ in range(600))
    c.eq(len(orders), 6, 'shuffle-orders')
    c.eq(len(set(R.random_word(400, 'abc'))), 3, 'random-word')
    c.expect(len({R.random_binary(16) for _ in range(20)}) == 20, 'random-binary')
    c.rec(rng.randrange(10 ** 9))


@CHECK.scenario(quick=1500, thorough=40000)
def equal_but_not_the_same(c):
    """Keys, times and values are compared, whatever objects they are"""
    rng = c.rng
    pool = [1000, 10 ** 9, 2.75, 'some text', (1, 'two'), b'by tes', 3000.0]
    sup = {k: rng.choice(pool) for k in rng.sample(['a', 'key b', 1000, (1, 2)], rng.randrange(5))}
    subset = {fresh(k): fresh(v) if rng.random() < 0.8 else rng.choice(pool) for k, v in sup.items() if rng.random() < 0.6}
    if rng.random() < 0.1:
        subset['other'] = 1
    sup0, sub0 = dict(sup), dict(subset)
    c.rec(sup, subset)
    c.expect(T.is_subset(subset, sup) is all(k in sup and sup[k] == v for k, v in subset.items()), 'is-subset', subset=subset, superset=sup)
    c.expect(T.is_subset(disguise(rng, subset), disguise(rng, sup)) is T.is_subset(subset, sup), 'is-subset', subset=subset, superset=sup)
    c.expect((sup, subset) == (sup0, sub0), 'is-subset-changes')
    c.expect(T.is_subset({}, collections.defaultdict(list)) is True, 'is-subset')
    missing = collections.defaultdict(list)
    c.expect(T.is_subset({'k': []}, missing) is False and not missing, 'is-subset-missing', missing=missing)
    # a longer series than the small integers reach
    n = rng.randrange(257, 400)
    series = [(i * 1000, i * 7.0) for i in range(n)]
    f = T.linear_interpolate
    for i in (0, n - 1, rng.randrange(n), rng.randrange(n)):
        c.eq(f(series, fresh(i * 1000)), i * 7.0, 'interpolate', i=i)
        c.eq(f(series, float(i * 1000)), i * 7.0, 'interpolate', i=i)
        if i + 1 < n:
            c.expect(abs(f(series, i * 1000 + 250) - (i * 7.0 + 1.75)) < 1e-6, 'interpolate', i=i)
    values = sorted(rng.randrange(10 ** 6) for _ in range(n))
    for q in (0, 1, rng.random(), 0.5):
        k = (n - 1) * q
        lo, hi = math.floor(k), math.ceil(k)
        want = values[int(k)] if lo == hi else values[lo] * (hi - k) + values[hi] * (k - lo)
        c.expect(abs(T.percentile(values, q) - want) < 1e-6 * max(1, want), 'percentile', q=q, n=n)
    # merging does not look up what is not there
    first, second = collections.defaultdict(list, {'a': [1]}), {'a': [2], 'b': 5, 'c': None}
    got = merge_dicts(first, second)
    c.expect(got is first and dict(got) == {'a': [1, 2], 'b': 5, 'c': None}, 'merge-dicts', got=repr(got))
    for text in (MyStr('x'), MyStr('')):
        c.expect(T.stringify(text, lambda x: 'no') == text and T.stringify([text], lambda x: 'no', recursively=True) == [text], 'stringify')


if __name__ == '__main__':
    CHECK.main()
