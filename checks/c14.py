"""C14: proxies, optionals, predicates and mix-ins are indistinguishable from what they stand for"""
import collections
import copy
import enum
import math
import operator
import pickle
import warnings

from vlib.harness import Check
from checks.common import Boom, MyDict, MyInt, MyList, MyStr, MyTuple, fresh

from satella.coding.optionals import Optional, call_if_nnone, extract_optional, iterate_if_nnone
from satella.coding.predicates import x as X, build_structure, PredicateClass
from satella.coding.structures import Proxy, HashableWrapper, Immutable, NotEqualToAnything, NOT_EQUAL_TO_ANYTHING, \
    OmniHashableMixin, ReprableMixin, StrEqHashableMixin, ComparableIntEnum, HashableIntEnum, ComparableAndHashableBy, \
    ComparableAndHashableByInt, ComparableEnum, HashableMixin, ComparableAndHashableByStr, DictionaryEQAble, \
    OnStrOnlyName, typednamedtuple

CHECK = Check('C14', 'A case is a random object and a random series of operators and accesses, done to the object itself and '
                     'through the wrapper; distinct by operations and results; non-trivial if at least two oracle '
                     'evaluations took place')


class Mat:
    def __init__(self, v):
        self.v = v

    def __matmul__(self, o):
        return ('mm', self.v, getattr(o, 'v', o))

    def __rmatmul__(self, o):
        return ('rmm', self.v, getattr(o, 'v', o))

    def __eq__(self, o):
        return isinstance(o, Mat) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __enter__(self):
        return ('entered', self.v)

    def __exit__(self, *a):
        return a[0] is Boom

    def __call__(self, *args, **kw):
        return (self.v, args, kw)

    def __await__(self):
        yield self.v
        return 'awaited'

    def __length_hint__(self):
        return 7


def value(rng):
    return rng.choice([
        lambda: rng.randrange(-10, 20), lambda: rng.randrange(1, 9), lambda: round(rng.uniform(-9, 9), 2),
        lambda: rng.choice([2.5, 0.5, 1.49]), lambda: 'ab' * rng.randrange(3), lambda: [rng.randrange(3) for _ in range(3)],
        lambda: (1, 2), lambda: {1, rng.randrange(5)}, lambda: {'a': 1, 2: 'b'}, lambda: Mat(rng.randrange(3)),
        lambda: True, lambda: complex(1, 2), lambda: '%s!', lambda: b'xy'])()


BINARY = [operator.add, operator.sub, operator.mul, operator.truediv, operator.floordiv, operator.mod, operator.pow,
          operator.lshift, operator.rshift, operator.and_, operator.or_, operator.xor, operator.matmul]
COMPARE = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]
UNARY_WRAPPED = [operator.neg, operator.pos, operator.invert, abs, round, lambda v: round(v, 1), math.trunc, math.floor,
                 math.ceil]
UNARY = [int, float, complex, str, repr, bool, len, hash, list, lambda v: list(reversed(v)), lambda v: format(v, ''),
         lambda v: '%s' % (v,), operator.index, lambda v: [1, 2, 3][v], dir, lambda v: range(v), callable]
INPLACE = [operator.iadd, operator.isub, operator.imul, operator.itruediv, operator.ifloordiv, operator.imod, operator.ipow,
           operator.ilshift, operator.irshift, operator.iand, operator.ior, operator.ixor, operator.imatmul]


def outcome(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('raised', type(e))


def unwrap(v):
    if isinstance(v, Proxy):
        return getattr(v, '_Proxy__obj')
    return v


def clone(v):
    return type(v)(v) if isinstance(v, (list, set, dict)) else v


def big(op, a, b):
    return op in (operator.pow, operator.ipow, operator.lshift, operator.ilshift) and isinstance(b, (int, float)) and \
        not isinstance(b, bool) and abs(b) > 20


@CHECK.scenario(quick=6000, thorough=200000)
def proxy(c):
    rng = c.rng
    obj = value(rng)
    wrap = rng.random() < 0.4
    for _ in range(rng.randrange(2, 9)):
        p = Proxy(obj, wrap_operations=True) if wrap else Proxy(obj)
        kind = rng.randrange(7)
        other = value(rng)
        if kind == 0:
            op = rng.choice(BINARY)
            if big(op, obj, other):
                continue
            want = outcome(lambda: op(obj, other))
            got = outcome(lambda: op(p, other))
            key = 'binary'
        elif kind == 1:
            op = rng.choice(BINARY)
            if big(op, other, obj):
                continue
            if isinstance(other, (str, bytes)) and op is operator.mod:
                continue    # formatting of a proxy
            want = outcome(lambda: op(other, obj))
            got = outcome(lambda: op(other, p))
            if isinstance(other, list) and op is operator.mul or isinstance(other, (str, tuple, bytes)) and op is operator.mul:
                got = got if got[0] == 'raised' else (got[0], unwrap(got[1]))
                want = want if want[0] == 'raised' else want
            key = 'reflected'
        elif kind == 2:
            op = rng.choice(UNARY_WRAPPED)
            want = outcome(lambda: op(obj))
            got = outcome(lambda: op(p))
            key = 'unary'
        elif kind == 3:
            op = rng.choice(COMPARE)
            want = outcome(lambda: op(obj, other))
            got = outcome(lambda: op(p, other))
            if rng.random() < 0.3:
                same = rng.choice([obj, other])
                want = outcome(lambda: op(obj, same))
                got = outcome(lambda: op(p, same))
            key = 'comparison'
        elif kind == 4:
            op = rng.choice(UNARY)
            if op is callable:
                continue
            want = outcome(lambda: op(obj))
            got = outcome(lambda: op(p))
            key = 'conversion'
        elif kind == 5:
            op = rng.choice(INPLACE)
            if big(op, obj, other):
                continue
            a = clone(obj)
            p2 = Proxy(clone(obj), wrap)
            want = outcome(lambda: op(a, other))
            got = outcome(lambda: op(p2, other))
            if got[0] == 'ok':
                c.expect(got[1] is p2, 'in-place-keeps-the-proxy', op=op)
            c.rec(op.__name__, want[0])
            c.eq((got[0], unwrap(got[1])), want, 'in-place', op=op, obj=obj, other=other)
            continue
        else:
            op = rng.choice([lambda v: divmod(v, 3), lambda v: divmod(7, v), lambda v: v[0], lambda v: v['a'], lambda v: v['zz'],
                             lambda v: 1 in v, lambda v: 'a' in v, lambda v: v.real, lambda v: v.nonexistent,
                             lambda v: v(1, a=2), lambda v: v.upper(), lambda v: v[1:], lambda v: pow(v, 2, 5),
                             lambda v: v.__enter__(), lambda v: v.__exit__(Boom, 1, 2), lambda v: next(v.__await__()),
                             lambda v: next(iter(v)), lambda v: operator.length_hint(v), lambda v: sorted(v)])
            want = outcome(lambda: op(obj))
            got = outcome(lambda: op(p))
            key = 'access'
            c.rec(want[0])
        c.rec(getattr(op, '__name__', 'f'), type(obj).__name__, want[0])
        if want[0] == 'raised':
            c.eq(got[0], 'raised', key + '-raises', op=op, obj=obj, other=other, res=got)
            if got[1] is not want[1]:
                c.expect({got[1], want[1]} <= {TypeError, AttributeError}, key + '-raises', op=op, obj=obj, other=other,
                         res=got, ref=want)
            continue
        c.eq(got[0], 'ok', key, op=op, obj=obj, other=other, ref=want, res=got)
        if key in ('binary', 'unary') or key == 'reflected' and not isinstance(other, (str, list, tuple, bytes, Mat)):
            c.eq(isinstance(got[1], Proxy), wrap, key + '-wrapping', op=op, obj=obj)
        c.eq(unwrap(got[1]), want[1], key, op=op, obj=obj, other=other)
        c.expect(type(unwrap(got[1])) is type(want[1]), key + '-type', op=op, obj=obj, other=other, ref=want, res=got)
    # attributes and items go to the object
    m = Mat(5)
    p = Proxy(m)
    p.v = 6
    p.extra = 1
    c.expect(m.v == 6 and m.extra == 1 and p.extra == 1, 'attributes')
    del p.extra
    c.expect(not hasattr(m, 'extra') and not hasattr(p, 'extra'), 'attributes')
    lst = [1, 2, 3]
    p = Proxy(lst)
    p[0] = 5
    del p[1]
    c.eq(lst, [5, 3], 'items')
    g = (i for i in range(3))
    c.eq(next(Proxy(g)), 0, 'iterator')
    # copies of a proxy are proxies of the same sort
    src = rng.choice([[1, [2]], (1, 2), 5, 'ab', {'a': 1}])
    p = Proxy(src, wrap)
    for q, deep in ((copy.copy(p), False), (copy.deepcopy(p), True)):
        c.expect(type(q) is Proxy and q == src, 'copy', deep=deep)
        if not deep:
            c.expect(q._get_object() is src, 'copy')
        if src == 5 or src == (1, 2) or src == 'ab':
            r = q + src
            c.eq(isinstance(r, Proxy), wrap, 'copy', 'copy handles operations differently', deep=deep)
            c.eq(unwrap(r), src + src, 'copy')
    with Proxy(Mat(3)) as z:
        c.eq(z, ('entered', 3), 'context')
        raise Boom


@CHECK.scenario(quick=2000, thorough=60000)
def optional(c):
    rng = c.rng
    empty = rng.random() < 0.5
    obj = None if empty else value(rng)
    o = Optional(obj)
    c.rec(empty, obj)
    if empty:
        for _ in range(rng.randrange(1, 6)):
            k = rng.randrange(4)
            n = o.some_attribute if k == 0 else o(1, x=2) if k == 1 else o['key'] if k == 2 else o.a.b(5)['c'].result()
            c.expect(isinstance(n, Optional) and not n and extract_optional(n) is None, 'empty-stays-empty', k=k)
            o = n
        o['x'] = 5
        del o['x']
        other = value(rng)
        for op in [operator.eq, operator.lt, operator.le, operator.gt, operator.ge]:
            c.expect(op(o, other) is False, 'empty-compares-false', op=op, other=other)
        c.expect(bool(o) is False and len(o) == 0 and other not in o, 'empty')
        c.expect(extract_optional(o) is None, 'extract')
        c.eq(list(iterate_if_nnone(None)), [], 'iterate')
        return
    other = value(rng)
    for op in COMPARE[:1] + COMPARE[2:]:
        w, g = outcome(lambda: op(obj, other)), outcome(lambda: op(o, other))
        if w[0] == 'ok':
            c.eq(g, w, 'compares', op=op, other=other)
        w, g = outcome(lambda: op(obj, obj)), outcome(lambda: op(o, obj))
        if w[0] == 'ok':
            c.eq(g, w, 'compares', op=op)
    for fn in [bool, len, lambda v: 1 in v, lambda v: v[0], lambda v: v['a'], lambda v: v(3), lambda v: v.real,
               lambda v: v.nonexistent, lambda v: v.v, list]:
        w, g = outcome(lambda: fn(obj)), outcome(lambda: fn(o))
        c.eq(g, w, 'access')
        c.rec(w[0])
    c.expect(extract_optional(o) is obj and extract_optional(obj) is obj, 'extract')
    lst = [1, 2, 3]
    o = Optional(lst)
    o[1] = 7
    del o[0]
    c.eq(lst, [7, 3], 'items')
    c.eq(list(iterate_if_nnone(lst)), lst, 'iterate')
    for store in ({}, {1: 2}, collections.OrderedDict()):
        o = Optional(store)
        o['k'] = 3
        c.eq(store.get('k'), 3, 'items', 'an empty container is not an empty optional')
        c.expect('k' in o and len(o) == len(store) and o['k'] == 3, 'items')
        del o['k']
        c.expect('k' not in store, 'items')
    c.raises(KeyError, lambda: Optional({}).__delitem__('k'), 'empty-is-not-none')
    c.raises(IndexError, lambda: Optional([]).__delitem__(0), 'empty-is-not-none')
    c.raises(IndexError, lambda: Optional([]).__setitem__(0, 1), 'empty-is-not-none')
    calls = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        c.expect(call_if_nnone(None, 1, x=2) is None, 'call-if-nnone')
        c.eq(call_if_nnone(lambda *a, **k: (a, k), 1, x=2), ((1,), {'x': 2}), 'call-if-nnone')

        class FalsyCallable:
            def __bool__(self):
                return False

            def __call__(self, x):
                calls.append(x)
                return 'called'
        c.expect(call_if_nnone(FalsyCallable(), 7) == 'called' and Optional(FalsyCallable())(8) == 'called' and calls == [7, 8],
                 'call-if-nnone', calls=calls)
    for falsy in (0, '', [], (), 0.0, False):
        c.expect(extract_optional(Optional(falsy)) is falsy and Optional(falsy) == falsy, 'falsy-is-not-empty')
        c.raises(AttributeError, lambda: Optional(falsy).no_such_attribute, 'falsy-is-not-empty')
    o = Optional([1, [2]])
    for how in (copy.copy, copy.deepcopy, lambda v: pickle.loads(pickle.dumps(v))):
        st, twin = c.attempt(lambda: how(o))
        c.expect(st == 'ok' and type(twin) is Optional and extract_optional(twin) == [1, [2]], 'copied', twin=repr(twin))
        c.expect(not how(Optional(None)).anything.below, 'copied')
    m = Mat(1)
    Optional(m).v = 8
    c.eq(m.v, 8, 'attributes')


class Point:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def total(self):
        return self.a + self.b


def rnd_pred(rng, depth=0):
    """:return: (predicate, plain function, text)"""
    r = rng.randrange(12)
    if depth > 3 or r == 0:
        return X, (lambda v: v), 'x'
    p, f, t = rnd_pred(rng, depth + 1)
    if r <= 4:
        op = rng.choice([operator.add, operator.sub, operator.mul, operator.floordiv, operator.mod, operator.and_,
                         operator.or_, operator.xor, operator.truediv])
        k = rng.randrange(1, 9)
        if rng.random() < 0.5:
            return op(p, k), (lambda v: op(f(v), k)), '(%s %s %s)' % (t, op.__name__, k)
        return op(k, p), (lambda v: op(k, f(v))), '(%s %s %s)' % (k, op.__name__, t)
    if r <= 6:
        op = rng.choice(BINARY[:5] + COMPARE + [operator.and_, operator.or_])
        q, g, u = rnd_pred(rng, depth + 1)
        return op(p, q), (lambda v: op(f(v), g(v))), '(%s %s %s)' % (t, op.__name__, u)
    if r == 7:
        op = rng.choice(COMPARE)
        k = rng.randrange(9)
        return op(p, k), (lambda v: op(f(v), k)), '(%s %s %s)' % (t, op.__name__, k)
    if r == 8:
        op = rng.choice([operator.neg, abs, operator.invert])
        return op(p), (lambda v: op(f(v))), '%s(%s)' % (op.__name__, t)
    if r == 9:
        n = rng.choice(['str', 'int', 'float', 'false', 'type'])
        ref = {'str': str, 'int': int, 'float': float, 'false': lambda z: not z, 'type': type}[n]
        return getattr(p, n)(), (lambda v: ref(f(v))), '%s.%s()' % (t, n)
    if r == 10:
        ks = [rng.randrange(9) for _ in range(3)]
        return p.one_of(*ks), (lambda v: f(v) in ks), '%s.one_of(%s)' % (t, ks)
    ty = rng.choice([int, float, str])
    if rng.random() < 0.5:
        return p.is_instance(ty, bool), (lambda v: isinstance(f(v), (ty, bool))), '%s.is_instance(%s)' % (t, ty)
    return p.instanceof(ty), (lambda v: isinstance(f(v), ty)), '%s.instanceof(%s)' % (t, ty)


@CHECK.scenario(quick=5000, thorough=150000)
def predicates(c):
    rng = c.rng
    p, f, t = rnd_pred(rng)
    c.rec(t)
    for _ in range(4):
        v = rng.choice([rng.randrange(-5, 12), rng.randrange(10), rng.randrange(-40, 40) / 4])
        w = outcome(lambda: f(v))
        g = outcome(lambda: p(v))
        if w[0] == 'ok' and isinstance(w[1], float) and w[1] != w[1]:
            continue
        c.eq(g, w, 'value', predicate=t, v=v)
        c.expect(type(g[1]) is type(w[1]), 'value', predicate=t, v=v)
    a, b = rng.randrange(9), rng.randrange(9)
    pt = Point(a, b)
    c.eq((X.a * 2 + X.b)(pt), a * 2 + b, 'attributes')
    c.eq(X.total()(pt), a + b, 'method-call')
    lst = [rng.randrange(6) for _ in range(rng.randrange(1, 5))]
    c.eq((X[0] + X[-1])(lst), lst[0] + lst[-1], 'items')
    c.eq(X.length()(lst), len(lst), 'length')
    c.eq(X.inside(a)(lst), a in lst, 'inside')
    c.eq(X.has(X == a)(lst), a in lst, 'has')
    c.eq(X.has(X % 2 == 0)(lst), any(i % 2 == 0 for i in lst), 'has')
    c.expect(bool(X.has(X + 0)(lst)) == any(lst), 'has', 'any true value will do', lst=lst)
    c.expect(bool(X.has(X.one_of(a, b))(lst)) == (a in lst or b in lst), 'has')
    for op in (operator.lshift, operator.rshift, operator.pow, operator.xor, operator.floordiv, operator.mod,
               operator.sub, operator.truediv):
        k, v = rng.randrange(1, 6), rng.randrange(1, 6)
        c.eq(outcome(lambda: op(X, k)(v)), outcome(lambda: op(v, k)), 'value', op=op) \
            if outcome(lambda: op(X, k))[0] == 'ok' else None
        if outcome(lambda: op(k, X))[0] == 'ok':
            c.eq(outcome(lambda: op(k, X)(v)), outcome(lambda: op(k, v)), 'value', 'reflected operator', op=op, k=k, v=v)
    d = {k: 1 for k in 'abc' if rng.random() < 0.7}
    c.eq(X.has_keys('a', 'b')(d), 'a' in d and 'b' in d, 'has-keys')
    c.eq(X.identity()(a), a, 'identity')
    sch = {k: rng.choice([1, 'x']) for k in 'ab'}
    c.eq(X.is_valid_schema({'a': 'int', 'b': 'int'})(sch), all(type(v) is int for v in sch.values()), 'schema')

    def struct(depth=0):
        r = rng.randrange(7 if depth < 3 else 4)
        if r == 0:
            k = rng.randrange(5)
            return X + k, lambda v: v + k
        if r <= 3:
            k = rng.choice([1, 'text', None, 2.5, b'bytes'])
            return k, lambda v: k
        wrapped = HashableWrapper if rng.random() < 0.2 else lambda q: q
        n = rng.randrange(4)
        parts = [struct(depth + 1) for _ in range(n)]
        if r <= 5:
            cls = rng.choice([list, tuple])
            return wrapped(cls(q[0] for q in parts)), lambda v: cls(q[1](v) for q in parts)
        keys = [('k%s' % i, None) if rng.random() < 0.6 else ((X + 10 * i), i) for i in range(n)]
        return (wrapped({k[0]: q[0] for k, q in zip(keys, parts)}),
                lambda v: {(k[0] if k[1] is None else v + 10 * k[1]): q[1](v) for k, q in zip(keys, parts)})
    s, ref = struct()
    v = rng.randrange(100, 105)
    c.eq(build_structure(s, v), ref(v), 'build-structure')
    c.eq(build_structure([(X, 1), (X + 1, X)], v, dict), {v: 1, v + 1: v}, 'build-structure')
    c.eq(build_structure([s], v, final_operator=len), 1, 'build-structure')


@CHECK.scenario(quick=4000, thorough=100000)
def mixins(c):
    rng = c.rng
    a, b, d = (rng.randrange(3) for _ in range(3))
    e, f = rng.randrange(3), rng.randrange(3)
    c.rec(a, b, d, e, f)

    class Omni(OmniHashableMixin):
        _HASH_FIELDS_TO_USE = ('x', 'y')

        def __init__(self, x, y, z):
            self.x, self.y, self.z = x, y, z

    class Single(OmniHashableMixin):
        _HASH_FIELDS_TO_USE = 'x'

        def __init__(self, x, y):
            self.x, self.y = x, y
    o1, o2 = Omni(a, b, 1), Omni(e, f, 2)
    eq = (a, b) == (e, f)
    c.expect((o1 == o2) is eq and (o1 != o2) is (not eq), 'omni-eq')
    c.expect(not eq or hash(o1) == hash(o2), 'omni-hash')
    c.eq(len({o1, o2}), 1 if eq else 2, 'omni-set')
    c.expect(o1 != (a, b) and not (o1 == 5), 'omni-other-type')
    s1, s2 = Single(a, 1), Single(e, 2)
    c.expect((s1 == s2) is (a == e) and (s1 != s2) is (a != e) and (a != e or hash(s1) == hash(s2)), 'omni-single')
    c.expect((s1 == o1) is False, 'omni-other-type')
    # one that has no value for a field is equal to none
    half = Omni(a, b, 1)
    del half.y
    c.expect((half == o1) is False and (o1 == half) is False and half != o1 and o1 != half, 'omni-incomplete')
    half = Single(a, 1)
    del half.x
    c.expect((half == s1) is False and (s1 == half) is False and half != s1 and s1 != half, 'omni-incomplete')

    # fields that are equal, yet are not the same object nor the same type
    for u, w in ((1000000, int('1000000')), ('ab' * 40, ''.join(['ab'] * 40)), (1, 1.0), (True, 1), ((1, 2), tuple([1, 2])),
                 (frozenset({1}), frozenset([1]))):
        o1, o2 = Omni(u, a, 1), Omni(w, a, 2)
        c.expect(o1 == o2 and hash(o1) == hash(o2) and len({o1, o2}) == 1, 'omni-hash', u=u, w=w)
        s1, s2 = Single(u, 1), Single(w, 2)
        c.expect(s1 == s2 and hash(s1) == hash(s2), 'omni-hash', u=u, w=w)

    class By(ComparableAndHashableBy):
        _COMPARABLE_BY = 'n'

        def __init__(self, n):
            self.n = n

    class Int(ComparableAndHashableByInt):
        def __init__(self, n):
            self.n = n

        def __int__(self):
            return self.n

    class Str(ComparableAndHashableByStr):
        def __init__(self, n):
            self.n = n

        def __str__(self):
            return 'v%s' % (self.n,)

    class StrEq(StrEqHashableMixin):
        def __init__(self, n):
            self.n = n

        def __str__(self):
            return 'v%s' % (self.n,)
    for cls in (By, Int, Str):
        p, q = cls(a), cls(e)
        for op in COMPARE:
            c.expect(op(p, q) is op(a, e), 'comparable', cls=cls, op=op, a=a, e=e)
        c.expect(a != e or hash(p) == hash(q), 'comparable-hash')
        c.eq([z.n for z in sorted([cls(a), cls(b), cls(d), cls(e)])], sorted([a, b, d, e]), 'sortable')
        c.eq(len({cls(a), cls(b), cls(e)}), len({a, b, e}), 'set')
    c.expect(Str(a) == 'v%s' % a and hash(Str(a)) == hash('v%s' % a), 'by-str')

    class Foreign:
        def __int__(self):
            return e

        def __str__(self):
            return 'v%s' % (e,)
    for cls in (Int, Str):
        for op in COMPARE:
            if op is operator.ne and cls is Str:
                continue
            c.expect(op(cls(a), Foreign()) is op(a, e), 'comparable-foreign', cls=cls, op=op, a=a, e=e)
    c.expect((StrEq(a) == Foreign()) is (a == e), 'comparable-foreign')
    c.expect((StrEq(a) == StrEq(e)) is (a == e) and (a != e or hash(StrEq(a)) == hash(StrEq(e))), 'str-eq')
    c.eq(len({StrEq(a), StrEq(b), StrEq(e)}), len({a, b, e}), 'set')

    class Id(HashableMixin):
        pass
    i1, i2 = Id(), Id()
    c.expect(i1 == i1 and i1 != i2 and len({i1, i2, i1}) == 2, 'by-id')

    class Deq(DictionaryEQAble):
        pass

    class Deq2(Deq):
        pass
    def mk(cls, n):
        o = cls()
        for k in 'xyz':
            if rng.random() < 0.6:
                setattr(o, k, rng.randrange(2))
        return o
    p, q, r = mk(Deq, 1), mk(Deq, 2), mk(Deq2, 3)
    c.expect((p == q) is (p.__dict__ == q.__dict__) and (p != q) is (p.__dict__ != q.__dict__), 'dict-eq',
             p=p.__dict__, q=q.__dict__)
    c.expect(p != r and not (p == r), 'dict-eq-type')

    class Rep(ReprableMixin):
        _REPR_FIELDS = ('a', 'b')

        def __init__(self, a, b):
            self.a, self.b = a, b
    v = rng.choice(['x', "q'", 5, None, [1]])
    c.eq(repr(Rep(v, a)), 'Rep(%r, %r)' % (v, a), 'repr')

    class Full(Rep):
        _REPR_FULL_CLASSNAME = True
    c.eq(repr(Full(v, a)), '%s.%s(%r, %r)' % (Full.__module__, Full.__qualname__, v, a), 'repr-full')

    class CE(ComparableEnum):
        A = 0
        B = 'b'
        C = 2

    class CE2(ComparableEnum):
        A = 0
        Z = 'b'
        Y = 17
    m = rng.choice(list(CE))
    for other in [0, 'b', 2, 5, 'zzz', None]:
        c.expect((m == other) is (m.value == other) and (other == m) is (m.value == other) and
                 (m != other) is (m.value != other), 'enum-eq', m=m, other=other)
    for other in list(CE) + list(CE2):
        c.expect((m == other) is (m.value == other.value), 'enum-eq', m=m, other=other)
        c.expect(not (m == other) or hash(m) == hash(other), 'enum-hash')
    c.eq({z: z.value for z in CE}[m], m.value, 'enum-as-key')

    class CI(ComparableIntEnum):
        A = 0
        B = 1
        C = 2

    class HI(HashableIntEnum):
        A = 0
        B = 1
        C = 2
    m = CI(a)
    class Intable:
        def __int__(self):
            return e
    for other in (CI(e), e, e + 0.5, HI(e), Intable()):
        n = other.value if isinstance(other, enum.Enum) else e if isinstance(other, Intable) else other
        for op in COMPARE:
            c.expect(op(m, other) is op(a, n), 'int-enum', op=op, a=a, n=n)
    c.expect(hash(m) == hash(a) == hash(HI(a)), 'int-enum-hash')
    c.eq({CI(a): 1, CI(b): 1}.keys(), {a: 1, b: 1}.keys(), 'int-enum-hash')

    class ON(OnStrOnlyName, enum.Enum):
        A = 0
        B = 'test'
    c.expect(str(ON.A) == 'A' and str(ON.B) == 'B' and '%s' % (ON.A,) == 'A', 'only-name')

    n1 = NotEqualToAnything()
    for other in (n1, 5, None, NOT_EQUAL_TO_ANYTHING):
        c.expect((n1 == other) is False and (n1 != other) is True, 'not-equal-to-anything')

    # hashable wrapper
    raw, twin = [a], [a]
    h, h2, h3 = HashableWrapper(raw), HashableWrapper(raw), HashableWrapper(twin)
    c.expect(hash(h) == hash(h2) and h == h2, "hashable")
    c.expect(not (h == h3) and h != h3 and not (h != h2) and h == raw and not (h != raw) and h != twin and not (h == twin), 'hashable-equality')
    c.eq(len({h, h2, h3}), 2, 'hashable')
    raw.append(9)
    c.expect(h in {h2} and h[1] == 9 and len(h) == 2, 'hashable')
    c.expect(hash(HashableWrapper((1, 2))) == hash((1, 2)), 'hashable')


@CHECK.scenario(quick=2000, thorough=50000)
def immutables(c):
    rng = c.rng
    fields = rng.sample(['a', 'b', 'cc'], rng.randrange(1, 4))
    fail = rng.random() < 0.2
    c.rec(fields, fail)

    class Imm(Immutable):
        def __init__(self):
            for f in fields:
                setattr(self, f, 1)
            setattr(self, fields[0], 2)
            if len(fields) > 1:
                self.tmp = 1
                del self.tmp

    class Sub(Imm):
        def __init__(self):
            super().__init__()
            self.late = 3

        def poke(self):
            self.late = 4

    class Slotted(Immutable):
        __slots__ = ('q',)

        def __init__(self, q):
            self.q = q
    class Keyworded(Immutable):
        def __init__(self, *args, k=0, **kwargs):
            self.args, self.k, self.kwargs = args, k, kwargs
    kw = {x: 1 for x in fields}
    ko = Keyworded(*fields, k=5, **kw)
    c.eq((ko.args, ko.k, ko.kwargs), (tuple(fields), 5, kw), 'immutable-arguments')
    c.raises(TypeError, lambda: setattr(ko, 'k', 9), 'immutable')
    for how in (copy.copy, copy.deepcopy):
        for o, names in ((ko, ('args', 'k', 'kwargs')), (Slotted([1]), ('q',))):
            o2 = how(o)
            c.expect(type(o2) is type(o) and [getattr(o2, x) for x in names] == [getattr(o, x) for x in names], 'immutable-copy')
            c.raises(TypeError, lambda: setattr(o2, names[0], 9), 'immutable-copy')
            c.raises(TypeError, lambda: delattr(o2, names[0]), 'immutable-copy')
    for cls in (Imm, Sub):
        o = cls()
        want = {f: 1 for f in fields}
        want[fields[0]] = 2
        if cls is Sub:
            want['late'] = 3
            c.raises(TypeError, o.poke, 'immutable')
        for _ in range(4):
            k = rng.choice(['a', 'b', 'cc', 'late', 'new'])
            c.raises(TypeError, lambda: setattr(o, k, 9), 'immutable', k=k)
            c.raises(TypeError, lambda: delattr(o, k), 'immutable', k=k)
            c.raises(TypeError, lambda: o.__setattr__(k, 9), 'immutable', k=k)
        c.eq({k: getattr(o, k) for k in want}, want, 'values')
        c.expect(not hasattr(o, 'tmp') and not hasattr(o, 'new'), 'values')
        o2 = cls()
        c.eq({k: getattr(o2, k) for k in want}, want, 'another-instance')
    s = Slotted(5)
    c.raises(TypeError, lambda: setattr(s, 'q', 6), 'immutable')
    c.raises(TypeError, lambda: delattr(s, 'q'), 'immutable')
    c.eq(s.q, 5, 'values')
    # typed named tuples
    types = [rng.choice([int, float, str]) for _ in range(rng.randrange(1, 4))]
    names = ['f%s' % i for i in range(len(types))]
    T = typednamedtuple('T', *zip(names, types))
    vals = [rng.choice([1, 2.5, '7']) if t is not int else rng.choice([1, 2.0, '7']) for t in types]
    k = rng.randrange(len(vals) + 1)
    t = T(*vals[:k], **dict(zip(names[k:], vals[k:])))
    want = tuple(ty(v) for ty, v in zip(types, vals))
    c.eq(tuple(t), want, 'typed-tuple')
    c.expect(all(type(x) is ty for x, ty in zip(t, types)), 'typed-tuple')
    c.eq(tuple(getattr(t, n) for n in names), want, 'typed-tuple')
    c.raises(TypeError, lambda: T(*vals, 5), 'typed-tuple-surplus')
    c.raises(TypeError, lambda: T(*vals, nope=5), 'typed-tuple-surplus')
    c.raises(TypeError, lambda: T(*vals, f0=5), 'typed-tuple-surplus')
    c.raises(TypeError, lambda: T(*vals[:-1]), 'typed-tuple-missing')


@CHECK.scenario(quick=200, thorough=2000)
def proxied_async(c):
    """coroutines can await, iterate and enter what is behind a proxy"""
    import asyncio
    rng = c.rng
    n = rng.randrange(4)
    fail = rng.choice([None, None, Boom('x')])
    swallow = rng.random() < 0.5
    c.rec(n, fail is None, swallow)
    log = []

    class Async:
        async def __aenter__(self):
            log.append('enter')
            return 'entered'

        async def __aexit__(self, *args):
            log.append(args)
            return swallow

        def __aiter__(self):
            async def gen():
                for i in range(n):
                    yield i
            return gen()

        def __await__(self):
            yield from asyncio.sleep(0).__await__()
            return 'awaited'

        def __length_hint__(self):
            return n
    p = Proxy(Async(), rng.random() < 0.5)

    async def main():
        got = [i async for i in p]
        c.eq(got, list(range(n)), 'async-iteration')
        c.eq(await p, 'awaited', 'await')
        try:
            async with p as x:
                c.eq(x, 'entered', 'async-context')
                if fail is not None:
                    raise fail
            left = True
        except Boom as e:
            c.expect(e is fail, 'async-context')
            left = False
        c.expect(left is (fail is None or swallow), 'async-context')
        if fail is None:
            c.eq(log, ['enter', (None, None, None)], 'async-context')
        else:
            c.expect(log[1][0] is Boom and log[1][1] is fail and log[1][2] is fail.__traceback__ or log[1][2] is not None,
                     'async-context', log=log)
    asyncio.run(main())
    v = rng.randrange(-300, 300)
    c.eq((hex(Proxy(v)), oct(Proxy(v)), bin(Proxy(v))), (hex(v), oct(v), bin(v)), 'conversion')
    with Proxy(Mat(2)) as z:
        c.eq(z, ('entered', 2), 'context')


class Huge(ComparableEnum):
    A = 10 ** 9
    B = 'some text that is not an identifier'
    C = 2.75
    D = 300


class Huge2(ComparableEnum):
    X = 10 ** 9
    Y = 'some text that is not an identifier'
    Z = 301


class Numbers(ComparableIntEnum):
    A = 1000
    B = 2000
    C = 3000


class Mine(str):
    pass


@CHECK.scenario(quick=600, thorough=20000)
def equal_but_not_the_same(c):
    """Equality is about values: it does not matter whether they are one object, or of which subclass they are"""
    rng = c.rng
    values = [10 ** 9, 'ab cd', 2.75, (1, 2000), frozenset([7000]), b'zyx', -70000]
    u, v = rng.choice(values), rng.choice(values)
    w = fresh(u)
    n, m = rng.choice([1000, 2000, 3000]), rng.choice([1000, 2000, 3000])
    c.rec(u, v, n, m)

    class Omni(OmniHashableMixin):
        _HASH_FIELDS_TO_USE = ('x', 'y')

        def __init__(self, x, y):
            self.x, self.y = x, y

    class SubOmni(Omni):
        pass

    class Single(Omni):
        _HASH_FIELDS_TO_USE = rng.choice(['x', Mine('x')])

    class SubSingle(Single):
        pass
    for cls, sub in ((Omni, SubOmni), (Single, SubSingle)):
        p, q, r, s = cls(u, n), cls(w, fresh(n)), sub(w, n), cls(v, n)
        c.expect(p == q and not (p != q) and hash(p) == hash(q), 'omni', u=u)
        c.expect((p == r) is (r == p) and (p != r) is (r != p) and (p == r) is not (p != r) and (p != r or hash(p) == hash(r)), 'omni-subclass', u=u)
        c.expect((p == s) is (u == v) and (p != s) is (u != v), 'omni')

    class By(ComparableAndHashableBy):
        _COMPARABLE_BY = 'n'

        def __init__(self, n):
            self.n = n

    class ByInt(ComparableAndHashableByInt):
        def __init__(self, n):
            self.n = n

        def __int__(self):
            return fresh(self.n)

    class ByStr(ComparableAndHashableByStr):
        def __init__(self, n):
            self.n = n

        def __str__(self):
            return 'v%s' % (self.n,)
    for cls in (By, ByInt, ByStr, type('SubBy', (By,), {})):
        p, q = cls(n), cls(fresh(m))
        for op in COMPARE:
            c.expect(op(p, q) is op(n, m), 'comparable', cls=cls, op=op, n=n, m=m)
        c.expect(n != m or hash(p) == hash(q), 'comparable-hash')

    class Deq(DictionaryEQAble):
        def __init__(self, x, y):
            self.x, self.y = x, y
    c.expect(Deq(u, n) == Deq(w, fresh(n)) and not (Deq(u, n) != Deq(w, fresh(n))), 'dict-eq', u=u)
    c.expect((Deq(u, n) == Deq(v, n)) is (u == v) and (Deq(u, n) != Deq(v, n)) is (u != v), 'dict-eq', u=u)
    for member in list(Huge) + list(Huge2):
        for other in (10 ** 9, 'some text that is not an identifier', 2.75, 300, 301, 11 * 27 + 3.0, Mine('some text that is not an identifier'), MyInt(300)):
            other = fresh(other)
            c.expect((member == other) is (member.value == other) and (member != other) is (member.value != other), 'enum', m=member, other=other)
            c.expect((other == member) is (member.value == other), 'enum', m=member, other=other)
        for other in list(Huge) + list(Huge2):
            c.expect((member == other) is (member.value == other.value), 'enum', m=member, other=other)
    a = Numbers(n)
    for other in (m, float(m), m + 0.5, m - 0.5, MyInt(m), Numbers(m), fresh(m)):
        x = other.value if isinstance(other, enum.Enum) else other
        for op in COMPARE:
            c.expect(op(a, other) is op(n, x), 'int-enum', op=op, n=n, other=other)
            if not isinstance(other, float) or other == int(other):
                c.expect(op(other, a) is op(x, n), 'int-enum', op=op, n=n, other=other)

    # optionals and wrappers of subclasses of theirs
    class MyOptional(Optional):
        pass

    class MyWrapper(HashableWrapper):
        pass

    class MyPredicate(PredicateClass):
        pass
    c.expect(extract_optional(MyOptional(u)) is u and extract_optional(MyOptional(None)) is None, 'optional-subclass')
    raw = [u]
    c.expect(HashableWrapper(raw) == MyWrapper(raw) and not (HashableWrapper(raw) != MyWrapper(raw)) and len({HashableWrapper(raw), MyWrapper(raw)}) == 1,
             'wrapper-subclass')
    twice = MyPredicate(lambda q: q * 2)
    c.expect((X + twice)(n) == 3 * n and (twice + X)(n) == 3 * n and (1 + twice)(n) == 2 * n + 1 and (X == twice)(0) is True, 'predicate-subclass')
    struct = {'a': twice, 'b': [twice, X, (twice, 'text')], HashableWrapper(('k', twice)): 1}
    struct = rng.choice([dict, MyDict, collections.OrderedDict])(struct)
    c.eq(build_structure(struct, n), {'a': 2 * n, 'b': [2 * n, n, (2 * n, 'text')], ('k', 2 * n): 1}, 'built')
    wrapped = build_structure([MyWrapper([X, twice])], n)
    c.eq(wrapped, [[n, 2 * n]], 'built')
    got = build_structure(MyList([X, MyTuple([twice])]), n)
    c.expect(type(got) is MyList and type(got[1]) is MyTuple and got == [n, (2 * n,)], 'built-class', got=repr(got))
    for atom in (b'by', bytearray(b'tes'), 'text', MyStr('text')):
        c.expect(build_structure([atom], n)[0] is atom, 'built-atom', atom=atom)
    Named = typednamedtuple('Named', ('p', int), ('q', float))
    t = Named(MyInt(n), q=fresh(2.75))
    c.expect(t == (n, 2.75) and t.p == n and type(t.p) is MyInt, 'typed-tuple')
