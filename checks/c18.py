"""C18: everything can be made JSON, JSON files are read back as written, data objects convert both ways"""
import contextlib
import enum
import json
import os
import subprocess
import sys

from vlib.harness import Check
from checks.common import MyDict, MyFloat, MyInt, MyList, MyStr, MyTuple, disguise, fresh

from satella.json import (JSONAble, JSONAbleDataObject, JSONEncoder, json_encode, read_json_from_file, write_json_to_file,
                          write_json_to_file_if_different)

CHECK = Check('C18', 'A case is one random nested structure of plain values and objects of every kind that is encoded, written '
                     'and read back, or one history of data objects; distinct by structure; non-trivial if at least two oracle '
                     'evaluations took place')


class E(enum.Enum):
    A = 1
    B = 'two'
    C = (1, 'x')


class IE(enum.IntEnum):
    X = 7


class J(JSONAble):
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return [self.v, 'j']


class Duck:
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return {'duck': self.v}


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Slots:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b


class OneSlot:
    __slots__ = 'value'

    def __init__(self, value):
        self.value = value


def tree(rng, depth=0):
    """-> object to be encoded, what it should be decoded as"""
    k = rng.randrange(20 if depth < 4 else 10)
    if k < 5:
        v = rng.choice([None, True, False, 0, 1, -17, 2.5, 1e100, '', 'abc', 'zażółć', '\n"\\', '\U0001f600', 10 ** 30])
        return v, v
    if k == 5:
        return rng.choice([(E.A, 1), (E.B, 'two'), (E.C, [1, 'x']), (IE.X, 7)])
    if k == 6:
        return rng.choice([({1, 2}, '<an instance of set>'), (b'x', '<an instance of bytes>'),
                           (3j, '<an instance of complex>')])
    if k <= 9:
        v = rng.randrange(100)
        return v, v
    kids = [tree(rng, depth + 1) for _ in range(rng.randrange(4))]
    one = tree(rng, depth + 1)
    two = tree(rng, depth + 1)
    if k == 10:
        return J(one[0]), [one[1], 'j']
    if k == 11:
        return Duck(one[0]), {'duck': one[1]}
    if k == 12:
        return Slots(one[0], two[0]), {'a': one[1], 'b': two[1]}
    if k == 13:
        return OneSlot(one[0]), {'value': one[1]}
    if k == 14:
        return Plain(**{'k%d' % i: x for i, (x, _) in enumerate(kids)}), {'k%d' % i: w for i, (_, w) in enumerate(kids)}
    if k == 15:
        return tuple(x for x, _ in kids), [w for _, w in kids]
    if k <= 17:
        return [x for x, _ in kids], [w for _, w in kids]
    keys = ['a', 'żó', '', 'key'][:len(kids)]
    return {q: x for q, (x, _) in zip(keys, kids)}, {q: w for q, (_, w) in zip(keys, kids)}


def same_json(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same_json, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_json(a[k], b[k]) for k in a)
    return a == b


def no_big(x):
    """without floats and integers that the fast parser may read less exactly"""
    if isinstance(x, dict):
        return {k: no_big(v) for k, v in x.items()}
    if isinstance(x, list):
        return [no_big(v) for v in x]
    if isinstance(x, (int, float)) and abs(x) > 2 ** 50:
        return 5
    return x


@CHECK.scenario(quick=3000, thorough=120000)
def encoding(c):
    rng = c.rng
    o, w = tree(rng)
    c.rec(repr(w))
    s = json_encode(o)
    c.expect(isinstance(s, str), 'encode')
    got = json.loads(s)
    c.expect(same_json(got, w), 'encode', result=got, wanted=w)
    c.eq(json.loads(json.dumps(o, cls=JSONEncoder)), got, 'encoder-class')
    c.eq(json.loads(JSONEncoder().encode([o])), [got], 'encode-nested')
    c.eq(json.loads(json_encode(Plain(x=[o, {'y': o}]))), {'x': [got, {'y': got}]}, 'encode-nested')
    # keys are written the same at whichever level
    keys = {k: rng.randrange(5) for k in rng.sample([None, True, 0, 1.5, 7, -3, 'a', '', 'None'], rng.randrange(1, 6))}
    want = json.loads(json.dumps(keys))
    c.rec(sorted(map(repr, keys)))
    c.eq(json.loads(json_encode(keys)), want, 'keys')
    c.eq(json.loads(json_encode({'x': keys})), {'x': want}, 'keys')
    c.eq(json.loads(json_encode(Plain(x=keys, _y=[keys], __z=Plain(w=keys)))), {'x': want, '_y': [want], '__z': {'w': want}}, 'keys')
    c.eq(json.loads(json_encode([Slots(keys, {'q': keys})])), [{'a': want, 'b': {'q': want}}], 'keys')


@contextlib.contextmanager
def without_ujson():
    """a system where that optional library is not installed"""
    absent = object()
    before = sys.modules.get('ujson', absent)
    sys.modules['ujson'] = None
    try:
        yield
    finally:
        if before is absent:
            del sys.modules['ujson']
        else:
            sys.modules['ujson'] = before


@CHECK.scenario(quick=400, thorough=15000)
def files(c):
    rng = c.rng
    d = c.tmpdir()
    p = os.path.join(d, 'f.json')
    o, w = tree(rng)
    w = no_big(w)
    if rng.random() < 0.8:
        o = w
    c.rec(repr(w))
    write_json_to_file(p, o)
    with open(p, 'rb') as f:
        raw = f.read()
    got = json.loads(raw.decode('utf-8'))
    c.eq(no_big(got), w, 'file')
    if o is w:
        c.expect(same_json(read_json_from_file(p), w), 'file-reads-back')
        # other writers do not escape
        with open(p, 'wb') as f:
            f.write(json.dumps(w, ensure_ascii=False, indent=rng.choice([None, 2])).encode('utf-8'))
        c.expect(same_json(read_json_from_file(p), w), 'file-reads-back')
    q = os.path.join(d, 'g.json')
    last = None
    for _ in range(rng.randrange(1, 5)):
        v = rng.choice([{'a': 1}, {'a': 2}, [], 'x', o])
        enc = json_encode(v)
        if last is not None:
            os.utime(q, (1000, 1000))
        c.eq(write_json_to_file_if_different(q, v), enc != last, 'if-different')
        if enc == last:
            c.eq(os.stat(q).st_mtime, 1000.0, 'if-different-written-needlessly')
        with open(q, 'rb') as f:
            c.eq(json.loads(f.read().decode('utf-8')), json.loads(enc), 'if-different')
        last = enc
    for bad in (b'', b'{', b'[1,]', b'{"a": }', b'nope'):
        with open(p, 'wb') as f:
            f.write(bad)
        c.raises(ValueError, lambda: read_json_from_file(p), 'invalid-file', bad=bad)
        with without_ujson():
            c.raises(ValueError, lambda: read_json_from_file(p), 'invalid-file-without-ujson', bad=bad)
    c.raises(OSError, lambda: read_json_from_file(os.path.join(d, 'none.json')), 'missing-file')
    with without_ujson():
        c.raises(OSError, lambda: read_json_from_file(os.path.join(d, 'none.json')), 'missing-file-without-ujson')
        if o is w:
            write_json_to_file(p, o)
            c.expect(same_json(read_json_from_file(p), w), 'file-reads-back-without-ujson')


@CHECK.scenario(quick=1, thorough=5)
def locale(c):
    d = c.tmpdir()
    p = os.path.join(d, 'f.json')
    with open(p, 'wb') as f:
        f.write('{"a": "zażółć"}'.encode('utf-8'))
    c.rec(c.rng.randrange(10 ** 9))
    env = dict(os.environ, LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0',
               PYTHONPATH=os.environ.get('VERIF_REPO', '/repo'))
    r = subprocess.run([sys.executable, '-c', 'import sys\nfrom satella.json import *\n'
                        'v = read_json_from_file(sys.argv[1])\nassert v == {"a": "za\\u017c\\u00f3\\u0142\\u0107"}, ascii(v)\n'
                        'write_json_to_file(sys.argv[1] + "x", v)\nassert read_json_from_file(sys.argv[1] + "x") == v\n',
                        p], env=env, capture_output=True, timeout=60, cwd='/')
    c.eq(r.returncode, 0, 'utf8-in-any-locale', err=r.stderr[-300:])
    c.events += 1


class Ctx(JSONAbleDataObject):
    language: str
    timezone: str
    units: str = 'metric'
    level: int = 0


class Other(JSONAbleDataObject):
    language: str


class Nones(JSONAbleDataObject):
    needed: int
    maybe: int = None
    zero: int = 0
    empty: str = ''


@CHECK.scenario(quick=2000, thorough=60000)
def data_objects(c):
    rng = c.rng

    def kw():
        r = {}
        for f in ('language', 'timezone', 'units', 'level'):
            if rng.random() < 0.75:
                r[f] = rng.choice([1, 2, None, 'metric', 0])
        return r
    objs = []
    k = {f: rng.choice([None, 0, '', 3]) for f in ('needed', 'maybe', 'zero', 'empty') if rng.random() < 0.6}
    if 'needed' in k:
        full = dict(maybe=None, zero=0, empty='')
        full.update(k)
        o = Nones(**k)
        c.eq(o.to_json(), full, 'falsy-defaults')
        c.expect(Nones.from_json(o.to_json()) == o and Nones(**full) == o, 'round-trip')
    else:
        c.raises(ValueError, lambda: Nones(**k), 'missing-field')
    for _ in range(4):
        k = kw()
        c.rec(k)
        if 'language' in k and 'timezone' in k:
            o = Ctx(**k)
            full = dict(units='metric', level=0)
            full.update(k)
            c.eq(o.to_json(), full, 'to-json')
            c.eq({f: getattr(o, f) for f in full}, full, 'fields')
            b = Ctx.from_json(o.to_json())
            c.expect(b == o and not (b != o) and hash(b) == hash(o), 'round-trip')
            c.eq(json.loads(json_encode(o)), full, 'encodes')
            b = Ctx.from_json(json.loads(json_encode(o)))
            c.expect(b == o, 'round-trip')
            objs.append((o, full))
        else:
            c.raises(ValueError, lambda: Ctx(**k), 'missing-field')
    for o, f in objs:
        for p, g in objs:
            c.eq(o == p, f == g, 'equality')
            c.eq(o != p, f != g, 'equality')
            if f == g:
                c.eq(hash(o), hash(p), 'hash')
        c.expect(o != 5 and not (o == None) and o != f, 'equality-with-others')
        c.expect(not (o == Other(language=f['language'])), 'equality-with-others')
    c.eq(Ctx(language=1, timezone=2).to_json(), {'language': 1, 'timezone': 2, 'units': 'metric', 'level': 0}, 'defaults-kept')


class Base:
    __slots__ = ('a', '__secret', 'unset')

    def __init__(self, a, secret):
        self.a = a
        self.__secret = secret


class Derived(Base):
    __slots__ = 'b'


class Mixed(Derived):
    pass


class Empty:
    __slots__ = ()


@CHECK.scenario(quick=1500, thorough=60000)
def inherited(c):
    """Whatever attributes an object has, wherever it keeps them, are encoded; subclasses of plain types are those types"""
    rng = c.rng
    parts = [tree(rng, 3) for _ in range(4)]
    a, secret, b, z = [disguise(rng, x, scalars=False) for x, _ in parts]
    wa, wsecret, wb, wz = [w for _, w in parts]
    c.rec(repr(parts))
    want = {'a': wa, '_Base__secret': wsecret}
    o = Base(a, secret)
    objs = [(o, dict(want))]
    o = Derived(a, secret)
    objs.append((o, dict(want)))
    o = Derived(a, secret)
    o.b = b
    objs.append((o, dict(want, b=wb)))
    o = Mixed(a, secret)
    if rng.random() < 0.5:
        o.b = b
        want['b'] = wb
    o.z = z
    objs.append((o, dict(want, z=wz)))
    objs.append((Empty(), {}))
    objs.append((MyDict(k=MyList([a, MyTuple([b])]), s=MyStr('text'), i=MyInt(7), f=MyFloat(2.5)), {'k': [wa, [wb]], 's': 'text', 'i': 7, 'f': 2.5}))
    for o, w in objs:
        c.expect(same_json(json.loads(json_encode(o)), w), 'encode-inherited', result=json_encode(o), wanted=w)
        c.expect(same_json(json.loads(json_encode([{'x': o}])), [{'x': w}]), 'encode-inherited', wanted=w)


@CHECK.scenario(quick=500, thorough=20000)
def inherited_fields(c):
    """A data object has the fields of all the data objects that it inherits from"""
    rng = c.rng
    cls, names = JSONAbleDataObject, []
    for level in range(rng.randrange(1, 4)):
        ns = {'__annotations__': {}}
        for n in rng.sample(['a', 'b', 'c', 'd', 'e', 'f'], rng.randrange(0, 4)):
            ns['__annotations__'][n] = int
            if n not in names:
                names.append(n)
            if rng.random() < 0.4:
                ns[n] = rng.choice([0, '', None, 5, 10 ** 9])
        cls = type('Level%d' % level, (cls,), ns)
        if rng.random() < 0.3:
            cls = type('Plain%d' % level, (cls,), {})
    defaults = {n: getattr(cls, n) for n in names if hasattr(cls, n)}
    given = {n: rng.choice([0, 1, None, 'x', 10 ** 9, 2.5]) for n in names if rng.random() < 0.8}
    c.rec(names, sorted(defaults), sorted(given))
    if any(n not in given and n not in defaults for n in names):
        c.raises(ValueError, lambda: cls(**given), 'missing-field')
        return
    o = cls(**given)
    full = dict(defaults, **given)
    full = {n: full[n] for n in names}
    c.eq(o.to_json(), full, 'to-json')
    c.eq({n: getattr(o, n) for n in names}, full, 'fields')
    c.eq(json.loads(json_encode(o)), full, 'encodes')
    again = cls.from_json(json.loads(json_encode(o)))
    c.expect(again == o and not (again != o) and hash(again) == hash(o), 'round-trip')
    again = cls(**{n: fresh(v) for n, v in full.items()})
    c.expect(again == o and not (again != o) and hash(again) == hash(o), 'equality')
    if names:
        n = rng.choice(names)
        other = cls(**dict(full, **{n: 'other'}))
        c.expect(other != o and not (other == o), 'equality')
