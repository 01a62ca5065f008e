"""C13: special dictionaries, frozen dictionaries and deleters behave as dictionaries and lists with their one speciality"""
import collections
import copy
import pickle
import warnings

from vlib.harness import Check
from checks.common import Boom, disguise, fresh as same, two_of_a_kind

from satella.configuration.schema import descriptor_from_dict
from satella.coding import ListDeleter, DictDeleter
from satella.coding.structures import DictObject, apply_dict_object, DictionaryView, TwoWayDictionary, DirtyDict, \
    KeyAwareDefaultDict, CountingDict, DefaultDict, frozendict, SliceableDeque

warnings.simplefilter('ignore', DeprecationWarning)

CHECK = Check('C13', 'A case is one history of operations on a dictionary-like (or on a list through a deleter) compared with '
                     'plain dicts and lists; distinct by operations and results; non-trivial if at least two oracle '
                     'evaluations took place')
KEYS = ['a', 'b', 'c', 'd', 1, 2, (1, 2), None]


def same_mapping(c, d, m, key):
    c.eq(len(d), len(m), key + '-len')
    c.eq(list(d), list(m), key + '-iter')
    c.eq(dict(d.items()), m, key + '-items')
    c.eq(list(d.values()), list(m.values()), key + '-values')
    c.eq(list(d.keys()), list(m.keys()), key + '-keys')
    c.eq(bool(d), bool(m), key + '-bool')
    c.eq([k for k in KEYS if k in d], [k for k in KEYS if k in m], key + '-contains')


def mutate(c, d, m, rng, key, values=lambda rng: rng.randrange(5), extra=True):
    """one operation done to both; returns whether the dict has (changed, or been attempted to change) contents"""
    k, v = rng.choice(KEYS), values(rng)
    op = rng.randrange(9 if extra else 3)
    before = dict(m)
    c.rec(op, k, v)
    if op <= 1:
        d[k] = v
        m[k] = v
    elif op == 2:
        if k in m:
            del d[k]
            del m[k]
        else:
            c.raises(KeyError, lambda: d.__delitem__(k), key + '-delete-missing')
    elif op == 3:
        c.eq(d.pop(k, 'nothing'), m.pop(k, 'nothing'), key + '-pop')
    elif op == 4:
        c.eq(d.setdefault(k, v), m.setdefault(k, v), key + '-setdefault')
    elif op == 5:
        u = {rng.choice(KEYS): values(rng) for _ in range(rng.randrange(3))}
        d.update(u)
        m.update(u)
    elif op == 6 and rng.random() < 0.2:
        d.clear()
        m.clear()
    elif op == 7:
        c.eq(d.get(k, 'nothing'), m.get(k, 'nothing'), key + '-get')
    elif op == 8 and k in m:
        c.eq(d[k], m[k], key + '-getitem')
    return m != before


@CHECK.scenario(quick=3000, thorough=100000)
def dirty(c):
    rng = c.rng
    init = {rng.choice(KEYS): rng.randrange(5) for _ in range(rng.randrange(4))}
    d = DirtyDict(init)
    m = dict(init)
    dirty_ = False
    c.expect(d.dirty is False, 'initially-clean')
    for _ in range(rng.randrange(2, 20)):
        r = rng.randrange(10)
        if r == 0:
            d.clear_dirty()
            dirty_ = False
        elif r == 1:
            got = d.swap_and_clear_dirty()
            c.expect(type(got) is dict, 'swap-type')
            c.eq(got, m, 'swap')
            got['x'] = 1
            m, dirty_ = {}, False
        elif r == 2:
            got = d.copy_and_clear_dirty()
            c.expect(type(got) is dict, 'swap-type')
            c.eq(got, m, 'copy-and-clear')
            got['x'] = 1
            dirty_ = False
        elif r == 3:
            e = copy.copy(d)
            c.eq((dict(e), e.dirty), (m, dirty_), 'copy')
            e['zzz'] = 5
            c.expect(e.dirty, 'copy')
        else:
            if mutate(c, d, m, rng, 'dirty'):
                dirty_ = True
        c.eq(d.dirty, dirty_, 'dirty-flag')
        same_mapping(c, d, m, 'dirty')
    c.eq(dict(d), m, 'contents')


@CHECK.scenario(quick=3000, thorough=100000)
def two_way(c):
    rng = c.rng
    vals = rng.choice([['A', 'B', 'C', 'D', 1, 2, None], ['AB cd', 1000, 2.75, (1, 'x'), b'ef gh', 10 ** 9, -3000]])

    def fresh():
        n = rng.randrange(4)
        return dict(zip(rng.sample(KEYS, n), rng.sample(vals, n)))
    init = fresh()
    if init and rng.random() < 0.1:
        bad = dict(init)
        bad['new-key'] = rng.choice(list(init.values()))
        c.raises(ValueError, lambda: TwoWayDictionary(bad), 'not-reversible')
    d = TwoWayDictionary(init) if init or rng.random() < 0.5 else TwoWayDictionary()
    m = dict(init)
    c.rec(init)
    ctx = rng.random() < 0.5
    if ctx:
        c.expect(d.__enter__() is d, 'context')

    def invert(m):
        return {v: k for k, v in m.items()}

    def verify():
        c.eq(dict(d.items()), m, 'forward')
        c.eq(dict(d.reverse.items()), invert(m), 'reverse')
        c.eq((len(d), len(d.reverse)), (len(m), len(m)), 'len')
        c.expect(d.reverse.reverse is d, 'reverse-reverse')
        c.eq([k for k in KEYS if k in d], [k for k in KEYS if k in m], 'contains')
        for k, v in m.items():
            c.expect(d[k] == v and d.reverse[v] == k, 'lookup', k=k)
    for _ in range(rng.randrange(2, 20)):
        back = rng.random() < 0.4
        o = d.reverse if back else d
        om = invert(m) if back else dict(m)
        k, v = (rng.choice(vals), rng.choice(KEYS)) if back else (rng.choice(KEYS), rng.choice(vals))
        k, v = same(k), same(v)
        op = rng.randrange(6)
        c.rec(back, op, k, v)
        if op <= 2:
            if v in om.values():
                if om.get(k, o) != v:
                    c.raises(ValueError, lambda: o.__setitem__(k, v), 'value-taken')
            else:
                o[k] = v
                om[k] = v
        elif op == 3:
            if k in om:
                del o[k]
                del om[k]
            else:
                c.raises(KeyError, lambda: o.__delitem__(k), 'delete-missing')
        elif op == 4:
            c.eq(o.pop(k, 'nothing'), om.pop(k, 'nothing'), 'pop')
        else:
            c.eq(o.get(k, 'nothing'), om.get(k, 'nothing'), 'get')
            if k not in om:
                c.raises(KeyError, lambda: o[k], 'missing')
        m = invert(om) if back else om
        verify()
    if ctx:
        c.expect(not d.__exit__(None, None, None), 'context')
    elif rng.random() < 0.5:
        d.done()
    c.eq(dict(d), m, 'after-done')


@CHECK.scenario(quick=3000, thorough=100000)
def defaults(c):
    rng = c.rng
    kind = rng.choice(['key-aware', 'default', 'counting'])
    c.rec(kind)
    if kind == 'key-aware':
        calls = []
        fail = [False]

        def factory(k):
            calls.append(k)
            if fail[0]:
                raise Boom(k)
            return made(k)

        flavour = rng.choice(['tuple', 'none', 'falsy'])

        def made(k):
            return {'tuple': ('made', k), 'none': None, 'falsy': rng.choice([0, '', (), False])}[flavour]
        init = {rng.choice(KEYS): rng.randrange(5) for _ in range(rng.randrange(3))}
        d = KeyAwareDefaultDict(factory, init) if init else KeyAwareDefaultDict(factory)
        m = dict(init)
        for _ in range(rng.randrange(2, 15)):
            k = rng.choice(KEYS)
            if rng.random() < 0.5:
                del calls[:]
                fail[0] = rng.random() < 0.2
                if k in m:
                    c.eq(d[k], m[k], 'read')
                    c.eq(calls, [], 'factory-not-called')
                elif fail[0]:
                    c.raises(Boom, lambda: d[k], 'factory-raises')
                else:
                    v = d[k]
                    c.expect(v == ('made', k) if flavour == 'tuple' else not v, 'default', v=v)
                    c.eq(calls, [k], 'factory-called-once')
                    m[k] = v
                    c.expect(d[k] == v and k in d, 'read')
                    c.eq(calls, [k], 'factory-called-once')
                fail[0] = False
            else:
                mutate(c, d, m, rng, 'key-aware', extra=False)
            del calls[:]
            same_mapping(c, d, m, 'key-aware')
            c.eq(calls, [], 'looking-does-not-create')
    elif kind == 'default':
        made = []

        def factory():
            made.append([])
            return made[-1]
        d = DefaultDict(factory)
        m = {}
        for _ in range(rng.randrange(2, 15)):
            k = rng.choice(KEYS)
            if rng.random() < 0.5:
                v = d[k]
                if k in m:
                    c.eq(v, m[k], 'read')
                else:
                    c.expect(v is made[-1], 'default')
                    v.append(1)
            else:
                mutate(c, d, m, rng, 'default')
            same_mapping(c, d, m, 'default')
            if rng.random() < 0.2:
                e = copy.copy(d)
                c.expect(type(e) is DefaultDict and e == m and e['nope'] == [], 'copy')
                e['zzz'] = 1
                same_mapping(c, d, m, 'default')
    else:
        seq = [rng.choice(KEYS) for _ in range(rng.randrange(8))]
        d = CountingDict(seq) if seq else CountingDict()
        m = collections.OrderedDict()
        for k in seq:
            m[k] = m.get(k, 0) + 1
        for _ in range(rng.randrange(2, 15)):
            k = rng.choice(KEYS)
            n = rng.choice([None, 1, 2, 5, 0, -1, 0.5])
            if rng.random() < 0.1:
                d.clear()
                m.clear()
            elif n is None:
                d.count(k)
                m[k] = m.get(k, 0) + 1
            else:
                d.count(k, n)
                m[k] = m.get(k, 0) + n
            same_mapping(c, d, dict(m), 'counting')
            if k in m:
                c.eq(d[k], m[k], 'count')
            else:
                c.raises(KeyError, lambda: d[k], 'count-missing')
            c.rec(k, n)


@CHECK.scenario(quick=2000, thorough=60000)
def views(c):
    rng = c.rng
    prop, same = rng.random() < 0.5, rng.random() < 0.5
    dicts = [{rng.choice(KEYS): rng.randrange(5) for _ in range(rng.randrange(4))} for _ in range(rng.randrange(1, 4))]
    kw = {}
    if not prop or rng.random() < 0.5:
        kw['propagate_deletes'] = prop
    if not same or rng.random() < 0.5:
        kw['assign_to_same_dict'] = same
    model = [dict(x) for x in dicts]
    d = DictionaryView(*dicts, **kw)
    c.rec(prop, same, dicts)

    def merged():
        out = {}
        for m in model:
            for k, v in m.items():
                out.setdefault(k, v)
        return out
    for _ in range(rng.randrange(2, 15)):
        k, v = rng.choice(KEYS), rng.randrange(10, 20)
        op = rng.randrange(5)
        holder = next((m for m in model if k in m), None)
        if op <= 1:
            d[k] = v
            (holder if same and holder is not None else model[0])[k] = v
        elif op == 2:
            target = holder if prop else (model[0] if k in model[0] else None)
            if target is None:
                c.raises(KeyError, lambda: d.__delitem__(k), 'delete-missing')
            else:
                del d[k]
                del target[k]
        elif op == 3:
            if holder is None:
                c.raises(KeyError, lambda: d[k], 'missing')
            else:
                c.eq(d[k], holder[k], 'lookup')
        else:
            deep = rng.random() < 0.5
            e = copy.deepcopy(d) if deep else copy.copy(d)
            c.eq(dict(e.items()), merged(), 'copy')
            c.eq((e.propagate_deletes, e.assign_to_same_dict), (prop, same), 'copy-options')
            if deep:
                e['zzz'] = 5
        c.rec(op, k)
        c.eq(dicts, model, 'underlying-dictionaries')
        m = merged()
        same_mapping(c, d, m, 'view')


def nested(rng, depth=0):
    r = rng.randrange(6 if depth < 3 else 3)
    if r <= 1:
        return rng.choice([1, 'x', None, 2.5, (1, {'a': 2})])
    if r <= 3:
        return [nested(rng, depth + 1) for _ in range(rng.randrange(3))]
    return {rng.choice(['a', 'b', 'cc', 5]): nested(rng, depth + 1) for _ in range(rng.randrange(4))}


@CHECK.scenario(quick=3000, thorough=100000)
def dict_object(c):
    rng = c.rng
    src = {rng.choice(['a', 'b', 'cc', 5]): rng.choice([1, [1], {'q': 1}]) for _ in range(rng.randrange(4))}
    orig = copy.deepcopy(src)
    if rng.random() < 0.3:
        src = disguise(rng, src)
    d = DictObject(src) if rng.random() < 0.7 else DictObject(**{str(k): v for k, v in src.items()})
    m = dict(d)
    for _ in range(rng.randrange(2, 12)):
        k, v = rng.choice(['a', 'b', 'cc', 'zz']), rng.randrange(9)
        op = rng.randrange(9)
        c.rec(op, k)
        if op == 0:
            setattr(d, k, v)
            m[k] = v
        elif op == 1:
            d[k] = v
            m[k] = v
        elif op == 2:
            if k in m:
                delattr(d, k)
                del m[k]
            else:
                c.raises(AttributeError, lambda: delattr(d, k), 'del-missing')
        elif op == 3:
            if k in m:
                c.expect(getattr(d, k) is m[k], 'attribute')
            else:
                c.raises(AttributeError, lambda: getattr(d, k), 'missing-attribute')
                c.eq(getattr(d, k, 'dflt'), 'dflt', 'missing-attribute')
            c.eq(hasattr(d, k), k in m, 'hasattr')
        elif op == 4:
            if k not in m:
                c.raises(KeyError, lambda: d[k], 'missing-key')
        elif op == 5:
            e = copy.copy(d)
            c.expect(type(e) is DictObject and e is not d and e == m and all(e[k] is m[k] for k in m), 'copy')
            e.fresh = 1
        elif op == 6:
            e = copy.deepcopy(d)
            c.expect(type(e) is DictObject and e == m, 'deepcopy')
            for k2 in m:
                if isinstance(m[k2], (list, dict)):
                    c.expect(e[k2] is not m[k2], 'deepcopy')
        elif op == 7:
            e = pickle.loads(pickle.dumps(d))
            c.expect(type(e) is DictObject and e == m, 'pickle')
        else:
            k = rng.choice(['a', 'b'])
            bad = rng.random() < 0.5
            x = DictObject({'a': 5, 'b': 'nope' if bad else 7})
            c.eq(x.is_valid_schema({'a': 'int', 'b': 'int'}), not bad, 'schema')
            c.eq(x.is_valid_schema(a='int', b='int'), not bad, 'schema')
            c.eq(x.is_valid_schema(descriptor_from_dict({'a': 'int', 'b': 'int'})), not bad, 'schema')
            c.eq(x, {'a': 5, 'b': 'nope' if bad else 7}, 'schema-only-looked-at')
            c.eq(x.is_valid_schema({'a': 'int', 'b': 'int', 'c': 'int'}), False, 'schema')
            c.eq(x.is_valid_schema(a='int', b='int', c='int'), False, 'schema')
        c.expect(isinstance(d, dict), 'is-a-dict')
        same_mapping(c, d, m, 'dict-object')
    c.eq(src, orig, 'source-not-changed')
    # graphs: what was one object stays one object, and a cycle stays a cycle
    shared = rng.choice([[1], DictObject(z=1), {'k': 1}])
    g = DictObject(p=shared, q=shared, inner=DictObject(r=shared))
    if rng.random() < 0.5:
        g.inner.up = g
    h = copy.deepcopy(g)
    c.expect(h.p is h.q and h.p is h.inner.r and h.p is not shared and h.p == shared, 'deepcopy-keeps-identity')
    c.expect(('up' in h.inner) == ('up' in g.inner) and h.inner.get('up', h) is h, 'deepcopy-keeps-identity')
    pair = copy.deepcopy([g.inner.r, g])
    c.expect(pair[1].p is pair[0], 'deepcopy-keeps-identity')
    v = nested(rng)
    v = disguise(rng, v, rng.choice([0, 0.5]), False)
    before = copy.deepcopy(v)
    for other in (5, 'x', None, (1, {}), d):
        c.expect(apply_dict_object(other) is other, 'apply-other', other=repr(other))
    got = apply_dict_object(v)
    c.rec(v)

    def walk(a, b):
        if isinstance(a, list):
            c.expect(type(b) is list and len(a) == len(b), 'apply')
            for x, y in zip(a, b):
                walk(x, y)
        elif isinstance(a, dict):
            c.expect(type(b) is DictObject and list(a) == list(b), 'apply')
            for k in a:
                walk(a[k], b[k])
        else:
            c.expect(a is b, 'apply')
    walk(v, got)
    c.eq(v, before, 'source-not-changed')


@CHECK.scenario(quick=2000, thorough=60000)
def frozen(c):
    rng = c.rng
    src = {rng.choice(KEYS): rng.randrange(5) for _ in range(rng.randrange(4))}
    how = rng.randrange(3)
    d = frozendict(src) if how < 2 else frozendict(list(src.items()))
    keep = dict(src)
    src['late'] = 1
    attempts = [lambda: d.__setitem__(rng.choice(KEYS), 9), lambda: d.update({'a': 99}), lambda: d.update(q=1),
                lambda: d.__delitem__(rng.choice(list(keep) or ['a'])), lambda: d.pop(rng.choice(list(keep) or ['a'])),
                lambda: d.pop('nope', None), lambda: d.popitem(), lambda: d.clear(), lambda: d.setdefault('nope', 5),
                lambda: exec('d |= {"nope": 1}', {'d': d})]
    h = hash(d)
    for i in rng.sample(range(len(attempts)), 5):
        c.raises(TypeError, attempts[i], 'frozen', which=i)
        c.eq(dict(d), keep, 'frozen', which=i)
        c.rec(i)
    items = list(keep.items())
    rng.shuffle(items)
    e = frozendict(items)
    c.expect(d == e and not (d != e) and hash(e) == h == hash(d), 'equal-and-hashes-equal')
    c.expect(d == keep, 'equal-to-dict')
    c.eq({d: 1}[e], 1, 'as-a-key')
    f = frozendict(dict(keep, other=1))
    c.expect(d != f and len({d, e, f}) == 2, 'as-a-key')
    for g in (copy.copy(d), copy.deepcopy(d), pickle.loads(pickle.dumps(d))):
        c.expect(type(g) is frozendict and g == d and hash(g) == h, 'copies')
    bad = frozendict({'a': [1]})
    c.raises(TypeError, lambda: hash(bad), 'unhashable-values')
    same_mapping(c, d, keep, 'frozen')


@CHECK.scenario(quick=4000, thorough=120000)
def deleters(c):
    rng = c.rng
    if rng.random() < 0.4:
        d = {k: rng.randrange(5) for k in rng.sample(KEYS, rng.randrange(0, 8))}
        m = dict(d)
        mode = rng.randrange(4)
        boom = rng.random() < 0.2
        doomed = [k for k in m if rng.random() < 0.4]
        c.rec(mode, m, doomed, boom)
        seen = []
        pos = rng.randrange(len(m) + 1)
        marked = []

        def run():
            with DictDeleter(d) as dd:
                it = {0: dd.items, 1: dd.keys, 2: dd.values, 3: dd.__iter__}[mode]()
                keys = iter(list(m))
                for i, e in enumerate(it):
                    k = next(keys)
                    seen.append(e)
                    if boom and i == pos:
                        raise Boom()
                    if k in doomed:
                        marked.append(k)
                        for _ in range(rng.choice([1, 1, 2])):
                            dd.delete()
                    c.eq(d, m, 'not-changed-while-iterating')
        if boom and pos < len(m):
            c.raises(Boom, run, 'exception-passes')
            n = pos + 1
        else:
            run()
            n = len(m)
        want = {0: list(m.items()), 2: list(m.values())}.get(mode, list(m))
        c.eq(seen, want[:n], 'iterates')
        c.eq(d, {k: v for k, v in m.items() if k not in marked}, 'deleted')
        return
    lst = [rng.randrange(4) for _ in range(rng.randrange(0, 8))]
    m = list(lst)
    back = rng.random() < 0.5
    style = rng.randrange(3)
    c.rec(m, back, style)
    marked = set()
    if style == 0:
        seen = []
        with (reversed(ListDeleter(lst)) if back else ListDeleter(lst)) as ld:
            order = list(range(len(m)))
            if back:
                order.reverse()
            it = iter(order)
            for v in ld:
                i = next(it, None)
                c.expect(i is not None, 'iterates', v=v)
                seen.append(v)
                c.expect(v == m[i] and ld() == v and ld.value == v, 'current', i=i)
                if rng.random() < 0.4:
                    marked.add(i)
                    ld.delete()
                c.eq(lst, m, 'not-changed-while-iterating')
        c.eq(seen, m[::-1] if back else m, 'iterates')
    else:
        ld = ListDeleter(lst)
        if back:
            ld = reversed(ld)
        i = len(m) if back else -1
        for _ in range(rng.randrange(0, 25)):
            fwd = rng.random() < 0.65
            step = (-1 if back else 1) * (1 if fwd else -1)
            j = min(max(i + step, -1), len(m))
            c.rec(fwd)
            if 0 <= j < len(m):
                c.eq((ld.next if fwd else ld.prev)(), m[j], 'walk', at=i)
                c.eq(ld(), m[j], 'current')
                if rng.random() < 0.3:
                    ld.delete()
                    marked.add(j)
            else:
                c.raises(StopIteration, ld.next if fwd else ld.prev, 'walk', at=i)
            i = j
            if rng.random() < 0.1 and 0 <= i < len(m):
                # copies share the list and the position, and are otherwise on their own
                other = copy.copy(ld)
                c.eq(other(), m[i], 'copy-keeps-position')
                if rng.random() < 0.5:
                    other.delete()
                else:
                    c.attempt(other.next)
                    c.eq(ld(), m[i], 'copy-is-independent')
        if style == 1:
            ld.remove_items()
            if rng.random() < 0.5:
                ld.remove_items()
        else:
            ld.__exit__(None, None, None)
    c.eq(lst, [v for i, v in enumerate(m) if i not in marked], 'deleted', marked=sorted(marked))


@CHECK.scenario(quick=300, thorough=6000)
def big_and_equal(c):
    """Sizes and values that are no small integers"""
    rng = c.rng
    n = rng.randrange(257, 400)
    src = {i: 'v%d' % i for i in range(n)}
    d = TwoWayDictionary(src)
    c.expect(len(d) == n and dict(d) == src and dict(d.reverse) == {v: k for k, v in src.items()}, 'big-two-way')
    src[n] = 'v%d' % rng.randrange(n)
    c.raises(ValueError, lambda: TwoWayDictionary(src), 'big-not-reversible')
    for value in (1000, 10 ** 9, 'some text', 2.75, (1, 2000), [1, 2], {'a': 1}, b'by tes', 0, '', False):
        d = DirtyDict({'k': value})
        d['k'] = copy.deepcopy(value) if isinstance(value, (list, dict)) else same(value)
        c.expect(d.dirty is False and d['k'] == value, 'set-to-the-same', value=repr(value))
        d['k'] = 'something else'
        c.expect(d.dirty is True and d['k'] == 'something else', 'set-to-another', value=repr(value))
        d.clear_dirty()
        d['absent'] = value
        c.expect(d.dirty is True and d['absent'] == value, 'set-a-new-one', value=repr(value))
        d.clear_dirty()
        c.raises(KeyError, lambda: d['nope'], 'missing')
        c.raises(KeyError, lambda: d.__delitem__('nope'), 'missing')
        c.expect(d.dirty is False and len(d) == 2, 'missing-keeps-clean')
    # subclasses of DictObject are objects already
    class Sub(DictObject):
        pass
    v = Sub(a=rng.randrange(9), b={'c': 1})
    c.expect(apply_dict_object(v) is v and apply_dict_object({'x': v})['x'] is v and apply_dict_object([v])[0] is v, 'apply-subclass')
    c.expect(type(apply_dict_object(disguise(rng, {'x': {'y': [{}]}}, 1, False))['x']['y'][0]) is DictObject, 'apply')
    many = DictObject(collections.OrderedDict(z=1, y=2))
    c.expect(list(many) == ['z', 'y'] and many.z == 1 and type(many) is DictObject, 'made-of-a-subclass')
    c.expect(DictObject([('a', 1), ('b', 2)]) == {'a': 1, 'b': 2} and DictObject({'a': 1}, b=2) == {'a': 1, 'b': 2} and DictObject() == {}, 'made-of-pairs')
    c.raises(TypeError, lambda: DictObject({}, {}), 'too-many-arguments')


@CHECK.scenario(quick=300, thorough=8000)
def two_at_once(c):
    """What is done to one dictionary is not seen in another, and deleters share no plans"""
    rng = c.rng
    keys = rng.sample(range(6), rng.randrange(1, 6))

    def use(d):
        for k in keys:
            d[k] = k + 100

    def count(d):
        for k in keys:
            d.count(k, k + 1)

    def attributes(d):
        for k in keys:
            setattr(d, 'x%d' % k, k)

    def delete(pair):
        with DictDeleter(pair) as dd:
            for k in dd:
                if k in keys:
                    dd.delete()

    def delete_list(lst):
        with ListDeleter(lst) as ld:
            for v in ld:
                if v in keys:
                    ld.delete()
    c.rec(keys)
    two_of_a_kind(c, [
        ('two-way', TwoWayDictionary, use, lambda d: (sorted(d.items()), sorted(d.reverse.items()))),
        ('two-way-of-some', lambda: TwoWayDictionary({50: 500}), use, lambda d: (sorted(d.items()), sorted(d.reverse.items()))),
        ('counting', CountingDict, count, lambda d: (sorted(d.items()), len(d))),
        ('dirty', DirtyDict, use, lambda d: (sorted(d.items()), d.dirty)),
        ('object', DictObject, attributes, lambda d: sorted(d.items())),
        ('dict-deleter', lambda: dict.fromkeys(range(6)), delete, dict),
        ('list-deleter', lambda: list(range(6)), delete_list, list),
    ])
