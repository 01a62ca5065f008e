"""C23: a schema yields what is declared or raises a validation error, and never touches its input"""
import copy
import enum
import math
import os

from checks.common import disguise
from vlib.harness import Check

import satella.coding
from satella.configuration.schema import (Boolean, Caster, CheckerCondition, Descriptor, Dict, Directory, DirectoryObject, File,
                                          FileContents, FileObject, Float, IPv4, Integer, List, Regexp, String, Union,
                                          create_key, descriptor_from_dict, register_custom_descriptor)
from satella.configuration.schema.base import must_be_one_of
from satella.configuration.schema.registry import BASE_LOOKUP_TABLE, PLAIN_ENTRIES
from satella.exceptions import ConfigurationError, ConfigurationSchemaError, ConfigurationValidationError

CHECK = Check('C23', 'A case is one random schema (built by hand and from its dictionary form) applied to a batch of fitting and '
                     'unfitting values, or one history of registrations or file states; distinct by schema and values; '
                     'non-trivial if at least two oracle evaluations took place')


class Bad(Exception):
    """The model's verdict that a value does not fit"""


class Color(enum.IntEnum):
    RED = 1
    BLUE = 2


ANY = object()


# ---------------------------------------------------------------- the model
def is_ip(s):
    parts = s.split('.')
    return len(parts) == 4 and all(p and len(p) <= 3 and all(c in '0123456789' for c in p) and int(p) <= 255 for p in parts)


def model(schema, v):
    kind = schema[0]
    if kind == 'any':
        return v
    if kind == 'bool':
        if isinstance(v, str):
            if v.lower() not in ('true', 'false'):
                raise Bad()
            return v.lower() == 'true'
        return bool(v)
    if kind in ('int', 'float'):
        try:
            return {'int': int, 'float': float}[kind](v)
        except (ValueError, TypeError, OverflowError):
            raise Bad()
    if kind == 'str':
        return str(v)
    if kind == 'ipv4':
        s = str(v)
        if not is_ip(s):
            raise Bad()
        return s
    if kind == 'list':
        if not isinstance(v, (list, tuple)):
            raise Bad()
        return [model(schema[1], x) for x in v]
    if kind == 'union':
        for s in schema[1]:
            try:
                return model(s, v)
            except Bad:
                pass
        raise Bad()
    if kind == 'caster':
        try:
            return schema[1](v)
        except (ValueError, TypeError, OverflowError):
            raise Bad()
    if kind == 'dict':
        if not isinstance(v, dict):
            raise Bad()
        out = {}
        for name, (sub, optional, default) in schema[1].items():
            if name in v:
                out[name] = model(sub, v[name])
            elif optional:
                out[name] = default
            else:
                raise Bad()
        for name in v:
            if name not in schema[1]:
                out[name] = v[name]
        return out
    raise AssertionError(kind)


# ---------------------------------------------------------------- schemas and values
def gen_schema(rng, depth=0):
    k = rng.choice(['any', 'bool', 'int', 'float', 'str', 'ipv4', 'int', 'str']
                   + (['list', 'union', 'dict', 'dict', 'list'] if depth < 3 else []) + ['caster'])
    if k == 'list':
        return 'list', gen_schema(rng, depth + 1)
    if k == 'union':
        return 'union', [gen_schema(rng, depth + 1) for _ in range(rng.randrange(1, 4))]
    if k == 'caster':
        return 'caster', rng.choice([int, Color])
    if k == 'dict':
        return 'dict', gen_fields(rng, depth)
    return k,


def gen_fields(rng, depth):
    out = {}
    for i in range(rng.randrange(0, 5)):
        optional = rng.random() < 0.4
        default = rng.choice([None, 0, 'def', False, 7, [1]]) if optional and rng.random() < 0.7 else None
        out[rng.choice(['a', 'b', 'c', 'key', 'x y', '0'])] = gen_schema(rng, depth + 1), optional, default
    return out


def gen_value(rng, schema, depth=0):
    """mostly fitting value"""
    k = schema[0]
    if rng.random() < 0.07 or k == 'any':
        return junk(rng)
    if k == 'bool':
        return rng.choice([True, False, 'true', 'False', 'TRUE', 'no', 0, 1, 3.5, None, [], '', 'tRuE'])
    if k == 'int':
        return rng.choice([0, -4, 10 ** 20, '12', ' -3 ', '1_0', '0x10', 3.9, True, 'x', float('inf'), float('nan'), '1.5', None])
    if k == 'float':
        return rng.choice([0, 2.5, '2.5', '1e3', 'nan!', 'inf', True, 10 ** 400, None, '', 7])
    if k == 'str':
        return rng.choice(['', 'abc', 5, None, 1.5, True, 'ż', [1]])
    if k == 'ipv4':
        a = [str(rng.choice([0, 1, 9, 10, 99, 127, 192, 255, rng.randrange(256)])) for _ in range(4)]
        s = '.'.join(a)
        return rng.choice([s, s, s, s, s + '.1', s + 'x', 'x' + s, ' ' + s, s + '\n', '.'.join(a[:3]), '256.1.1.1', '1.2.3.999',
                           '1.300.3.4', 'localhost', '', '1..2.3', 5, None, '-1.2.3.4'])
    if k == 'list':
        v = [gen_value(rng, schema[1], depth + 1) for _ in range(rng.randrange(5))]
        return tuple(v) if rng.random() < 0.2 else v
    if k == 'union':
        return gen_value(rng, rng.choice(schema[1]), depth + 1)
    if k == 'caster':
        return rng.choice([1, 2, 3, '1', 'x', None, 2.0])
    out = {}
    for name, (sub, optional, default) in schema[1].items():
        if rng.random() < (0.6 if optional else 0.96):
            out[name] = gen_value(rng, sub, depth + 1)
    for _ in range(rng.randrange(3)):
        out[rng.choice(['extra', 'zz', 5, 'more', 'unk'])] = junk(rng)
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


def junk(rng):
    return rng.choice([None, 0, 1, 2.5, 'x', '', True, [], [1, [2]], {}, {'a': 1}, {'a': {'b': [1]}}, (1, 2), 'true', '1.2.3.4', -1])


def build(schema):
    k = schema[0]
    if k == 'list':
        return List(build(schema[1]))
    if k == 'union':
        return Union(*[build(s) for s in schema[1]])
    if k == 'caster':
        return Caster(schema[1])
    if k == 'dict':
        return Dict([create_key(build(s), name, opt, default) for name, (s, opt, default) in schema[1].items()])
    return {'any': Descriptor, 'bool': Boolean, 'int': Integer, 'float': Float, 'str': String, 'ipv4': IPv4}[k]()


def as_entry(rng, schema, optional=False, default=None):
    """the dictionary form of a schema"""
    k = schema[0]
    plain = k in ('any', 'bool', 'int', 'float', 'str', 'ipv4')
    if plain and not optional and rng.random() < 0.6:
        if k == 'any' and rng.random() < 0.5:
            return ''
        if k in ('int', 'float', 'str') and rng.random() < 0.3:
            return {'int': int, 'float': float, 'str': str}[k]
        return k
    if k == 'dict' and not optional:
        return {name: as_entry(rng, s, o, d) for name, (s, o, d) in schema[1].items()}
    out = {'type': k}
    if rng.random() < 0.3:
        out['description'] = 'whatever'
    if optional:
        if default is not None:
            out['default'] = default
            if rng.random() < 0.5:
                out['optional'] = True
        else:
            out['optional'] = True
    elif rng.random() < 0.2:
        out['optional'] = False
        if rng.random() < 0.5:
            out['default'] = rng.choice([0, 'unused'])
    if k == 'list':
        out['of'] = as_entry(rng, schema[1])
    elif k == 'union':
        out['of'] = [as_entry(rng, s) for s in schema[1]]
    elif k == 'caster':
        if schema[1] is Color:
            out['cast_to'] = '%s.Color' % (__name__,)
        else:
            out['cast_to'] = schema[1].__name__
    return out


def dict_form_ok(schema):
    """Optional dictionaries have no dictionary form, all the other schemas have"""
    if schema[0] == 'list':
        return dict_form_ok(schema[1])
    if schema[0] == 'union':
        return all(map(dict_form_ok, schema[1]))
    if schema[0] == 'dict':
        return all(dict_form_ok(s) and not (o and s[0] == 'dict') for s, o, d in schema[1].values())
    return True


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    return a == b


def judge(c, key, fn, schema, value, **det):
    value = disguise(c.rng, value, c.rng.choice([0, 0, 0.5]))
    before = copy.deepcopy(value)
    try:
        want, bad = model(schema, value), False
    except Bad:
        want, bad = None, True
    try:
        got = fn(value)
    except ConfigurationValidationError as e:
        c.expect(bad, key + '-rejected-fitting', 'a fitting value was rejected', schema=repr(schema), value=repr(value)[:300],
                 error=repr(e)[:300], expected=repr(want)[:300], **det)
        str(e), repr(e)
        c.count('rejected')
    except Exception as e:
        c.fail(key + '-foreign-exception', 'something else than a validation error was raised', schema=repr(schema),
               value=repr(value)[:300], error=repr(e)[:300], **det)
    else:
        c.expect(not bad, key + '-accepted-unfitting', 'a value that does not fit was accepted', schema=repr(schema),
                 value=repr(value)[:300], result=repr(got)[:300], **det)
        if not bad:
            c.expect(same(got, want), key + '-wrong-result', 'the schema produced something else than declared',
                     schema=repr(schema), value=repr(value)[:300], result=repr(got)[:300], expected=repr(want)[:300], **det)
            c.count('accepted')
    c.expect(same(value, before), key + '-input-changed', 'the schema changed the value given', schema=repr(schema),
             value=repr(value)[:300], original=repr(before)[:300], **det)


@CHECK.scenario(quick=120, thorough=4000)
def by_hand(c):
    schema = gen_schema(c.rng)
    d = build(schema)
    c.rec('schema', repr(schema))
    try:
        str(d), repr(d)
    except Exception as e:
        c.fail('schema-not-printable', 'str() of a schema failed', schema=repr(schema), error=repr(e))
    for _ in range(12):
        judge(c, 'by-hand', d, schema, gen_value(c.rng, schema))


@CHECK.scenario(quick=120, thorough=4000)
def from_dict(c):
    """The dictionary form of a schema decides the same"""
    for _ in range(20):
        schema = 'dict', gen_fields(c.rng, 0)
        if dict_form_ok(schema) and 'type' not in schema[1]:
            break
    else:
        return
    form = as_entry(c.rng, schema)
    form = disguise(c.rng, form, c.rng.choice([0, 0, 0.5]), False, ('default',))
    snapshot = copy.deepcopy(form)
    d = descriptor_from_dict(form)
    c.expect(same(form, snapshot), 'from-dict-form-changed', 'descriptor_from_dict changed its argument', form=repr(form))
    c.rec('schema', repr(form))
    for _ in range(12):
        judge(c, 'from-dict', d, schema, gen_value(c.rng, schema), form=repr(form)[:400])


@CHECK.scenario(quick=40, thorough=600)
def malformed_schema(c):
    """A schema that does not make sense is refused upfront with a schema error"""
    rng = c.rng
    bad = rng.choice(['no_such', 'list', 'union', 'caster', 'INT', 'int ', {'type': 'no_such'}, {'type': 'no_such', 'optional': True},
                      5, None, 2.5, [], {'type': 'list', 'of': 'no_such'}, {'type': 'union', 'of': ['int', 'no_such']},
                      {'x': 'no_such'}, {'type': 'list', 'of': {'type': 'zzz'}}])
    form = {'good': 'int', 'bad': bad}
    for _ in range(rng.randrange(3)):
        form = {'lvl': form, 'f': 'str'}
    try:
        d = descriptor_from_dict(form)
    except ConfigurationSchemaError:
        c.count('refused')
    except Exception as e:
        c.fail('malformed-schema-foreign', 'a malformed schema was reported with a foreign exception', form=repr(form), error=repr(e))
    else:
        c.fail('malformed-schema-accepted', 'a malformed schema was accepted', form=repr(form))
    c.expect(True, 'x', '')
    c.rec('form', repr(form))


@CHECK.scenario(quick=40, thorough=600)
def checkers(c):
    """Additional checkers: those before see the raw value, those after see the converted one, all have to agree"""
    rng = c.rng
    base = rng.choice([Integer, Float, String, Boolean])
    conv = {Integer: int, Float: float, String: str}.get(base)
    d = base()
    seen, conds = [], []
    for i in range(rng.randrange(1, 5)):
        pre = rng.random() < 0.5
        ok = rng.random() < 0.75

        def cond(v, i=i, ok=ok):
            seen.append((i, v))
            return ok
        conds.append((pre, ok))
        d.add_checker(CheckerCondition(cond, 'check %s' % i, is_pre_checker=pre))
    for _ in range(3):
        v = rng.choice(['1', '0', '25', 'true']) if conv is None or rng.random() < 0.5 else rng.choice([1, 3, True])
        del seen[:]
        fits = True
        try:
            want = model(({Integer: 'int', Float: 'float', String: 'str', Boolean: 'bool'}[base],), v)
        except Bad:
            fits, want = False, None
        expected = all(ok for pre, ok in conds) and fits
        try:
            got = d(v)
        except ConfigurationValidationError:
            c.expect(not expected, 'checkers-rejected', 'value rejected though every checker agreed', conds=conds, value=repr(v))
        except Exception as e:
            c.fail('checkers-foreign', 'a foreign exception', error=repr(e), conds=conds, value=repr(v))
        else:
            c.expect(expected, 'checkers-accepted', 'value accepted though a checker objected', conds=conds, value=repr(v))
            c.expect(same(got, want), 'checkers-result', 'wrong result', conds=conds, value=repr(v), result=repr(got))
            c.eq(sorted(i for i, _ in seen), list(range(len(conds))), 'checkers-not-run',
                 'each checker has to be run exactly once', conds=conds)
        for i, x in seen:
            c.expect(same(x, v if conds[i][0] else want), 'checkers-wrong-stage', 'a checker saw the value at a wrong stage',
                     conds=conds, value=repr(v), checker=i, seen=repr(x))
    # one of a set, of the values as converted
    kind = {Integer: 'int', Float: 'float', String: 'str', Boolean: 'bool'}[base]
    allowed = rng.choice([(1, 2), ('1', 'true'), (True,), (0, '0'), (25.0, 0.0)])
    one = base()
    one.add_checker(must_be_one_of(*allowed))
    for v in ('1', '0', '25', 'true', 1, 0, 25, 2, True, False, 'x'):
        try:
            want = model((kind,), v)
            fits = want in allowed
        except Bad:
            fits, want = False, None
        try:
            got = one(v)
        except ConfigurationValidationError:
            c.expect(not fits, 'one-of-rejected', 'one of the allowed values was rejected', allowed=allowed, value=v)
        else:
            c.expect(fits and same(got, want), 'one-of-accepted', 'wrong value accepted', allowed=allowed, value=v, result=repr(got))
    del seen[:]
    base()('1' if base is not Boolean else 'true')
    c.eq(seen, [], 'checkers-shared', 'a checker added to one descriptor is run by another')


@CHECK.scenario(quick=40, thorough=800)
def custom(c):
    """Registered descriptors are reachable by name, regexps accept what they match"""
    rng = c.rng
    name = 'vz_%s_%s' % (c.index, rng.randrange(10 ** 9))
    pattern, good, bad = rng.choice([(r'[a-f]+\Z', ['a', 'fade'], ['xyz', '', 'g']), (r'\d+x\Z', ['1x', '007x'], ['x', '1', 'x1']),
                                     (r'(ab)*c\Z', ['c', 'ababc'], ['abab', 'd']),
                                     (r'[ab]*', ['', 'a', 'abba'], []), (r'a?b?', ['', 'a', 'ab', 'b'], [])])
    compiled = rng.random() < 0.4

    try:
        import re
        cls = type('Custom', (Regexp,), {'REGEXP': re.compile(pattern) if compiled else pattern})
        got = register_custom_descriptor(name)(cls)
        c.expect(got is cls, 'custom-register', 'the decorator has to return the class')
        form = {'k': name if rng.random() < 0.5 else {'type': name}, 'l': {'type': 'list', 'of': name}}
        d = descriptor_from_dict(form)
        for inst in (cls(), d.keys['k']):
            try:
                c.expect(pattern in str(inst), 'regexp-str', 'str() does not show the pattern', shown=str(inst))
            except Exception as e:
                c.fail('regexp-str-raises', 'str() of a regexp descriptor failed', error=repr(e))
        for v in good:
            c.eq(d({'k': v, 'l': [v, v]}), {'k': v, 'l': [v, v]}, 'custom-good', 'a matching value was changed')
            c.eq(d({'k': v + 'zz', 'l': []}), {'k': v, 'l': []}, 'custom-prefix', 'what matches is the value', value=v) \
                if not pattern.endswith('Z') else None
        for v in bad:
            for val in ({'k': v, 'l': []}, {'k': good[0], 'l': [good[0], v]}):
                try:
                    r = d(val)
                except ConfigurationValidationError as e:
                    c.count('rejected')
                    c.expect(True, 'x', '')
                    str(e)
                except Exception as e:
                    c.fail('custom-foreign', 'a foreign exception for a value that does not match', value=v, error=repr(e))
                else:
                    c.fail('custom-bad', 'a value that does not match was accepted', value=v, result=r)
    finally:
        BASE_LOOKUP_TABLE.pop(name, None)
        PLAIN_ENTRIES.discard(name)
    c.raises(ConfigurationSchemaError, lambda: descriptor_from_dict({'k': name}), 'custom-unknown')


@CHECK.scenario(quick=40, thorough=800)
def unknown_keys(c):
    """Unknown keys go through the mapper exactly once each, known ones never"""
    rng = c.rng
    calls = []

    def mapper(k, v):
        calls.append((k, v))
        return 'mapped', k, v
    names = rng.sample('abcdef', 3)
    d = Dict([create_key(Integer(), n, optional=True, default=n) for n in names], unknown_key_mapper=mapper)
    given = {k: rng.randrange(10) for k in rng.sample('abcdefgh', rng.randrange(8))}
    got = d(given)
    want = {n: given.get(n, n) for n in names}
    for k, v in given.items():
        if k not in names:
            want[k] = 'mapped', k, v
    c.eq(got, want, 'unknown-keys', 'wrong result with a mapper of unknown keys', given=given, known=names)
    c.eq(sorted(calls), sorted((k, v) for k, v in given.items() if k not in names), 'unknown-keys-calls', 'wrong calls of the mapper')


@CHECK.scenario(quick=40, thorough=600)
def files(c):
    rng = c.rng
    tmp = c.tmpdir()
    state = {}
    for name in ('one', 'two', 'three', 'four', 'dir/five', 'dir'):
        if name == 'dir':
            os.makedirs(os.path.join(tmp, 'dir'), exist_ok=True)
            state[name] = None
        elif rng.random() < 0.7:
            p = os.path.join(tmp, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            data = rng.choice([b'', b'abc', b'  abc \n', 'zażółć\n'.encode(), b'\xff\xfe\x00', b'\r\nx\r\n', b'\x00' * 5000])
            with open(p, 'wb') as f:
                f.write(data)
            state[name] = data
    state.setdefault('dir', None)
    for name in ('one', 'two', 'three', 'four', 'dir/five', 'dir', 'missing', 'one/below', ''):
        p = os.path.join(tmp, name) if name else ''
        here = name in state
        isfile = here and state[name] is not None
        isdir = here and state[name] is None
        enc = rng.choice([None, 'utf-8', 'latin-1'])
        strip = rng.random() < 0.5
        want = None
        fits = isfile
        if isfile:
            want = state[name]
            if enc:
                try:
                    want = want.decode(enc)
                except UnicodeDecodeError:
                    fits = False
            if strip and fits:
                want = want.strip()
        form = rng.random() < 0.5
        if form:
            e = {'type': 'file_contents'}
            if enc:
                e['encoding'] = enc
            if strip:
                e['strip_afterwards'] = True
            if not enc and not strip and rng.random() < 0.5:
                e = 'file_contents'
            s = descriptor_from_dict({'f': e})
            def contents(v, s=s):
                return s({'f': v})['f']
        else:
            contents = FileContents(enc, strip)
        for what, fn, ok, check in (
                ('file', File(), isfile, lambda r: isinstance(r, FileObject) and r.path == p and str(r) == p
                 and r.get_value() == state[name] and r == FileObject(p) and hash(r) == hash(FileObject(p)) and r != FileObject(p + 'x')
                 and r != DirectoryObject(p)),
                ('directory', Directory(), isdir, lambda r: isinstance(r, DirectoryObject) and r.path == p and str(r) == p
                 and sorted(r.get_files()) == sorted(os.listdir(p)) and r == DirectoryObject(p) and r != DirectoryObject(p + 'x')),
                ('contents', contents, fits, lambda r: type(r) is type(want) and r == want)):
            try:
                r = fn(p)
            except ConfigurationValidationError:
                c.expect(not ok, 'files-%s-rejected' % what, 'a fitting path was rejected', name=name, encoding=enc)
            except Exception as e:
                c.fail('files-%s-foreign' % what, 'a foreign exception', name=name, encoding=enc, error=repr(e))
            else:
                c.expect(ok, 'files-%s-accepted' % what, 'a path that does not fit was accepted', name=name, encoding=enc,
                         result=repr(r)[:200])
                if ok:
                    c.expect(check(r), 'files-%s-wrong' % what, 'wrong object', name=name, encoding=enc, strip=strip,
                             result=repr(r)[:200], expected=repr(want)[:200])
    for name, data in state.items():
        if data is not None:
            for e2 in ('utf-8', 'latin-1', 'utf-16'):
                try:
                    text = data.decode(e2)
                except UnicodeError:
                    c.raises(UnicodeError, lambda: FileObject(os.path.join(tmp, name)).get_value(e2), 'files-undecodable')
                else:
                    c.eq(FileObject(os.path.join(tmp, name)).get_value(encoding=e2), text, 'files-decoded', 'text of a file')
            with FileObject(os.path.join(tmp, name)).open('rb') as f:
                c.eq(f.read(), data, 'files-open', 'FileObject.open reads something else')


@CHECK.scenario(quick=30, thorough=600)
def casters(c):
    rng = c.rng
    form = {'e': {'type': 'caster', 'cast_to': '%s.Color' % (__name__,), 'expr': 'y(int(x))'},
            'i': {'type': 'caster', 'cast_to': 'int', 'expr': 'y(x) * 2'}, 's': {'type': 'caster', 'cast_to': 'str'}}
    d = descriptor_from_dict(form)
    for _ in range(6):
        e, i, s = rng.choice(['1', 2, '2', 3, 'x', None]), rng.choice([1, '5', 'q', None]), rng.choice([1, 'x', None])
        try:
            want = {'e': Color(int(e)), 'i': int(i) * 2, 's': str(s)}
        except (ValueError, TypeError):
            want = None
        try:
            got = d({'e': e, 'i': i, 's': s})
        except ConfigurationValidationError:
            c.expect(want is None, 'caster-rejected', 'a fitting value was rejected', value=(e, i, s))
        except Exception as ex:
            c.fail('caster-foreign', 'a foreign exception', value=(e, i, s), error=repr(ex))
        else:
            c.eq(got, want, 'caster-wrong', 'a caster produced something else', value=(e, i, s))
    try:
        str(d)
    except Exception as ex:
        c.fail('caster-str', 'str() failed', error=repr(ex))


@CHECK.scenario(quick=12, thorough=200)
def concurrent(c):
    """One schema object used by several threads at once decides for each of them separately"""
    schema = 'dict', {'a': (('int',), False, None), 'l': (('list', ('union', [('int',), ('bool',)])), True, 'dflt'),
                      'd': (('dict', {'x': (('ipv4',), True, None)}), False, None)}
    d = build(schema)
    work = [[gen_value(c.rng, schema) for _ in range(3)] for _ in range(3)]

    def worker(values):
        def run():
            for v in values:
                judge(c, 'concurrent', d, schema, v)
        return run

    def body(_):
        c.go(*[worker(w) for w in work])
    c.sched(body, gran='line')
