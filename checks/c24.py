"""C24: configuration sources yield what they hold, combine by the documented rules and fail with ConfigurationError only"""
import copy
import http.server
import json
import os
import threading
import warnings

from checks.common import disguise
from vlib.harness import Check

import satella.coding
from satella.coding import merge_dicts
from satella.configuration import sources
from satella.configuration.sources import (AlternativeSource, BaseSource, BuildObjectFrom, DirectorySource, EnvVarsSource,
                                           EnvironmentSource, FileSource, JSONSource, MergingSource, OptionalSource,
                                           StaticSource, load_source_from_dict, load_source_from_list)
from satella.exceptions import ConfigurationError

TOML = getattr(sources, 'TOMLSource', None)
YAML = getattr(sources, 'YAMLSource', None)
HTTP = getattr(sources, 'HTTPJSONSource', None)

CHECK = Check('C24', 'A case is one random tree of sources (also built from its dictionary form), or one random directory of good, '
                     'bad and odd files, provided several times; distinct by structure; non-trivial if at least two oracle '
                     'evaluations took place')

SILENT, RAISE = MergingSource.SILENT, MergingSource.RAISE


class Fails(Exception):
    """The model's verdict that the source fails"""


class FailingSource(BaseSource):
    def provide(self):
        raise ConfigurationError('planned')


def gen_conf(rng, depth=0):
    out = {}
    for _ in range(rng.randrange(5)):
        k = rng.choice('abcdefg')
        r = rng.random()
        if r < 0.35 and depth < 3:
            out[k] = gen_conf(rng, depth + 1)
        elif r < 0.6:
            out[k] = [rng.randrange(10) for _ in range(rng.randrange(3))]
        elif r < 0.65 and depth < 3:
            out[k] = [gen_conf(rng, depth + 1)]
        else:
            out[k] = rng.choice([rng.randrange(100), 'str', 'zażółć', True, 2.5, '', 0, False])
    return out


def merged(a, b):
    """what merging b over a gives; never modifies anything"""
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k in b:
            out[k] = merged(a[k], b[k]) if k in a else b[k]
        return out
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    return b


# ------------------------------------------------------------ trees of sources: model, objects, dictionary form
def gen_tree(rng, depth=0):
    r = rng.random()
    if depth >= 3 or r < 0.4:
        return ('static', gen_conf(rng)) if rng.random() < 0.75 else ('fail',)
    if r < 0.6:
        return 'merge', [gen_tree(rng, depth + 1) for _ in range(rng.randrange(5))], rng.choice([SILENT, RAISE]), rng.random() < 0.5
    if r < 0.78:
        return 'alt', [gen_tree(rng, depth + 1) for _ in range(rng.randrange(1, 4))]
    if r < 0.9:
        return 'opt', gen_tree(rng, depth + 1)
    return 'build', rng.choice('abc'), gen_tree(rng, depth + 1)


def evaluate(t):
    k = t[0]
    if k == 'static':
        return t[1]
    if k == 'fail':
        raise Fails()
    if k == 'opt':
        try:
            return evaluate(t[1])
        except Fails:
            return {}
    if k == 'alt':
        for s in t[1]:
            try:
                return evaluate(s)
            except Fails:
                pass
        raise Fails()
    if k == 'build':
        return {t[1]: evaluate(t[2])}
    out, good = {}, 0
    for s in t[1]:
        try:
            v = evaluate(s)
            good += 1
        except Fails:
            if t[2] == RAISE:
                raise
            continue
        out = merged(out, v)
    if t[1] and not good and t[3]:
        raise Fails()
    return out


def build(rng, t):
    k = t[0]
    if k == 'static':
        if rng.random() < 0.3:
            return JSONSource(json.dumps(t[1]))
        return StaticSource(disguise(rng, t[1]) if rng.random() < 0.5 else t[1])
    if k == 'fail':
        return FailingSource() if rng.random() < 0.5 else EnvironmentSource('VZ_SURELY_NOT_SET')
    if k == 'opt':
        return OptionalSource(build(rng, t[1]))
    if k == 'alt':
        return AlternativeSource(*[build(rng, s) for s in t[1]])
    if k == 'build':
        return BuildObjectFrom(t[1], build(rng, t[2]))
    return MergingSource(*[build(rng, s) for s in t[1]], on_fail=t[2], fail_if_no_sources_are_correct=t[3])


def has_type(v):
    return isinstance(v, dict) and ('type' in v or any(map(has_type, v.values())))


def form(rng, t):
    k = t[0]
    if k == 'static':
        if rng.random() < 0.3:
            return {'type': 'JSONSource', rng.choice(['arg', 'root']): json.dumps(t[1])}
        return rng.choice([{'type': 'StaticSource', 'args': [t[1]]}, {'type': 'StaticSource', 'arg': t[1]},
                           {'type': 'StaticSource', 'config': t[1]}])
    if k == 'fail':
        return rng.choice([{'type': 'EnvironmentSource', 'arg': 'VZ_SURELY_NOT_SET'},
                           {'type': 'EnvironmentSource', 'args': ['VZ_SURELY_NOT_SET', 'name']},
                           {'type': 'EnvVarsSource', 'env_name': 'VZ_SURELY_NOT_SET'},
                           {'type': 'FileSource', 'path': '/nonexistent/vz'}])
    if k == 'opt':
        inner = form(rng, t[1])
        if 'optional' not in inner and rng.random() < 0.6:
            inner['optional'] = True
            return inner
        return {'type': 'OptionalSource', 'args': [inner]}
    if k == 'alt':
        return {'type': 'AlternativeSource', 'args': [form(rng, s) for s in t[1]]}
    if k == 'build':
        if rng.random() < 0.5:
            return {'type': 'BuildObjectFrom', 'args': [t[1], form(rng, t[2])]}
        return {'type': 'BuildObjectFrom', 'key': t[1], 'child': form(rng, t[2])}
    return {'type': 'MergingSource', 'args': [form(rng, s) for s in t[1]], 'on_fail': t[2], 'fail_if_no_sources_are_correct': t[3]}


def judge(c, key, src, t, rounds=3):
    snapshot = copy.deepcopy(t)
    try:
        want = copy.deepcopy(evaluate(t))
    except Fails:
        want = None
    for i in range(rounds):
        try:
            got = src.provide()
        except ConfigurationError as e:
            c.expect(want is None, key + '-failed', 'a source failed although it has a configuration to give', tree=repr(t)[:800],
                     round=i, error=repr(e)[:200])
            c.count('failures')
        except Exception as e:
            c.fail(key + '-foreign-exception', 'something else than ConfigurationError was raised', tree=repr(t)[:800], error=repr(e)[:200])
        else:
            c.expect(want is not None, key + '-should-fail', 'a source succeeded although it should fail', tree=repr(t)[:800],
                     provided=repr(got)[:300])
            if want is not None:
                c.eq(got, want, key + '-wrong' if i == 0 else key + '-not-repeatable', 'wrong configuration', tree=repr(t)[:800], round=i)
                c.count('provided')
    c.expect(t == snapshot, key + '-sources-changed', 'providing changed the configuration held by a source', tree=repr(t)[:800],
             original=repr(snapshot)[:800])
    repr(src)


@CHECK.scenario(quick=150, thorough=5000)
def trees(c):
    t = gen_tree(c.rng)
    c.rec('tree', repr(t))
    judge(c, 'tree', build(c.rng, t), t)


@CHECK.scenario(quick=100, thorough=3000)
def tree_forms(c):
    t = gen_tree(c.rng)
    f = form(c.rng, t)
    c.rec('form', repr(f))
    before = copy.deepcopy(f)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c.rng.random() < 0.3:
            t = 'merge', [t, ('static', {'q': 1})], RAISE, True
            src = load_source_from_list([f, {'type': 'StaticSource', 'arg': {'q': 1}}])
        else:
            src = load_source_from_dict(f)
    judge(c, 'form', src, t)
    c.eq(f, before, 'form-changed', 'loading changed the dictionary form')


@CHECK.scenario(quick=40, thorough=800)
def form_arguments(c):
    """Arguments of dictionary forms: binary and lambdas are interpreted, dictionaries of an unknown type are left alone"""
    rng = c.rng
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        conf = gen_conf(rng)
        enc = rng.choice(['ascii', 'utf-8', 'latin-1'])
        e = {'type': 'binary', 'value': json.dumps(conf, ensure_ascii=True)}
        if enc != 'ascii':
            e['encoding'] = enc
        s = load_source_from_dict({'type': 'JSONSource', 'args': [e]})
        c.expect(isinstance(s.root, bytes) or s.provide() == conf, 'form-binary-type', 'binary argument is not bytes')
        c.eq(s.provide(), conf, 'form-binary', 'wrong configuration of a binary argument')
        os.environ['VZ_FORM'] = str(rng.randrange(100))
        try:
            s = load_source_from_dict({'type': 'EnvironmentSource', 'env_name': 'VZ_FORM', 'config_name': 'n',
                                       'cast_to': rng.choice([{'type': 'lambda', 'operation': 'int(x)+1'},
                                                              {'type': 'import', 'module': 'builtins', 'attribute': 'hex',
                                                               'cast_before': {'type': 'lambda', 'operation': 'int(x)'}}])})
            v = s.provide()['n']
            n = int(os.environ['VZ_FORM'])
            c.expect(v in (n + 1, hex(n)), 'form-cast', 'wrong value cast', value=v, env=n)
        finally:
            del os.environ['VZ_FORM']
        missing = {'type': 'FileSource', 'path': '/no/such/file-%d' % rng.randrange(100)}
        for flag in (True, False, None):
            f = dict(missing)
            if flag is not None:
                f['optional'] = flag
            c.eq(load_source_from_dict(dict({k: v for k, v in f.items() if k == 'optional'}, type='StaticSource', config={'q': 1})).provide(),
                 {'q': 1}, 'form-optional-present', form=f)
            got = c.attempt(lambda: load_source_from_dict(f).provide())
            c.count('optional-forms')
            if flag:
                c.eq(got, ('ok', {}), 'form-optional', 'an optional source that is missing gives nothing')
            else:
                c.expect(got[0] == 'exc' and isinstance(got[1], ConfigurationError), 'form-required',
                         'a source that is missing was accepted', form=f, result=repr(got))
        odd = {'type': rng.choice(['no such', 'x', 'mysql', '']), 'v': rng.randrange(10)}
        for f in ({'type': 'StaticSource', 'args': [odd]}, {'type': 'StaticSource', 'config': odd}):
            c.eq(load_source_from_dict(f).provide(), odd, 'form-odd-type', 'a dictionary with an unrelated type has to be left alone')
    for bad in ({'type': 'no such'}, {'args': []}, {'type': 'StaticSource'}, {'type': 'StaticSource', 'wrong_kwarg': 5},
                {'type': 'OptionalSource', 'args': [{'type': 'StaticSource'}]}, {'type': 'JSONSource', 'args': [1, 2, 3, 4]}):
        try:
            load_source_from_dict(bad)
        except ConfigurationError:
            c.count('refused')
            c.expect(True, 'x', '')
        except Exception as e:
            c.fail('form-bad-foreign', 'a malformed form was reported with a foreign exception', form=bad, error=repr(e))
        else:
            c.fail('form-bad-accepted', 'a malformed form was accepted', form=bad)


@CHECK.scenario(quick=80, thorough=2000)
def merging(c):
    """merge_dicts itself: result, in-place contract, second argument untouched"""
    a, b = gen_conf(c.rng), gen_conf(c.rng)
    want = merged(a, copy.deepcopy(b))
    want = copy.deepcopy(want)
    b0 = copy.deepcopy(b)
    if c.rng.random() < 0.5:
        a, b = disguise(c.rng, a), disguise(c.rng, b)
    got = merge_dicts(a, b)
    c.eq(got, want, 'merge-dicts', 'wrong result', first=a, second=b0)
    c.expect(got is a, 'merge-dicts-in-place', 'the first dictionary has to be updated in-place')
    c.eq(b, b0, 'merge-dicts-second', 'the second argument was changed')
    for x, y in ((1, 2), ({}, 5), ([], {}), ('a', None), ([1], 'x'), ({}, [])):
        c.eq(merge_dicts(x, y), y, 'merge-dicts-odd', 'the second one has to be returned')


def without_lists_of_dicts(conf):
    """the writer of TOML (not satella's) loses empty dictionaries in lists"""
    return {k: without_lists_of_dicts(v) if isinstance(v, dict) else v for k, v in conf.items()
            if not (isinstance(v, list) and any(isinstance(x, dict) for x in v))}


def dump(fmt, conf):
    if fmt == 'json':
        return json.dumps(conf, ensure_ascii=False)
    if fmt == 'toml':
        import toml
        return toml.dumps(conf)
    import yaml
    return yaml.safe_dump(conf, allow_unicode=True)


FORMATS = ['json'] + (['toml'] if TOML else []) + (['yaml'] if YAML else [])
BROKEN = [b'\xff\xfe\xfa{', b'{"a": ', b'[1, 2]', b'"just a string"', b'5', b'{"a": 1} trailing', b': : :\n\t-', b'', b'null', b'[a\nb=',
          b'a: b: c', b'%&!', b'- a\n- b\n', b'\x00\x01']


@CHECK.scenario(quick=80, thorough=2000)
def formats(c):
    """Each format gives what was written in it and refuses everything that is not a dictionary"""
    rng = c.rng
    conf = without_lists_of_dicts(gen_conf(rng))
    for fmt in FORMATS:
        cls = {'json': JSONSource, 'toml': TOML, 'yaml': YAML}[fmt]
        text = dump(fmt, conf)
        enc = rng.choice(['utf-8', 'utf-16', 'utf-8'])
        for root in (text, text.encode(enc)):
            s = cls(root, encoding=enc)
            for i in range(2):
                c.eq(s.provide(), conf, 'format-%s' % fmt, 'another configuration was read than written', text=text, round=i)
        tmp = os.path.join(c.tmpdir(), 'f')
        with open(tmp, 'wb') as f:
            f.write(text.encode(enc))
        want = [{'json': 'JSONSource', 'toml': 'TOMLSource', 'yaml': 'YAMLSource'}[fmt], cls]
        c.eq(FileSource(tmp, enc, interpret_as=[rng.choice(want)]).provide(), conf, 'file-%s' % fmt, 'another configuration was read')
        if fmt == 'json' or enc == 'utf-8':
            c.eq(FileSource(tmp, enc).provide(), conf, 'file-guessed-%s' % fmt, 'another configuration was read', text=text)
    if fmt == FORMATS[-1]:
        # bytes that are not of the encoding
        for fmt in FORMATS:
            cls = {'json': JSONSource, 'toml': TOML, 'yaml': YAML}[fmt]
            for enc, text in (('utf-8', '\xe9'.encode('latin-1')), ('ascii', 'ż'.encode()), ('utf-8', b'\xff\xfe')):
                data = {'json': b'{"a": "%s"}', 'toml': b'a = "%s"\n', 'yaml': b'a: "%s"\n'}[fmt] % text
                got = c.attempt(lambda: cls(data, encoding=enc).provide())
                c.expect(got[0] == 'exc' and isinstance(got[1], ConfigurationError), 'format-undecodable',
                         'bytes that cannot be decoded were accepted, or reported with a foreign exception', format=fmt,
                         data=repr(data), encoding=enc, result=repr(got))
    for data in rng.sample(BROKEN, 4) + [bytes(rng.choice(b'{}[]":,=ab1 \n-\xff') for _ in range(rng.randrange(12)))]:
        for fmt in FORMATS:
            cls = {'json': JSONSource, 'toml': TOML, 'yaml': YAML}[fmt]
            try:
                r = cls(data).provide()
            except ConfigurationError:
                c.count('refused')
                c.expect(True, 'x', '')
            except Exception as e:
                c.fail('format-foreign', 'a broken document was reported with a foreign exception', format=fmt, data=repr(data), error=repr(e))
            else:
                c.expect(isinstance(r, dict), 'format-non-dict', 'something else than a dictionary was provided', data=repr(data), result=repr(r))


@CHECK.scenario(quick=40, thorough=800)
def environment(c):
    rng = c.rng
    name = 'VZ_ENV_%s' % rng.randrange(10 ** 9)
    kept = EnvironmentSource(name), EnvironmentSource(name, 'cfg'), EnvVarsSource(name)
    try:
        for _ in range(6):
            v = rng.choice([None, '', '5', '{"a": 1}', 'zażółć', '{"a":', '[1]', json.dumps(gen_conf(rng))])
            if v is None:
                os.environ.pop(name, None)
            else:
                os.environ[name] = v
            again = rng.random() < 0.5
            for src, want in ((kept[0] if again else EnvironmentSource(name), None if v is None else {name: v}),
                              (kept[1] if again else EnvironmentSource(name, 'cfg'), None if v is None else {'cfg': v}),
                              (kept[2] if again else EnvVarsSource(name), json.loads(v) if v and v.startswith('{') and v.endswith('}') else None)):
                try:
                    got = src.provide()
                except ConfigurationError:
                    got = None
                except Exception as e:
                    c.fail('env-foreign', 'a foreign exception', value=v, error=repr(e))
                    continue
                c.eq(got, want, 'env', 'wrong configuration of an environment variable', value=v, source=type(src).__name__)
                c.count('environments')
    finally:
        os.environ.pop(name, None)


@CHECK.scenario(quick=60, thorough=1500)
def directories(c):
    """A directory is the merge of all of its files, in whatever order, under each failure policy and relative to any directory"""
    rng = c.rng
    root = c.tmpdir()
    top = os.path.join(root, 'conf')
    os.makedirs(top)
    used, parts, broken_at, nested = set(), {}, [], False
    for i in range(rng.randrange(6)):
        sub = rng.choice(['', '', 'sub', 'sub/deeper'])
        nested = nested or bool(sub)
        d = os.path.join(top, sub)
        os.makedirs(d, exist_ok=True)
        fn = 'f%s.%s' % (i, rng.choice(['json', 'yml', 'conf', 'skip']))
        p = os.path.join(d, fn)
        if rng.random() < 0.2:
            data = rng.choice([b'\xff\xfe\xfa{', b'[1, 2]', b'{"a": '])
            with open(p, 'wb') as f:
                f.write(data)
            parts[p] = sub, None
        else:
            conf = {'k%s' % i: rng.randrange(100), 'shared': {'n%s' % i: [i], 'deep': {'m%s' % i: 'x'}}}
            with open(p, 'w') as f:
                f.write(json.dumps(conf))
            parts[p] = sub, conf
    if rng.random() < 0.4:
        os.mkfifo(os.path.join(top, 'fifo'))
    if rng.random() < 0.3:
        os.symlink('/nonexistent/vz', os.path.join(top, 'dangling'))
    scan = rng.random() < 0.6
    skip = rng.random() < 0.5
    on_fail = rng.choice([RAISE, SILENT])
    kw = {}
    if skip:
        kw['fname_filter'] = lambda p: not p.endswith('.skip')
    chosen = {p: conf for p, (sub, conf) in parts.items() if (scan or not sub) and not (skip and p.endswith('.skip'))}
    good = [v for v in chosen.values() if v is not None]
    want = {}
    for v in good:
        want = merged(want, v)
    if on_fail == RAISE and len(good) < len(chosen) or chosen and not good:
        want = None
    cwd = os.getcwd()
    relative = rng.random() < 0.5
    c.rec('directory', repr((sorted((os.path.relpath(p, top), s, v is None) for p, (s, v) in parts.items()), scan, skip, on_fail, relative)))
    try:
        path = top
        if relative:
            os.chdir(root)
            path = rng.choice(['conf', './conf'])
        src = DirectorySource(path, scan_subdirectories=scan, on_fail=on_fail, interpret_as=['JSONSource'], **kw)
        for i in range(2):
            try:
                got = src.provide()
            except ConfigurationError as e:
                c.expect(want is None, 'directory-failed', 'the directory was not loaded', relative=relative, error=repr(e)[:200])
            except Exception as e:
                c.fail('directory-foreign', 'a foreign exception', error=repr(e))
            else:
                c.eq(got, want, 'directory-wrong', 'wrong configuration of a directory', relative=relative, scan=scan, skip=skip, on_fail=on_fail)
        for p, (sub, conf) in parts.items():
            try:
                got = FileSource(os.path.relpath(p) if relative else p, interpret_as=['JSONSource']).provide()
            except ConfigurationError:
                got = None
            c.eq(got, conf, 'file-wrong', 'wrong configuration of a file')
        missing = DirectorySource(os.path.join(path, 'missing'), on_fail=on_fail)
        if on_fail == RAISE:
            c.raises(ConfigurationError, missing.provide, 'directory-missing')
        else:
            c.eq(missing.provide(), {}, 'directory-missing-silent', 'a missing directory has to be silently skipped')
        c.raises(ConfigurationError, FileSource(os.path.join(path, 'missing')).provide, 'file-missing')
        c.raises(ConfigurationError, FileSource(path).provide, 'file-is-directory')
    finally:
        os.chdir(cwd)


@CHECK.scenario(quick=6, thorough=60)
def http_source(c):
    """Configuration fetched over HTTP from a local server"""
    if HTTP is None:
        return
    rng = c.rng
    plan = {}

    class H(http.server.BaseHTTPRequestHandler):
        def do(self):
            code, body = plan['answer']
            plan['method'] = self.command
            plan['header'] = self.headers.get('X-Test')
            self.send_response(code)
            self.send_header('Content-Length', str(len(body)))
            self.end_headers()
            self.wfile.write(body)
        do_GET = do_POST = do

        def log_message(self, *a):
            pass
    srv = http.server.HTTPServer(('127.0.0.1', 0), H)
    port = srv.server_address[1]
    th = threading.Thread(target=srv.serve_forever, kwargs={'poll_interval': 0.01}, daemon=True)
    th.start()
    try:
        for _ in range(4):
            conf = gen_conf(rng)
            code = rng.choice([200, 200, 201, 400, 404, 500, 503])
            broken = rng.random() < 0.25
            plan['answer'] = code, b'{"a": ' if broken else json.dumps(conf).encode()
            method = rng.choice(['GET', 'POST'])
            src = HTTP('http://127.0.0.1:%s/x' % port, method, headers={'X-Test': 'v'})
            try:
                got = src.provide()
            except ConfigurationError:
                c.expect(code >= 400 or broken, 'http-failed', 'a good answer was refused', code=code)
            except Exception as e:
                c.fail('http-foreign', 'a foreign exception', code=code, error=repr(e))
            else:
                c.expect(code < 400 and not broken, 'http-accepted', 'a bad answer was accepted', code=code)
                c.eq(got, conf, 'http-wrong', 'wrong configuration')
            c.eq((plan['method'], plan['header']), (method, 'v'), 'http-request', 'wrong request')
    finally:
        srv.shutdown()
        srv.server_close()
        th.join()
    c.raises(ConfigurationError, HTTP('http://127.0.0.1:%s/x' % port).provide, 'http-unreachable')


class Foreign(Exception):
    pass


class ForeignSource(BaseSource):
    def __init__(self, exc):
        super().__init__()
        self.exc = exc
        self.calls = 0

    def provide(self):
        self.calls += 1
        raise self.exc


@CHECK.scenario(quick=40, thorough=1500)
def foreign_failures(c):
    """Only a ConfigurationError makes a combination of sources carry on; a source that has failed in another way is not passed over"""
    rng = c.rng
    conf = gen_conf(rng)
    good = StaticSource(conf)
    exc = rng.choice([Foreign('x'), OSError(5, 'io'), MemoryError(), KeyboardInterrupt(), ZeroDivisionError(), StopIteration()])
    bad = ForeignSource(exc)
    for src in (AlternativeSource(bad, good), AlternativeSource(FailingSource(), bad, good), OptionalSource(bad),
                MergingSource(good, bad, on_fail=SILENT), MergingSource(bad, good, on_fail=RAISE), BuildObjectFrom('k', bad)):
        before = bad.calls
        try:
            got = src.provide()
        except BaseException as e:      # noqa
            c.expect(e is exc, 'foreign-replaced', 'a failure of a source came out as another one', error=repr(e), raised=repr(exc), source=repr(src))
        else:
            c.fail('foreign-swallowed', 'a failure other than ConfigurationError has been passed over', raised=repr(exc), provided=repr(got),
                   source=repr(src))
        c.eq(bad.calls, before + 1, 'foreign-once', 'a source should be asked once')
    # sources after the one that succeeded are not asked for their configurations
    c.eq(AlternativeSource(FailingSource(), good, bad).provide(), conf, 'alternative-first-good')
    # each of sources is asked once
    once = []

    class Counting(StaticSource):
        def provide(self):
            once.append(1)
            return super().provide()
    n = rng.randrange(1, 4)
    MergingSource(*[Counting(conf) for _ in range(n)]).provide()
    c.eq(len(once), n, 'merging-asks-once')
    # an invalid policy does not get a failing source passed over
    c.raises(ConfigurationError, MergingSource(good, FailingSource(), on_fail=rng.choice([2, -1, 'raise', None])).provide, 'invalid-policy')
    c.rec((repr(exc), repr(conf), n))


if __name__ == '__main__':
    CHECK.main()
