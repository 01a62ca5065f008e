"""C28: decorators and calling helpers pass arguments and results exactly as the wrapped callable sees them"""
import collections
import copy
import inspect
import queue
import warnings

from vlib.harness import Check
from checks.common import Boom, BoomBase, MyDict, MyInt, MyList, MyStr, MyTuple, pause

from satella.coding.metaclasses import metaclass_maker_f
from satella.coding import (overload, class_or_instancemethod, static_var, CopyDocsFrom, DocsFromParent, metaclass_maker,
                            wrap_property, wrap_with, dont_wrap, wraps, chain_callables, source_to_function, call_with_arguments,
                            get_arguments, chain_functions, short_none, queue_iterator, length, contains, enum_value, update_key_if_true,
                            update_key_if_not_none, update_attr_if_none, update_if_not_none, update_key_if_none, Closeable, EmptyContextManager,
                            wrap_callable_in_context_manager, queue_get)
from satella.coding import rethrow_as, silence_excs, catch_exception, log_exceptions
from satella.coding.decorators import precondition, postcondition, retry, memoize, cache_memoize, has_keys
from satella.opentracing import trace_function
from satella.time import ExponentialBackoff
from satella.exceptions import PreconditionError
from satella.warnings import mark_temporarily_disabled
from satella.coding.decorators import (chain_functions, queue_get, short_none, transform_result, transform_arguments, execute_before, replace_argument_if,
                                       auto_adapt_to_methods, attach_arguments, copy_arguments, for_argument,
                                       execute_if_attribute_none, execute_if_attribute_not_none, cached_property, default_return,
                                       return_as_list, loop_while, repeat_forever, call_method_on_exception)
from satella.coding.predicates import x as X

CHECK = Check('C28', 'A case is a random function (any mix of kinds of parameters and defaults) wrapped in a decorator and called in a '
                     'random, also invalid, way; distinct by source and calls; non-trivial if at least two oracle evaluations took place')
NOTHING = object()


def make(rng, name='f', names='abcd', kinds=True, numeric=False, body='return dict(locals())'):
    """a random function along with the list of its parameters"""
    names = list(names)
    rng.shuffle(names)
    n = rng.randrange(1, len(names) + 1)
    params = names[:n]
    npos = rng.randrange(0, n + 1)                 # first npos are positional, rest keyword only
    nposonly = rng.randrange(0, npos + 1) if kinds and rng.random() < 0.3 else 0
    first_default = rng.randrange(0, npos + 1)
    var = kinds and rng.random() < 0.35
    kw = kinds and rng.random() < 0.35
    parts = []
    for i, p in enumerate(params[:npos]):
        parts.append('%s=%r' % (p, rng.choice([5, 6, 7] if numeric else [None, 5, 'd', 0, (), False])) if i >= first_default else p)
        if nposonly and i == nposonly - 1:
            parts.append('/')
    rest = params[npos:]
    if var:
        parts.append('*args')
    elif rest:
        parts.append('*')
    for p in rest:
        parts.append('%s=%r' % (p, rng.choice([8, 9])) if rng.random() < 0.5 else p)
    if kw:
        parts.append('**kwargs')
    src = 'def %s(%s):\n    %s\n' % (name, ', '.join(parts), body)
    ns = {}
    exec(src, ns)
    ns[name].src = src
    ns[name].names = params
    ns[name].required = [p for p in params if inspect.signature(ns[name]).parameters[p].default is inspect.Parameter.empty]
    return ns[name]


def gen_call(rng, f, valid=0.8, values=None):
    sig = inspect.signature(f)
    values = values or (lambda: rng.choice([1, 2, 3, 'v', None, [1], 2.5]))
    args, kwargs = [], {}
    positional = True
    for p in sig.parameters.values():
        if p.kind == p.VAR_POSITIONAL:
            if positional:
                args += [values() for _ in range(rng.randrange(3))]
        elif p.kind == p.VAR_KEYWORD:
            for _ in range(rng.randrange(3)):
                kwargs[rng.choice(['zz', 'yy', 'xx'])] = values()
        elif p.default is not p.empty and rng.random() < 0.4:
            if p.kind != p.KEYWORD_ONLY:
                positional = False
        elif p.kind == p.KEYWORD_ONLY:
            kwargs[p.name] = values()
        elif positional and (p.kind == p.POSITIONAL_ONLY or rng.random() < 0.6):
            args.append(values())
        elif p.kind == p.POSITIONAL_OR_KEYWORD:
            positional = False
            kwargs[p.name] = values()
        else:
            positional = False
    if rng.random() > valid:
        k = rng.randrange(4)
        if k == 0 and args:
            args.pop()
        elif k == 1 and kwargs:
            kwargs.pop(rng.choice(sorted(kwargs)))
        elif k == 2:
            args.append(values())
        else:
            kwargs['unexpected'] = values()
    return args, kwargs


def result_of(fn, *args, **kwargs):
    try:
        return 'value', fn(*args, **kwargs)
    except TypeError:
        return 'TypeError', None


@CHECK.scenario(quick=120, thorough=6000)
def arguments(c):
    """get_arguments sees what the function would, call_with_arguments calls with what it was given"""
    rng = c.rng
    f = make(rng)
    c.rec(f.src)
    for _ in range(6):
        args, kwargs = gen_call(rng, f)
        c.rec((args, kwargs))
        want = result_of(f, *args, **kwargs)
        got = result_of(get_arguments, f, *args, **kwargs)
        c.eq(got, want, 'get-arguments', 'get_arguments differs from the locals of the function', f=f.src, args=args, kwargs=kwargs)
        if want[0] == 'value':
            c.count('valid')
            c.eq(call_with_arguments(f, dict(want[1])), want[1], 'call-with-arguments', f=f.src, arguments=want[1])
            # leave out some of those with defaults
            sig = inspect.signature(f)
            some = dict(want[1])
            expect = dict(want[1])
            for p in sig.parameters.values():
                if p.default is not p.empty and rng.random() < 0.5:
                    del some[p.name]
                    expect[p.name] = p.default
                elif p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) and rng.random() < 0.3:
                    del some[p.name]
                    expect[p.name] = () if p.kind == p.VAR_POSITIONAL else {}
            c.eq(call_with_arguments(f, dict(some)), expect, 'call-with-some-arguments', f=f.src, arguments=some)
            c.raises(ValueError, lambda: call_with_arguments(f, dict(want[1], unknown=1)), 'too-many-arguments', f=f.src)
            for p in f.required:
                less = dict(want[1])
                del less[p]
                c.raises(TypeError, lambda: call_with_arguments(f, less), 'argument-missing', f=f.src, without=p)
        else:
            c.count('invalid')


@CHECK.scenario(quick=100, thorough=5000)
def transforms(c):
    rng = c.rng
    f = make(rng, numeric=True)
    sig = inspect.signature(f)
    names = list(f.names)
    numbers = lambda: rng.randrange(1, 9)   # noqa: E731
    exprs = {n: rng.choice(['%s*2' % n, '%s+%s' % (rng.choice(names), n), '-%s' % rng.choice(names), '7'])
             for n in rng.sample(names, rng.randrange(1, len(names) + 1))}
    expr = rng.choice(['x', '[x, %s]' % rng.choice(names), '(x, %s)' % ', '.join(names), 'len(x)', '{**x, "z": %s}' % rng.choice(names)])
    g_args = transform_arguments(**exprs)(f)
    g_res = transform_result(expr)(f)
    nameable = [n for n in names if sig.parameters[n].kind != inspect.Parameter.POSITIONAL_ONLY]
    ops = {n: rng.choice([lambda v: v * 10, str, 'x+1', None, lambda v: -v]) for n in rng.sample(nameable, rng.randrange(0, len(nameable) + 1))}
    run = lambda op, v: v if op is None else (eval(op, {'x': v}) if isinstance(op, str) else op(v))  # noqa: E731
    has_default = any(p.default is not p.empty for p in sig.parameters.values())
    c.rec((f.src, exprs, expr, sorted(ops)))
    deco = for_argument(returns=lambda d: ('r', d), **ops)(f)
    leading = []
    for p in sig.parameters.values():
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            leading.append(p.name)
    pos_ops = [rng.choice([lambda v: v * 10, None, 'x-1', str]) for _ in range(rng.randrange(0, len(leading) + 1))]
    positional = for_argument(*pos_ops)(f)
    for w in (g_args, g_res, deco, positional):
        c.expect(w.__name__ == 'f' and inspect.signature(w) == sig, 'signature-kept', f=f.src)
    for _ in range(5):
        args, kwargs = gen_call(rng, f, valid=0.9, values=numbers)
        kind, locs = result_of(f, *args, **kwargs)
        if kind != 'value':
            for key, w in (('ta', g_args), ('tr', g_res)):
                c.eq(result_of(w, *args, **kwargs)[0], 'TypeError', 'invalid-call-refused-' + key, f=f.src, args=args, kwargs=kwargs)
            continue
        want = dict(locs)
        for n, e in exprs.items():
            want[n] = eval(e, {}, dict(locs))
        c.eq(c.attempt(lambda: g_args(*args, **kwargs)), ('ok', want), 'transform-arguments', f=f.src, exprs=exprs, args=args, kwargs=kwargs)
        c.eq(c.attempt(lambda: g_res(*args, **kwargs)), ('ok', eval(expr, {}, dict(locs, x=locs))), 'transform-result', f=f.src, expr=expr, args=args,
             kwargs=kwargs)
        by_kw = all(n in kwargs for n in ops)
        if has_default or by_kw:
            want = {n: run(ops[n], v) if n in ops else v for n, v in locs.items()}
            c.eq(c.attempt(lambda: deco(*args, **kwargs)), ('ok', ('r', want)), 'for-argument-keyword', f=f.src, ops=sorted(ops), args=args, kwargs=kwargs)
        if has_default or len(args) >= len(pos_ops):
            want = dict(locs)
            for n, op in zip(leading, pos_ops):
                want[n] = run(op, want[n])
            c.eq(c.attempt(lambda: positional(*args, **kwargs)), ('ok', want), 'for-argument-positional', f=f.src, n=len(pos_ops), args=args, kwargs=kwargs)


@CHECK.scenario(quick=30, thorough=1000)
def callable_defaults(c):
    """arguments that are callables are arguments, not something to call"""
    rng = c.rng
    default = rng.choice([len, str, lambda *a: Boom, Boom])

    @for_argument(int)
    def f(a, key=default, *, other=default):
        return a, key, other
    v = rng.randrange(99)
    given = rng.choice([abs, repr])
    c.rec((v, repr(default)))
    c.eq(f(str(v)), (v, default, default), 'callable-default')
    c.eq(f(str(v), given, other=given), (v, given, given), 'callable-argument')

    @for_argument(None, returns=list)
    def g(a, *rest, key=default):
        return a, rest, key
    c.eq(g('5', 6, 7), ['5', (6, 7), default], 'with-varargs')

    # every value is transformed, whatever it is; a parameter may be called as the result is
    @for_argument(lambda x: ('was', x), second=lambda x: ('kw', x))
    def h(a, second=None, third=None):
        return a, second, third
    for given in (None, 0, '', False, v):
        c.eq(h(given), (('was', given), ('kw', None), None), 'for-argument-any-value', given=given)
        c.eq(h(given, given, given), (('was', given), ('kw', given), given), 'for-argument-any-value', given=given)

    @transform_result('(x, a)')
    def named(x, a=v):
        return 'result'
    c.eq((named(1), named(x=2, a=3)), (('result', v), ('result', 3)), 'result-called-as-parameter')

    @transform_arguments(a='a+1', b='a+10')
    def simultaneous(a, b=0):
        return a, b
    c.eq(simultaneous(v), (v + 1, v + 10), 'arguments-as-given')


class Unequal:
    def __eq__(self, o):
        raise TypeError('do not compare me')

    __ne__ = __eq__
    __hash__ = None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


@CHECK.scenario(quick=80, thorough=4000)
def passing(c):
    """attach, copy, replace, chain, execute before, default, list, context manager"""
    rng = c.rng
    seen = []
    f = make(rng)
    sig = inspect.signature(f)
    c.rec(f.src)

    def spy(*args, **kwargs):
        seen.append((args, kwargs))
        return rng_result[0]
    rng_result = [None]
    for _ in range(4):
        args = [rng.choice([1, 'a', [1, [2]], {'k': [1]}, None, Unequal()]) for _ in range(rng.randrange(3))]
        kwargs = {k: rng.choice([1, [3, [4]], 'z']) for k in rng.sample(['p', 'q', 'r'], rng.randrange(3))}
        before = copy.deepcopy((args, kwargs))
        rng_result[0] = res = rng.choice([None, 0, '', [], 'val', False])
        c.rec((repr(args), sorted(kwargs), repr(res)))
        # attach
        extra, extrakw = [rng.randrange(9) for _ in range(rng.randrange(3))], {k: 'att' for k in rng.sample(['q', 'r', 's'], rng.randrange(3))}
        w = attach_arguments(*extra, **extrakw)(spy)
        for _ in range(2):
            seen.clear()
            c.expect(w(*args, **kwargs) is res, 'attach-result')
            c.expect(len(seen) == 1 and len(seen[0][0]) == len(args) + len(extra)
                     and all(a is b for a, b in zip(seen[0][0], args + extra)) and seen[0][1] == {**kwargs, **extrakw}, 'attach', got_=repr(seen))
        # copy
        for deep in (False, True):
            seen.clear()

            @copy_arguments(deep_copy=deep)
            def mutate(*a, **kw):
                for v in list(a) + list(kw.values()):
                    if isinstance(v, list):
                        if deep:
                            for i in v:
                                if isinstance(i, list):
                                    i.append('dirty')
                        v.append('dirty')
                    elif isinstance(v, dict):
                        if deep:
                            v['k'].append('dirty')
                        v.clear()
                return len(a), sorted(kw)
            c.eq(mutate(*args, **kwargs), (len(args), sorted(kwargs)), 'copy-result')
            c.eq(repr((args, kwargs)), repr(before), 'copies-protect', deep=deep)
        # default, list
        d = rng.choice([5, None, 'x'])
        c.expect(default_return(d)(spy)(*args) is (d if res is None else res), 'default-return', res=res)
        items = [rng.choice([None, 0, '', 1, 'b']) for _ in range(rng.randrange(6))]
        for nulls in (False, True):
            out = return_as_list(ignore_nulls=nulls)(lambda *a: iter(items))()
            c.eq(out, [i for i in items if not nulls or i is not None], 'return-as-list')
        # chain
        for r in (rng.choice([{}, {'a': 1}, (), (1,), (1, 2), ((1,), {'b': 2}), (1, 2, 3), 5, None, [1, 2], 'ab', ((1, 2), (3,)), ({}, 1)]),):
            seen.clear()
            firsts = []

            @chain_functions
            def first(*a, **kw):
                firsts.append((a, kw))
                return r
            c.expect(first(spy)(*args, **kwargs) is res, 'chain-result', r=r)
            c.expect(len(firsts) == 1 and all(a is b for a, b in zip(firsts[0][0], args)) and firsts[0][1] == kwargs, 'chain-first', r=r)
            if isinstance(r, dict):
                want = (), r
            elif isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], tuple) and isinstance(r[1], dict):
                want = r
            elif isinstance(r, tuple):
                want = r, {}
            else:
                want = (r,), {}
            c.eq(seen, [want], 'chain-second', r=r)
        # execute before
        log = []
        seen.clear()
        plain = execute_before(lambda: log.append(('before', len(seen))))
        c.expect(plain(spy)(*args, **kwargs) is res and log == [('before', 0)] and len(seen) == 1, 'execute-before', log=log)
        log.clear()
        seen.clear()
        with_args = execute_before(lambda *a, **kw: log.append((a, kw, len(seen))))
        deco = with_args(7, n=res)
        for i in range(2):
            c.expect(deco(spy)(*args, **kwargs) is res, 'execute-before-args')
        c.eq(log, [((7,), {'n': res}, 0), ((7,), {'n': res}, 1)], 'execute-before-args-log')
        # context managers
        log.clear()
        seen.clear()

        class Mgr:
            def __init__(self, *a, **kw):
                log.append((a, kw))

            def __enter__(self):
                log.append('in')

            def __exit__(self, t, v, tb):
                log.append(('out', t))
                return t is Boom
        fail = rng.random() < 0.4
        exc = rng.choice([Boom, ValueError, KeyError])

        def body(*a, **kw):
            spy(*a, **kw)
            if fail:
                raise exc()
            return res
        wr = wrap_callable_in_context_manager(body, Mgr, 1, z=2)
        got = c.attempt(lambda: wr(*args, **kwargs))
        c.eq(log, [((1,), {'z': 2}), 'in', ('out', exc if fail else None)], 'context-manager-log')
        again = c.attempt(lambda: wr(*args, **kwargs))
        c.expect(again[0] == got[0], 'context-manager-again')
        c.eq(log, [((1,), {'z': 2}), 'in', ('out', exc if fail else None)] * 2, 'context-manager-log')
        c.expect(got[0] == 'ok' and got[1] is (None if fail else res) if not fail or exc is Boom else got[0] != 'ok', 'context-manager-result',
                 got_=repr(got), fail_=fail)
        with EmptyContextManager(*args, **kwargs) as e:
            c.expect(isinstance(e, EmptyContextManager), 'empty-context-manager')
        c.raises(Boom, lambda: wrap_callable_in_context_manager(lambda: (_ for _ in ()).throw(Boom()), EmptyContextManager)().__next__(), 'empty-cm-exc')
    c.expect(inspect.signature(copy_arguments()(f)) == sig and attach_arguments()(f).__name__ == 'f', 'signature-kept')


class _Tracer:
    def start_active_span(self, name, tags=None):
        return EmptyContextManager()


def neutral_decorators(rng, log):
    """decorators set up so that they should have nothing to do but to pass the call on"""
    def aside():
        log.append('aside')

    def identity(*args, **kwargs):
        return args, kwargs
    return {
        'chain_functions': chain_functions(identity),
        'default_return': default_return(None),
        'cache_memoize': cache_memoize(100),
        'memoize': memoize,
        'execute_before': execute_before(aside),
        'execute_before_args': execute_before(lambda *a, **k: aside())(1, k=2),
        'attach_arguments': attach_arguments(),
        'copy_arguments': copy_arguments(),
        'deep_copy_arguments': copy_arguments(True),
        'for_argument': for_argument(),
        'for_argument_returns': for_argument(returns=lambda v: v),
        'precondition': precondition(),
        'postcondition': postcondition('True'),
        'transform_result': transform_result('x'),
        'transform_arguments': transform_arguments(),
        'replace_argument_if': replace_argument_if('nosuch', X, instance_of=int),
        'retry': retry(rng.choice([1, 3, None]), Missing),
        'rethrow_as': rethrow_as((Missing, KeyError)),
        'silence_excs': silence_excs(Missing),
        'log_exceptions': log_exceptions(_Logger(log)),
        'context manager': lambda f: wrap_callable_in_context_manager(f, EmptyContextManager),
        'trace_function': trace_function(_Tracer(), 'name', {'a': 1}),
        'backoff': ExponentialBackoff(1, 2).launch(Missing),
        'wraps': lambda f: wraps(f)(lambda *args, **kwargs: f(*args, **kwargs)),
    }


class Missing(Exception):
    """never raised"""


class _Logger:
    def __init__(self, log):
        self.messages = log

    def log(self, severity, msg, *args, **kwargs):
        self.messages.append(msg)


@CHECK.scenario(quick=60, thorough=4000)
def transparent(c):
    """a decorated function looks the same, takes the same arguments, and returns and raises the same"""
    rng = c.rng
    doc = rng.choice([None, 'what it does'])
    for name in sorted(neutral_decorators(rng, [])):
        log = []
        deco = neutral_decorators(rng, log)[name]
        f = make(rng, body='return dict(locals())')
        f.__doc__ = doc
        f.__module__ = 'some.module'
        f.__annotations__ = {n: int for n in f.names if rng.random() < 0.5}
        sig = inspect.signature(f)
        notes = dict(f.__annotations__)
        w = deco(f)
        c.eq((w.__name__, w.__doc__, w.__module__, w.__annotations__), ('f', doc, 'some.module', notes), 'looks-' + name)
        c.expect(inspect.signature(w) == sig and w.__wrapped__ is f, 'signature-' + name)
        for _ in range(3):
            args, kwargs = gen_call(rng, f, values=lambda: rng.choice([1, 'v', None, (1, (2,)), 2.5]))
            want = result_of(f, *args, **kwargs)
            got = result_of(w, *args, **kwargs)
            c.eq(got, want, 'called-' + name, f=f.src, args=args, kwargs=kwargs)
            if name == 'memoize':       # takes only positional arguments into account
                w = deco(f)
            c.count('calls')
        # what is returned and raised goes untouched
        exc = rng.choice([Boom('x'), BoomBase('y'), StopIteration(3), TypeError('t'), ValueError(), KeyboardInterrupt(), GeneratorExit(), IndexError(),
                          AttributeError('a'), PreconditionFailure('p')])
        result = rng.choice([Unequal(), [], {}, (), (((1,), {})), None, 0, Boom])
        seen = []

        def g(a, *rest, k=None):
            seen.append((a, rest, k))
            if a == 'raise':
                raise exc
            return result
        w = neutral_decorators(rng, log)[name](g)
        c.expect(w('go', 1, k='kw') is result, 'result-' + name, result=repr(result))
        c.eq(seen, [('go', (1,), 'kw')], 'called-once-' + name)
        seen.clear()
        try:
            w('raise', 2, k='kw')
        except BaseException as e:      # noqa
            c.expect(e is exc, 'exception-' + name, e=repr(e), exc_=repr(exc))
        else:
            c.fail('exception-lost-' + name, 'an exception has been swallowed', exc_=repr(exc))
        c.eq(seen, [('raise', (2,), 'kw')], 'raised-once-' + name)
        c.rec((name, f.src))


class PreconditionFailure(ValueError):
    pass


@CHECK.scenario(quick=60, thorough=4000)
def transparent_methods(c):
    """decorators of methods pass all arguments, results and exceptions"""
    rng = c.rng
    exc = rng.choice([Boom('x'), BoomBase('y'), StopIteration(3), TypeError('t'), KeyError(), queue.Empty(), AttributeError('m')])
    result = rng.choice([Unequal(), [], {}, 0, 'r', False])
    seen = []
    decorators = {
        'if-none': execute_if_attribute_none('absent'),
        'if-not-none': execute_if_attribute_not_none('present'),
        'on-exception': call_method_on_exception(Missing, 'close'),
        'cached': cached_property('store'),
        'adapted': auto_adapt_to_methods(lambda f: lambda *a, **k: f(*a, **k)),
    }
    for name in sorted(decorators):
        def method(self, a, b='default', *args, k=None, **kwargs):
            """doc of it"""
            seen.append((self, a, b, args, k, kwargs))
            if a == 'raise':
                raise exc
            return result

        class Cls:
            absent = None
            present = 1
            store = None
            wrapped = decorators[name](method)
        o = Cls()
        args, kwargs = [rng.randrange(9) for _ in range(rng.randrange(3))], {k: rng.randrange(9) for k in rng.sample(['k', 'z', 'y'], rng.randrange(4))}
        c.rec((name, args, kwargs, repr(exc), repr(result)))
        seen.clear()
        c.expect(o.wrapped('go', *args, **kwargs) is result, 'method-result-' + name)
        want = (o, 'go', args[0] if args else 'default', tuple(args[1:]), kwargs.get('k'), {k: v for k, v in kwargs.items() if k != 'k'})
        c.eq(seen, [want], 'method-arguments-' + name)
        if name == 'cached':
            c.expect(o.store is result and Cls.store is None, 'method-cached')
        if name != 'adapted':
            c.eq((o.wrapped.__name__, o.wrapped.__doc__, o.wrapped.__func__.__wrapped__), ('method', 'doc of it', method), 'method-looks-' + name)
        seen.clear()
        p = Cls()
        try:
            p.wrapped('raise', *args, **kwargs)
        except BaseException as e:      # noqa
            c.expect(e is exc, 'method-exception-' + name, e=repr(e), exc_=repr(exc))
        else:
            c.fail('method-exception-lost-' + name, 'an exception has been swallowed', exc_=repr(exc))
        c.eq(len(seen), 1, 'method-raised-once-' + name)
        c.raises(TypeError, lambda: p.wrapped(), 'method-too-few-' + name)
    # nothing is called, and nothing is lost, if the attribute cannot be read
    class Bare:
        @execute_if_attribute_none('nosuch')
        def one(self):
            seen.append('one')

        @execute_if_attribute_not_none('nosuch')
        def two(self):
            seen.append('two')
    seen.clear()
    c.raises(AttributeError, Bare().one, 'no-attribute')
    c.raises(AttributeError, Bare().two, 'no-attribute')
    c.eq(seen, [], 'no-attribute-called')

@CHECK.scenario(quick=60, thorough=3000)
def replace(c):
    rng = c.rng
    f = make(rng, kinds=rng.random() < 0.5)
    name = rng.choice(f.names + ['absent'])
    types = rng.choice([str, int, (int, str), (type(None), list)])
    struct, want_fn = rng.choice([([X, X], lambda v: [v, v]), ((1, X), lambda v: (1, v)), (X, lambda v: v),
                                  ('const', lambda v: 'const'), ({'k': X}, lambda v: {'k': v})])
    g = replace_argument_if(name, struct, types)(f)
    c.rec((f.src, name, repr(types)))
    for _ in range(4):
        args, kwargs = gen_call(rng, f, valid=0.85)
        kind, locs = result_of(f, *args, **kwargs)
        if kind == 'value' and name in locs and isinstance(locs[name], types):
            locs[name] = want_fn(locs[name])
            c.count('replaced')
        c.eq(result_of(g, *args, **kwargs), (kind, locs), 'replace-argument-by-type', f=f.src, name=name, args=args, kwargs=kwargs)

    @replace_argument_if('y', 'replaced', predicate=lambda v: v > 5)
    def fun(y, z=2):
        return y, z
    v = rng.randrange(6, 10)
    c.eq(fun(v), ('replaced', 2), 'replace-argument-by-true-predicate')
    c.eq(fun(y=v, z=v), ('replaced', v), 'replace-argument-by-true-predicate')


@CHECK.scenario(quick=5, thorough=50)
def replace_by_predicate(c):
    """an argument its predicate does not accept is to be left alone"""
    @replace_argument_if('y', 'replaced', predicate=lambda v: v > 5)
    def fun(y):
        return y
    v = c.rng.randrange(-5, 6)
    c.rec(v)
    got = fun(v)
    c.expect(got in (v, 'replaced'), 'neither-value')
    if got == 'replaced':
        c.fail('predicate-result-ignored', 'an argument is replaced although the predicate returned False', value=v)
    c.expect(got == v, 'kept')


@CHECK.scenario(quick=60, thorough=3000)
def flow(c):
    rng = c.rng
    # loop_while
    n = rng.randrange(6)

    class Loop:
        def __init__(self):
            self.left = n
            self.calls = []

        @loop_while(X.left > 0)
        def run(self, *args, **kwargs):
            self.left -= 1
            self.calls.append((args, kwargs))
            if self.left == stop:
                raise Boom(self.left)
    stop = rng.choice([None, None, 0, 1, 3])
    lo = Loop()
    a = rng.randrange(9)
    c.rec((n, stop, a))
    kind = c.attempt(lambda: lo.run(a, k=a))[0]
    asked = []

    class Asked:
        @loop_while(lambda self: asked.append(self) or len(asked) <= n)
        def run(self):
            runs.append(self)
    runs = []
    asking = Asked()
    asking.run()
    c.expect(asked == [asking] * (n + 1) and runs == [asking] * n, 'condition-asked-once-for-each', asked=len(asked), runs=len(runs), n=n)
    crash = stop is not None and n > stop
    c.eq(kind, 'exc' if crash else 'ok', 'loop-while-end')
    c.eq(lo.calls, [((a,), {'k': a})] * ((n - stop) if crash else n), 'loop-while-iterations')
    box = {'left': n}

    @loop_while(lambda: box['left'] > 0)
    def fun():
        box['left'] -= 1
    fun()
    c.eq(box['left'], 0, 'loop-while-function')

    class Forever:
        calls = 0

        @repeat_forever
        def run(self, v):
            """Documented"""
            self.calls += 1
            if self.calls > n:
                raise exc(v)
    exc = rng.choice([Boom, StopIteration, BoomBase, KeyboardInterrupt])
    fo = Forever()
    try:
        fo.run(a)
        c.fail('repeat-forever-returned', 'it came back')
    except (Boom, StopIteration, BoomBase, KeyboardInterrupt) as e:
        c.expect(type(e) is exc and e.args == (a,), 'repeat-forever-exception')
    c.eq(fo.calls, n + 1, 'repeat-forever-calls')
    c.expect(Forever.run.__doc__.startswith('Documented'), 'repeat-forever-doc')
    # queue_get
    got = []
    empties = []
    style = rng.choice(['name', 'callable', None])
    inner_exc = rng.choice([None, None, queue.Empty, Boom])
    class QueueLike:        # noqa
        def __init__(self):
            self.items = list(range(n))
            self.timeouts = []

        def get(self, timeout):
            self.timeouts.append(timeout)
            if not self.items:
                raise queue.Empty()
            return self.items.pop(0)
    timeout = rng.choice([None, 0, 1.5])
    empty_cb = {'name': 'on_empty', 'callable': lambda: empties.append('callable'), None: None}[style]

    class Processor:
        def __init__(self):
            self.q = QueueLike()

        def on_empty(self):
            empties.append(self)

        @queue_get('q' if rng.random() < 0.5 else (lambda self: self.q), timeout=timeout, method_to_execute_on_empty=empty_cb)
        def process(self, item):
            got.append(item)
            if inner_exc is not None:
                raise inner_exc()
            return ('done', item)
    p = Processor()
    c.rec((style, timeout, repr(inner_exc)))
    for i in range(n + 2):
        if i < n and inner_exc is not None:
            c.raises(inner_exc, p.process, 'processing-failure-swallowed', exc_=repr(inner_exc))
        else:
            c.eq(p.process(), ('done', i) if i < n else None, 'queue-get-result', i=i)
    c.eq(got, list(range(n)), 'queue-get-items')
    c.eq(empties, {'name': [p, p], 'callable': ['callable'] * 2, None: []}[style], 'queue-get-on-empty')
    c.eq(p.q.timeouts, [timeout] * (n + 2), 'queue-get-timeout')
    q = queue.Queue()
    for i in range(n):
        q.put(i)
    c.eq(list(queue_iterator(q)), list(range(n)), 'queue-iterator')
    c.expect(q.empty(), 'queue-iterator-empties')


@CHECK.scenario(quick=60, thorough=3000)
def methods(c):
    """decorators on methods of instances and classes"""
    rng = c.rng

    @auto_adapt_to_methods
    def plus(fun):
        def outer(a, *args, **kw):
            return fun(a + 100, *args, **kw)
        return outer

    class T:
        def __init__(self):
            self.attr = None
            self._p = start
            self.log = []
            self.counted = 0

        @plus
        def m(self, a, b=2):
            return self, a, b

        @execute_if_attribute_none('attr')
        def when_none(self, v):
            self.log.append(v)
            return v

        @execute_if_attribute_not_none('attr')
        def when_not_none(self, v):
            self.log.append(v)
            return v

        @property
        @cached_property('_p', assume_not_loaded=None)
        def prop(self):
            self.counted += 1
            return value

        def close(self, *a, **kw):
            self.log.append(('closed', a, kw))
            return 'closed'

        @call_method_on_exception((ValueError, Boom), 'close', 1, k=2)
        def read(self, exc):
            if exc is not None:
                raise exc()
            return 'read'

        @call_method_on_exception(LookupError, 'close')
        def named(self, exc, k=None, **kw):
            raise exc(k)

        @class_or_instancemethod
        def either(self_or_cls, v):
            return self_or_cls, v

        @static_var('counter', 3)
        def count(self):
            T.count.counter += 1
            return T.count.counter
    start = rng.choice([None, None, 0, '', 'loaded'])
    value = rng.choice([0, '', 'val', [], None])
    v = rng.randrange(9)
    c.rec((repr(start), repr(value), v))
    t, u = T(), T()
    c.eq(t.m(v), (t, v + 100, 2), 'adapted-method')
    c.eq(u.m(v, b=v), (u, v + 100, v), 'adapted-method')
    c.eq(t.m(v, 3), (t, v + 100, 3), 'adapted-method')
    c.eq(plus(lambda a, b=0: (a, b))(v, b=1), (v + 100, 1), 'adapted-function')
    for attr in (None, 0, '', 'x'):
        t.attr = attr
        t.log = []
        c.eq(t.when_none(v), v if attr is None else None, 'execute-if-none', attr=attr)
        c.eq(t.when_not_none(v), v if attr is not None else None, 'execute-if-not-none', attr=attr)
        c.eq(t.log, [v], 'executed-exactly-one')
    for i in range(3):
        c.eq(t.prop, value if start is None else start, 'cached-property')
    c.eq(t.counted, (1 if value is not None else 3) if start is None else 0, 'cached-property-computed-once')
    c.eq(u.counted, 0, 'cached-property-per-instance')
    c.eq(u.prop, value if start is None else start, 'cached-property-second')
    for exc in (None, ValueError, Boom, UnicodeError, KeyError, BoomBase):
        t.log = []
        if exc is KeyError:
            c.eq(t.named(exc, k=v, other=1), 'closed', 'call-method-on-exception')
            c.eq(t.log, [('closed', (), {})], 'called-with-its-own-arguments')
            t.log = []
        if exc in (KeyError, BoomBase):
            c.raises(exc, lambda: t.read(exc), 'other-exceptions-pass')
            c.eq(t.log, [], 'not-called')
        else:
            c.eq(t.read(exc), 'read' if exc is None else 'closed', 'call-method-on-exception', exc_=repr(exc))
            c.eq(t.log, [] if exc is None else [('closed', (1,), {'k': 2})], 'called-once', exc_=repr(exc))

    class S(T):
        pass
    s = S()
    c.expect(T.either(v) == (T, v) and t.either(v) == (t, v) and S.either(v) == (S, v) and s.either(v)[0] is s, 'class-or-instance')
    n = rng.randrange(1, 5)
    c.eq([t.count() for _ in range(n)] + [u.count()], list(range(4, 5 + n)), 'static-var')

    @static_var('state')
    def fs():
        return fs.state
    c.expect(fs() is None, 'static-var-default')


@CHECK.scenario(quick=60, thorough=3000)
def overloads(c):
    rng = c.rng
    types = [int, str, list, dict, float, bytes, tuple, set]
    values = {int: 5, str: 's', list: [1], dict: {1: 2}, float: 2.5, bytes: b'x', tuple: (1,), set: {1}}
    sigs = set()
    while len(sigs) < rng.randrange(1, 6):
        sigs.add(tuple(rng.choice(types) for _ in range(rng.randrange(0, 4))))
    sigs = sorted(sigs, key=repr)
    rng.shuffle(sigs)
    c.rec(repr(sigs))
    ov = None
    fns = {}
    for i, s in enumerate(sigs):
        ns = {t.__name__: t for t in types}
        names = ['p%d' % j for j in range(len(s))]
        exec('def f(%s):\n    return (%d, %s)' % (', '.join('%s: %s' % (n, t.__name__) for n, t in zip(names, s)), i, ''.join(n + ',' for n in names)), ns)
        fns[s] = ns['f']
        ov = overload(ns['f']) if ov is None else ov.overload(ns['f'])
    c.expect(set(ov.all_functions) == set(fns.values()), 'all-functions')
    c.expect(ov.__wrapped__ is fns[sigs[0]], 'wrapped')
    again = rng.choice(sigs)
    ns = {t.__name__: t for t in types}
    exec('def f(%s): pass' % ', '.join('p%d: %s' % (j, t.__name__) for j, t in enumerate(again)), ns)
    c.raises((TypeError, ValueError), lambda: ov.overload(ns['f']), 'same-signature-refused')
    for _ in range(8):
        if rng.random() < 0.7:
            s = rng.choice(sigs)
        else:
            s = tuple(rng.choice(types) for _ in range(rng.randrange(0, 4)))
        args = [values[t] for t in s]
        kw = {}
        if rng.random() < 0.3 and args:
            kw = {'p%d' % (len(args) - 1): args.pop()}
        if s in sigs:
            c.eq(ov(*args, **kw), (sigs.index(s),) + tuple(values[t] for t in s), 'overload-selected', sigs=repr(sigs), s=repr(s))
            c.count('matched')
        else:
            c.raises(TypeError, lambda: ov(*args, **kw), 'no-overload-refused', sigs=repr(sigs), s=repr(s))


@CHECK.scenario(quick=50, thorough=2500)
def classes(c):
    """metaclass helpers"""
    rng = c.rng
    names = ['alpha', 'beta', 'gamma', 'delta']
    documented = {n for n in names if rng.random() < 0.6}
    own = {n for n in names if rng.random() < 0.3}
    defined = [n for n in names if rng.random() < 0.8]
    class_doc = rng.choice([None, 'source class'])
    own_doc = rng.choice([None, 'own'])
    c.rec((sorted(documented), sorted(own), defined, class_doc, own_doc))

    def fn(name, doc):
        def method(self, v=0):
            return name, v
        method.__name__ = name
        method.__doc__ = doc
        return method
    body = {n: fn(n, 'doc of ' + n if n in documented else None) for n in names}
    src = type('Source', (), dict(body, __doc__=class_doc) if class_doc else body)
    mid = type('Mid', (src,), {})
    doc_free = {} if own_doc is None else {'__doc__': own_doc}

    def mine(**extra):
        return dict({n: fn(n, 'own ' + n if n in own else None) for n in defined}, const=5, nothing=None, **doc_free, **extra)
    for label, cls in (('copy', CopyDocsFrom(src)('Target', (), mine())),
                       ('parent', DocsFromParent('Child', (src,), mine())), ('grandparent', DocsFromParent('Child', (mid,), mine()))):
        for n in defined:
            want = 'own ' + n if n in own else ('doc of ' + n if n in documented else None)
            c.eq(getattr(cls, n).__doc__, want, 'documentation-' + label, n=n)
            c.eq(getattr(cls(), n)(7), (n, 7), 'method-works-' + label)
        c.expect(cls.const == 5 and cls.nothing is None, 'attributes-kept')
        c.eq(cls.__doc__, own_doc or class_doc, 'class-documentation-' + label)
    for n in names:
        c.eq(src.__dict__[n].__doc__, 'doc of ' + n if n in documented else None, 'source-untouched')
    # documentation is looked for in all the bases before it is in those of them
    near, far, beside = rng.random() < 0.3, rng.random() < 0.8, rng.random() < 0.8
    top = type('Top', (), {'meth': fn('meth', 'top' if far else None)})
    left = type('Left', (top,), {'meth': fn('meth', 'left' if near else None)})
    right = type('Right', (), {'meth': fn('meth', 'right' if beside else None)})
    child = DocsFromParent('Child', (left, right), {'meth': fn('meth', None)})
    c.eq(child.meth.__doc__, 'left' if near else 'right' if beside else 'top' if far else None, 'documentation-breadth-first')
    # the old name of the predicate, made for preconditions
    wanted = rng.sample('abcd', rng.randrange(4))
    there = dict.fromkeys(rng.sample('abcd', rng.randrange(4)), 0)
    guarded = precondition(has_keys(wanted))(lambda d: sorted(d))
    if set(wanted) <= set(there):
        c.eq(guarded(there), sorted(there), 'has-keys')
    else:
        c.raises(PreconditionError, lambda: guarded(there), 'has-keys', wanted=wanted, there=there)
    # metaclass conflicts
    metas = [type('M%d' % i, (type,), {'tag%d' % i: i}) for i in range(3)]
    picked = rng.sample(range(3), rng.randrange(1, 4))
    bases = tuple(metas[i]('B%d' % i, (), {'b%d' % i: i}) for i in picked)
    cls = metaclass_maker('C', bases, {'z': 1})
    for i in picked:
        c.expect(issubclass(cls, bases[picked.index(i)]) and isinstance(cls, metas[i]) and getattr(cls, 'tag%d' % i) == i
                 and getattr(cls, 'b%d' % i) == i, 'metaclass-maker')
    c.expect(cls.z == 1 and cls.__name__ == 'C', 'metaclass-maker-body')
    cls2 = metaclass_maker('D', bases, {})
    c.expect(type(cls2) is type(cls), 'metaclass-reused')
    first_m, last_m = (type(x, (type,), {'who': x, x: True}) for x in ('first', 'last'))
    cls3 = metaclass_maker_f((first_m,), (last_m,))('E', bases, {'y': 2})
    mro = type(cls3).__mro__
    c.expect(mro.index(first_m) < min(mro.index(metas[i]) for i in picked) and max(mro.index(metas[i]) for i in picked) < mro.index(last_m)
             and cls3.who == 'first' and cls3.last and cls3.y == 2, 'metaclass-priority', mro=repr(mro))
    c.expect(type(metaclass_maker('Plain', (), {})) is type and type(metaclass_maker('One', bases[:1], {})) is type(bases[0]), 'metaclass-needless')
    # wrap_with
    dels = []

    class W(metaclass=wrap_with(lambda f: (lambda self, v: f(self, v) * 2),
                                wrap_property(getter=lambda g: (lambda self: g(self) + 1),
                                              setter=lambda s: (lambda self, v: s(self, v * 3)) if s is not None else None,
                                              deleter=lambda d: (lambda self: (dels.append('wrapped'), d(self))) if d is not None else None),
                                selector_properties=lambda p: p.fget.__name__ != 'q')):
        def one(self, v):
            return v

        def two(self, v):
            return v + 1

        @dont_wrap
        def three(self, v):
            return v

        @property
        def p(self):
            return self.__dict__.get('hidden', 0)

        @p.setter
        def p(self, v):
            self.__dict__['hidden'] = v

        @p.deleter
        def p(self):
            dels.append('deleted')
            self.__dict__.pop('hidden', None)

        @property
        def q(self):
            """read only"""
            return 30

        @property
        def r(self):
            """read only, wrapped"""
            return 40

        const = 5
    skip = {'two'} if False else ()
    o = W()
    v = rng.randrange(1, 9)
    c.eq((o.one(v), o.two(v), o.three(v), o.const), (v * 2, (v + 1) * 2, v, 5), 'wrap-with-callables')
    c.eq(o.p, 1, 'wrap-with-property')
    o.p = v
    c.eq(o.p, 3 * v + 1, 'wrap-with-property-set')
    del o.p
    c.expect(dels == ['wrapped', 'deleted'] and o.p == 1, 'wrap-with-property-delete', dels=dels)
    c.eq((o.q, o.r), (30, 41), 'wrap-with-property-selector')
    c.eq((W.q.__doc__, W.r.__doc__), ('read only', 'read only, wrapped'), 'wrap-with-property-doc')
    for attr in 'qr':
        c.raises(AttributeError, lambda: setattr(o, attr, 5), 'wrap-with-read-only')
        c.raises(AttributeError, lambda: delattr(o, attr), 'wrap-with-read-only')

    class W2(metaclass=wrap_with(lambda f: (lambda self, v: f(self, v) * 2), selector_callables=lambda f: getattr(f, '__name__', '') != 'two')):
        def one(self, v):
            return v

        def two(self, v):
            return v
    c.eq((W2().one(v), W2().two(v)), (2 * v, v), 'wrap-with-selector')

    @wraps(src)
    class Imitation:
        pass
    c.expect(Imitation.__name__ == 'Source' and Imitation.__doc__ == class_doc and Imitation.__wrapped__ is src, 'wraps-class')


@CHECK.scenario(quick=60, thorough=3000)
def helpers(c):
    rng = c.rng
    n = rng.randrange(6)
    items = [rng.randrange(4) for _ in range(n)]
    c.rec(items)
    c.expect(length(items) == length(iter(items)) == length(i for i in items) == n == length(set(range(n))), 'length')
    needle = rng.randrange(5)

    class Eq:
        def __eq__(self, o):
            return o == needle
    nan = float('nan')
    c.expect(not contains(nan, [nan]) and contains(1, (x for x in [nan, 1.0])), 'contains-compares')
    c.expect(contains(needle, items) == (needle in items) == contains(Eq(), iter(items)), 'contains')
    import enum

    class E(enum.Enum):
        A = needle
    c.expect(enum_value(E.A) == needle and enum_value(needle) is needle and enum_value(None) is None, 'enum-value')
    for v in (None, 0, '', 'x', 5, False, [1]):
        d = {'old': 1}
        c.expect(update_key_if_not_none(d, 'k', v) is d, 'returns-dict')
        c.eq(d, {'old': 1} if v is None else {'old': 1, 'k': v}, 'update-if-not-none', v=v)
        d = {'old': 1, 'a': 7}
        c.eq(update_key_if_not_none(d, {'a': v, 'b': None, 'c': v}), {'old': 1, 'a': 7} if v is None else {'old': 1, 'a': v, 'c': v},
             'update-if-not-none-dict', v=v)
        d = {}
        c.eq(update_key_if_true(d, 'k', v), {'k': v} if v else {}, 'update-if-true', v=v)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for alias in (update_if_not_none, update_key_if_none):
                d = {'old': 1, 'k': 0}
                c.expect(alias(d, 'k', v) is d and d == {'old': 1, 'k': 0 if v is None else v}, 'deprecated-alias', d=d, v=v)
        flag = rng.choice([True, False])
        d = {}
        if rng.random() < 0.3:
            flag = rng.choice([1, 'yes', [0], 0, '', None])
        c.eq(update_key_if_true(d, 'k', v, flag), {'k': v} if flag else {}, 'update-if-flag', v=v, flag=flag)

        class O:  # noqa
            none = None
            some = 'some'
        o = O()
        c.expect(update_attr_if_none(o, 'none', v) is o and o.none == v, 'update-attr-none')
        update_attr_if_none(o, 'some', v)
        c.eq(o.some, 'some', 'update-attr-some')
        for falsy in (0, '', False, [], 0.0):
            o.falsy = falsy
            update_attr_if_none(o, 'falsy', v)
            c.expect(o.falsy is falsy, 'update-attr-falsy', 'only None is to be updated', falsy=falsy, v=v)
        update_attr_if_none(o, 'absent', v)
        c.expect(o.absent == v, 'update-attr-absent')
        c.raises(AttributeError, lambda: update_attr_if_none(o, 'absent2', v, on_attribute_error=False), 'update-attr-error')
        update_attr_if_none(o, 'some', v, if_value_is_not_none=True)
        c.eq(o.some, 'some' if v is None else v, 'update-attr-unconditional')
    # chains of callables
    calls = []

    def first(*a, **k):
        calls.append((a, k))
        return needle
    c.eq(chain_callables(first, lambda r: ('second', r))(1, k=2), ('second', needle), 'chain-callables')
    c.eq(calls, [((1,), {'k': 2})], 'chain-callables-first')

    def noarg():
        return 'noarg'
    c.eq(chain_callables(first, noarg)(), 'noarg', 'chain-callables-noarg')
    exc = rng.choice([TypeError('inner'), TypeError(), TypeError(5), ValueError('v'), Boom(),
                      TypeError('f() takes 0 positional arguments but 1 was given')])
    needle = rng.choice([needle, None])
    second = []

    def failing(r):
        second.append(r)
        raise exc
    try:
        chain_callables(first, failing)()
        c.fail('chain-callables-swallows', 'the failure is lost')
    except Exception as e:      # noqa
        c.expect(e is exc, 'chain-callables-exception', e=repr(e), exc_=repr(exc))
    c.eq(second, [needle], 'chain-callables-once')
    ran = []
    with warnings.catch_warnings(record=True) as warned:
        warnings.simplefilter('always')

        @mark_temporarily_disabled('maintenance')
        def disabled(*a, **k):
            ran.append(a)
    c.expect(len(warned) == 1 and 'disabled' in str(warned[0].message) and 'maintenance' in str(warned[0].message), 'disabled-warns',
             warned=[str(w.message) for w in warned])
    e = c.raises(NotImplementedError, lambda: disabled(1, x=2), 'disabled-raises')
    c.expect(not ran, 'disabled-does-not-run')
    k = rng.randrange(9)
    c.expect(source_to_function('x*2+1')(k) == 2 * k + 1 and source_to_function(abs) is abs, 'source-to-function')
    c.expect(short_none('x+1')(k) == k + 1 and short_none('x+1')(None) is None and short_none(str)(0) == '0' and short_none(str)(None) is None,
             'short-none')

    # closeables
    log = []

    class Cl(Closeable):
        def __init__(self, ok=True):
            if not ok:
                raise Boom()
            self.tag = k
            super().__init__()

        def close(self):
            if super().close():
                log.append('cleaned')
                if bad:
                    raise Boom('close')
    bad = False
    o = Cl()
    c.expect(not o.closed, 'open')
    for _ in range(rng.randrange(1, 4)):
        o.close()
    c.expect(o.closed and log == ['cleaned'], 'closed-once', log=log)
    del o
    c.eq(log, ['cleaned'], 'destructor-does-not-repeat')
    o = Cl()
    del o
    c.eq(log, ['cleaned'] * 2, 'destructor-closes')
    try:
        with Cl() as o:
            c.expect(not o.closed, 'open-inside')
            if rng.random() < 0.5:
                raise ValueError()
    except ValueError:
        pass
    c.expect(o.closed, 'closed-by-with')
    del o
    c.eq(log, ['cleaned'] * 3, 'with-closes-once')
    c.raises(Boom, lambda: Cl(False), 'half-initialized')
    c.eq(log, ['cleaned'] * 3, 'half-initialized-not-cleaned')
    bad = True
    o = Cl()
    c.raises(Boom, o.close, 'failing-close')
    o.close()
    c.eq(log, ['cleaned'] * 4, 'failing-close-not-repeated')


Pair = collections.namedtuple('Pair', 'first second')


@CHECK.scenario(quick=300, thorough=6000)
def other_types(c):
    """What a decorator does with a dictionary, a tuple or a text it does with those of their subclasses"""
    rng = c.rng
    a, b = rng.randrange(9), rng.randrange(9)
    c.rec(a, b)

    def last(*args, **kwargs):
        return args, kwargs
    for result, want in ((MyDict(x=a, y=b), ((), {'x': a, 'y': b})), (collections.OrderedDict(x=a), ((), {'x': a})),
                         (Pair(a, b), ((a, b), {})), (MyTuple((a, b, 1)), ((a, b, 1), {})), (MyTuple((MyTuple((a,)), MyDict(k=b))), ((a,), {'k': b})),
                         (((a,), collections.OrderedDict(k=b)), ((a,), {'k': b})), (Pair((a,), {'k': b}), ((a,), {'k': b})),
                         (MyList([a, b]), (([a, b],), {})), (MyStr('t'), (('t',), {})), ((a, {'k': b}), ((a, {'k': b}), {})),
                         ((), ((), {})), (MyTuple(), ((), {})), (None, ((None,), {}))):
        c.eq(chain_functions(lambda: result)(last)(), want, 'chain-functions', result=repr(result))

    @for_argument(MyStr('x+1'), y=MyStr('x*2'))
    def given(x, y):
        return x, y
    c.eq(given(a, y=b), (a + 1, b * 2), 'for-argument')

    @for_argument(MyStr('self'), None, z=MyStr('x+5'))
    def defaults(x, y=3, z=4):
        return x, y, z
    c.eq(defaults(a), (a, 3, 9), 'for-argument')
    c.eq(defaults(a, b, z=b), (a, b, b + 5), 'for-argument')
    c.eq(short_none(MyStr('x+1'))(a), a + 1, 'short-none')
    c.expect(short_none(MyStr('x+1'))(None) is None, 'short-none')

    @precondition(MyStr('x < 5'))
    def small(x):
        return x
    if a < 5:
        c.eq(small(a), a, 'precondition')
    else:
        c.raises(PreconditionError, lambda: small(a), 'precondition')

    class Worker:
        def __init__(self):
            self.q, self.seen, self.idle = queue.Queue(), [], 0

        def on_idle(self):
            self.idle += 1

        @queue_get(MyStr('q'), timeout=0, method_to_execute_on_empty=MyStr('on_idle'))
        def do(self, item):
            self.seen.append(item)
            return item
    w = Worker()
    w.q.put(a)
    c.expect(w.do() == a and w.do() is None and (w.seen, w.idle) == ([a], 1), 'queue-get', seen=w.seen, idle=w.idle)

    class Base:
        pass

    class Derived(Base):
        pass

    @overload
    def what(x: int):
        return 'int'

    @what.overload
    def what2(x: str):
        return 'str'

    @what.overload
    def what3(x: Base):
        return 'base'

    @what.overload
    def what4(x: collections.abc.Mapping):
        return 'mapping'
    for x, want in ((a, 'int'), (MyInt(a), 'int'), (True, 'int'), ('s', 'str'), (MyStr('s'), 'str'), (Base(), 'base'), (Derived(), 'base'),
                    ({}, 'mapping'), (MyDict(), 'mapping'), (collections.OrderedDict(), 'mapping')):
        c.eq(what(x), want, 'overload', x=repr(x))
    c.raises(TypeError, lambda: what(2.5), 'overload')


def working_decorators(rng, log):
    """decorators that do something for one argument (named x), along with what they then make of the call fun(x)"""
    k = rng.randrange(1, 9)
    return {
        'for_argument': (for_argument(lambda v: v + k), lambda fun, x: fun(x + k)),
        'for_named_argument': (for_argument(x=lambda v: v + k), lambda fun, x: fun(x + k)),
        'for_result': (for_argument(returns=lambda v: (v, k)), lambda fun, x: (fun(x), k)),
        'transform_result': (transform_result('(x, %d)' % k), lambda fun, x: (fun(x), k)),
        'transform_arguments': (transform_arguments(x='x*%d' % k), lambda fun, x: fun(x * k)),
        'replace_argument_if': (replace_argument_if('x', X + k, int), lambda fun, x: fun(x + k)),
        'default_return': (default_return(k), lambda fun, x: k if fun(x) is None else fun(x)),
        'return_as_list': (return_as_list(), lambda fun, x: list(fun(x)) if fun(x) is not None else []),
        'chain_functions': (chain_functions(lambda x: ((x + k,), {})), lambda fun, x: fun(x + k)),
        'execute_before': (execute_before(lambda: log.append('before')), lambda fun, x: fun(x)),
    }


@CHECK.scenario(quick=120, thorough=5000)
def one_for_many(c):
    """One decorator put on some functions, called in turns, by each other, and by threads at once, stays with each what it is"""
    rng = c.rng
    names = sorted(neutral_decorators(rng, []))
    log = []
    n = rng.randrange(2, 4)
    pausing = []

    def functions(body):
        out = []
        for i in range(n):
            def fun(x, i=i):
                return body(i, x)
            out.append(fun)
        return out
    work = working_decorators(rng, log)
    cases = [(name, neutral_decorators(rng, log)[name], lambda fun, x: fun(x)) for name in rng.sample(names, 4)]
    cases += [(name,) + work[name] for name in rng.sample(sorted(work), 4)]
    for name, deco, want in cases:
        def body(i, x):
            if pausing:
                pause()
            return [i, x]
        funs = functions(body)
        made = [deco(f) for f in funs]
        for _ in range(5):
            i, x = rng.randrange(n), rng.randrange(12)
            c.eq(made[i](x), want(funs[i], x), 'its-own-' + name, i=i, x=x)
        if name not in ('memoize', 'cache_memoize'):
            # recursion goes through the decorator
            plain, through = [], []

            def down(i, x):
                return [i, x] if x <= 0 else [i, x, through[(i + 1) % n](x - 1 if x < 20 else 0)]

            def down_plain(i, x):
                return [i, x] if x <= 0 else [i, x, want(plain[(i + 1) % n], x - 1 if x < 20 else 0)]
            if name not in ('for_argument', 'for_named_argument', 'transform_arguments', 'replace_argument_if', 'chain_functions', 'return_as_list',
                            'default_return'):
                through.extend(deco(f) for f in functions(down))
                plain.extend(functions(down_plain))
                c.eq(through[0](4), want(plain[0], 4), 'recursion-' + name)
        args = [(rng.randrange(n), rng.randrange(12)) for _ in range(rng.randrange(2, 4))]
        expected = [want(funs[i], x) for i, x in args]
        again = [deco(f) for f in funs]

        def session(s):
            pausing.append(1)
            got = [None] * len(args)

            def call(j, i, x):
                got[j] = again[i](x)
            try:
                c.go(*[lambda j=j, i=i, x=x: call(j, i, x) for j, (i, x) in enumerate(args)])
            finally:
                pausing.clear()
            c.eq(got, expected, 'at-once-' + name, args=args)
        if name != 'backoff':
            c.sched(session)
        c.rec((name, n, args))


if __name__ == '__main__':
    CHECK.main()
