"""C29: exceptions are transformed, silenced, retried, logged, checked for and handled globally as declared, never lost otherwise"""
import contextlib
import copy
import io
import os
import pickle
import sys
import threading
import time

from vlib.harness import Check
from checks.common import Boom, BoomBase, MyInt, MyStr, Standin, fresh, pause

import satella.exception_handling.memerrhandler as memerr
import satella.os.misc as osmisc
from satella.coding import (rethrow_as, reraise_as, silence_excs, log_exceptions, raises_exception, catch_exception, expect_exception,
                            precondition, postcondition, short_none)
from satella.coding.decorators import retry
from satella.exception_handling import (ALWAYS_FIRST, ALWAYS_LAST, NORMAL_PRIORITY, GlobalExcepthook, BaseExceptionHandler, FunctionExceptionHandler, exception_handler,
                                        MemoryErrorExceptionHandler, DumpToFileHandler)
from satella.exceptions import (CustomException, CodedCustomException, PreconditionError, BaseSatellaError, ResourceLockingError,
                                ResourceLocked, WouldWaitMore, ConfigurationError, ConfigurationSchemaError,
                                ConfigurationValidationError, Empty, ProcessFailed, AlreadyAllocated, ImpossibleError, MetricAlreadyExists)
from satella.instrumentation import Traceback

CHECK = Check('C29', 'A case is a random exception (or none) thrown through a random arrangement of helpers; distinct by parameters and '
                     'outcomes; non-trivial if at least two oracle evaluations took place')


class Root(Exception):
    pass


class Left(Root):
    pass


class Right(Root):
    pass


class Leaf(Left, ValueError):
    pass


class Other(LookupError):
    pass


EXCS = [Root, Left, Right, Leaf, Other, ValueError, KeyError, StopIteration, BoomBase]


def outcome(fn):
    try:
        return 'ok', fn()
    except (Exception, BoomBase) as e:   # noqa
        return 'exc', e


def raiser(exc, *args):
    def fn(*a, **kw):
        if exc is not None:
            raise exc(*args)
        return ('res', a, kw)
    return fn


def describe(out):
    return out if out[0] == 'ok' else ('exc', type(out[1]), out[1].args)


@CHECK.scenario(quick=100, thorough=5000)
def recasting(c):
    """rethrow_as, reraise_as and silence_excs as decorators and as context managers"""
    rng = c.rng
    exc = rng.choice(EXCS + [None])
    tag = rng.randrange(9)
    fn = raiser(exc, tag)
    sources = rng.sample(EXCS[:8], rng.randrange(1, 4))
    single = len(sources) == 1 and rng.random() < 0.5
    source = sources[0] if single else tuple(sources)
    target = rng.choice([None, OSError, Boom, Root])
    c.rec((repr(exc), repr(source), repr(target)))
    hit = exc is not None and issubclass(exc, tuple(sources))

    def check(key, dec_out, cm_out, args, cause):
        if not hit:
            want = ('exc', exc, (tag,)) if exc else ('ok', ('res', (1,), {'k': 2}))
            c.eq(describe(dec_out), want, key + '-other-exceptions', exc_=repr(exc), source=repr(source))
            c.eq(describe(cm_out), ('exc', exc, (tag,)) if exc else ('ok', 'end'), key + '-other-exceptions-cm', exc_=repr(exc))
        elif target is None:
            c.eq(dec_out, ('ok', returned), key + '-silenced', exc_=repr(exc))
            c.eq(cm_out, ('ok', 'end'), key + '-silenced-cm')
        else:
            for out in (dec_out, cm_out):
                c.eq(describe(out)[:2], ('exc', target), key + '-transformed', exc_=repr(exc), source=repr(source))
                c.eq(out[1].args, args, key + '-arguments')
                if cause:
                    c.expect(type(out[1].__cause__) is exc and out[1].__cause__.args == (tag,), key + '-cause')

    def in_cm(cm):
        def run():
            with cm:
                fn()
            return 'end'
        return outcome(run)
    returned = None
    # reraise_as
    def mk():  # noqa
        return reraise_as(source, target, 'msg', 5)
    if not (exc is not None and not issubclass(exc, Exception)):
        check('reraise', outcome(lambda: mk()(fn)(1, k=2)), in_cm(mk()), ('msg', 5), True)
    # rethrow_as, both pairs
    returned = rng.choice([None, 0, 'ret', []])
    style = rng.choice(['returns', 'factory'])
    kw = {'returns': returned} if style == 'returns' else {'returns_factory': lambda: returned}
    prep = rng.choice([None, str, lambda e: 'pre %s' % (e.args,)])

    def mk2():
        pairs = ((source, target),) if rng.random() < 0.5 else (source, target)
        return rethrow_as(*pairs, exception_preprocessor=prep, **kw)
    text = (prep or repr)(exc(tag)) if exc else None
    check('rethrow', outcome(lambda: mk2()(fn)(1, k=2)), in_cm(mk2()), (text,), False)
    # silencing
    target = None
    check('silence', outcome(lambda: silence_excs(*sources, **kw)(fn)(1, k=2)), in_cm(silence_excs(*sources)), (), False)
    # first match wins among many pairs
    targets = rng.sample([OSError, Boom, Root, KeyError, None], len(sources))
    pairs = list(zip(sources, targets))
    if len(pairs) == 2:
        pairs.append((AssertionError, None))
    out = outcome(lambda: rethrow_as(*pairs)(fn)(1, k=2))
    for s, t in pairs:
        if exc is not None and issubclass(exc, s):
            c.eq(describe(out), ('ok', None) if t is None else ('exc', t, (repr(exc(tag)),)), 'first-match', pairs=repr(pairs))
            break
    else:
        c.eq(describe(out), ('exc', exc, (tag,)) if exc else ('ok', ('res', (1,), {'k': 2})), 'no-match', pairs=repr(pairs))
    for given in (5, 0, None, ''):
        if given is not None:
            c.raises(ValueError, lambda: rethrow_as(KeyError, None, returns=given, returns_factory=int), 'both-returns', given=given)
            c.raises(ValueError, lambda: silence_excs(KeyError, returns=given, returns_factory=int), 'both-returns', given=given)


@CHECK.scenario(quick=40, thorough=2000)
def recursion(c):
    """one decorated function calling itself: each call has a fate of its own"""
    rng = c.rng
    shape = [rng.choice(['ok', 'silent', 'loud']) for _ in range(rng.randrange(1, 7))]
    c.rec(shape)
    results = []
    which = rng.choice(['silence', 'rethrow', 'reraise'])
    deco = {'silence': lambda: silence_excs(Left, returns='silenced'), 'rethrow': lambda: rethrow_as(Left, None, returns='silenced'),
            'reraise': lambda: reraise_as(Left, None)}[which]()

    @deco
    def fun(i):
        inner = None
        if i + 1 < len(shape):
            try:
                inner = fun(i + 1)
            except Right:
                inner = 'right'
        results.append((i, inner))
        if shape[i] == 'silent':
            raise Left(i)
        if shape[i] == 'loud':
            raise Right(i)
        return ('value', i)

    def model(i):
        return {'ok': ('value', i), 'silent': None if which == 'reraise' else 'silenced', 'loud': 'right'}[shape[i]]
    if shape[0] == 'loud':
        c.raises(Right, lambda: fun(0), 'loud')
    else:
        c.eq(fun(0), model(0), 'recursive-result', shape=shape, which=which)
    n = len(shape)
    c.eq(results, [(i, model(i + 1) if i + 1 < n else None) for i in reversed(range(n))], 'recursive-inner-results', shape=shape, which=which)


@CHECK.scenario(quick=40, thorough=2000)
def shared(c):
    """one helper used by many threads at once"""
    rng = c.rng
    which = rng.choice(['silence', 'rethrow', 'reraise'])
    h = {'silence': lambda: silence_excs(Left, returns='silenced'), 'rethrow': lambda: rethrow_as((Left, OSError), (Right, None), returns='silenced'),
         'reraise': lambda: reraise_as(Left, OSError, 'x')}[which]()

    @h
    def fun(exc, v):
        pause(1)
        if exc:
            raise exc(v)
        return v
    plans = [[rng.choice([None, Left, Right, Other]) for _ in range(3)] for _ in range(3)]
    c.rec((which, repr(plans)))
    got = [[] for _ in plans]

    def body(s):
        def worker(i):
            for j, e in enumerate(plans[i]):
                if (i + j) % 2:
                    got[i].append(describe(outcome(lambda: fun(e, (i, j)))))
                else:
                    def cm():
                        with h:
                            pause(1)
                            if e:
                                raise e((i, j))
                            return (i, j)
                        return 'silenced'
                    got[i].append(describe(outcome(cm)))
        c.go(*[lambda i=i: worker(i) for i in range(len(plans))])
    c.sched(body)
    for i, p in enumerate(plans):
        want = []
        for j, e in enumerate(p):
            v = (i, j)
            if e is None:
                want.append(('ok', v))
            elif which == 'reraise':
                want.append(('exc', OSError, ('x',)) if e is Left else ('exc', e, (v,)))
            elif which == 'silence':
                want.append(('ok', 'silenced') if e is Left else ('exc', e, (v,)))
            else:
                want.append({Left: ('exc', OSError, (repr(Left(v)),)), Right: ('ok', 'silenced'), Other: ('exc', Other, (v,))}[e])
        c.eq(got[i], want, 'thread-outcomes', plan=repr(p), which=which)


@CHECK.scenario(quick=80, thorough=4000)
def retrying(c):
    rng = c.rng
    times = rng.choice([None, 1, 2, 3, 5])
    fails = rng.randrange(0, 5)
    exc = rng.choice([Left, Leaf, Other, BoomBase])
    classes = rng.choice([Exception, Root, (Left, KeyError), Other])
    swallow = rng.random() < 0.5
    log = []
    success_fails = rng.random() < 0.2
    c.rec((times, fails, repr(exc), repr(classes), swallow, success_fails))
    made = []

    def on_success(n):
        log.append(('success', n))
        if success_fails:
            raise Left('on success')

    old_style = {'call_on_failure': lambda e: log.append(('old', e))} if rng.random() < 0.3 else {}

    @retry(times, classes, on_failure=lambda e: log.append(('failure', e)), swallow_exception=swallow, call_on_success=on_success,
           call_between_retries=lambda e: log.append(('between', e)), **old_style)
    def fun(a, k):
        log.append(('call', a, k))
        if len(made) < fails:
            made.append(exc(len(made)))
            raise made[-1]
        return 'result'
    out = outcome(lambda: fun(1, k=2))
    call = ('call', 1, 2)
    if not issubclass(exc, classes) and fails:
        want_log, want = [call], ('exc', made[0] if made else None)
    elif times is None or fails < times:
        want_log = []
        for i in range(fails):
            want_log += [call, ('between', made[i])]
        want_log += [call, ('success', fails)]
        want = ('exc', 'on success') if success_fails else ('ok', 'result')
    else:
        want_log = []
        for i in range(times):
            want_log += [call] + ([('between', made[i])] if i < times - 1 else [])
        want_log.append(('failure', made[-1]))
        if old_style:
            want_log.append(('old', made[-1]))
        want = ('ok', None) if swallow else ('exc', made[-1])
    c.eq(log, want_log, 'retry-log', times=times, fails=fails)
    if want == ('exc', 'on success'):
        c.expect(out[0] == 'exc' and out[1].args == ('on success',), 'retry-success-callback-failure', out=repr(out))
    else:
        c.expect(out[0] == want[0] and (out[1] is want[1] or out[1] == want[1]), 'retry-outcome', got_=repr(out), want_=repr(want), times=times, fails=fails)


class FakeLogger:
    def __init__(self):
        self.entries = []

    def log(self, severity, msg, *args, exc_info=None, **kw):
        self.entries.append((severity, msg % args if args else msg, exc_info))


@CHECK.scenario(quick=80, thorough=4000)
def logging(c):
    rng = c.rng
    exc = rng.choice([Left, Leaf, Other, None])
    types = rng.choice([None, Exception, Root, (Left, KeyError), [Left, KeyError], Other])
    typeset = (Exception,) if types is None else tuple(types) if isinstance(types, (list, tuple)) else (types,)
    swallow = rng.random() < 0.5
    fmt, want_fmt = rng.choice([('{e}', lambda e, a, k: str(e)), ('{e!r} x', lambda e, a, k: repr(e) + ' x'),
                                ('{args} {kwargs} {e}', lambda e, a, k: '%s %s %s' % (a, k, e)), ('{local_v}:{e}', lambda e, a, k: '77:%s' % (e,)),
                                ('{args[0]} {local_v:05}', lambda e, a, k: '%s 00077' % (a[0],)), ('constant', lambda e, a, k: 'constant'),
                                ('{args!r:>30}', lambda e, a, k: repr(a).rjust(30))])
    lo = FakeLogger()
    mk = lambda: log_exceptions(lo, 35, fmt, {'local_v': 77, 'unused': 1, 'e': 'hidden'}, types, swallow)   # noqa
    c.rec((repr(exc), repr(types), swallow, fmt))
    hit = exc is not None and issubclass(exc, typeset)
    kinds = ['function', 'generator', 'method'] + (['context'] if 'args' not in fmt else [])
    for kind in kinds:
        lo.entries.clear()
        made = []
        a, k = (1,), {'k': 2}
        if kind == 'function':
            @mk()
            def fun(a, k):
                if exc:
                    made.append(exc('text'))
                    raise made[-1]
                return ('ret', a, k)
            out = outcome(lambda: fun(1, k=2))
            good = ('ret', 1, 2)
        elif kind == 'method':
            class T:
                @mk()
                def fun(self, a, k):
                    if exc:
                        made.append(exc('text'))
                        raise made[-1]
                    return ('ret', a, k)
            t = T()
            out = outcome(lambda: t.fun(1, k=2))
            a = (t, 1)
            good = ('ret', 1, 2)
        elif kind == 'generator':
            @mk()
            def gen(a, k):
                got = yield 'first'
                yield got
                if exc:
                    made.append(exc('text'))
                    raise made[-1]
                return ('ret', a, k)
            seen = []

            def drive():
                g = gen(1, k=2)
                seen.append(next(g))
                seen.append(g.send('sent'))
                try:
                    seen.append(next(g))
                except StopIteration as e:
                    return e.value
            out = outcome(drive)
            c.eq(seen, ['first', 'sent'], 'generator-values')
            good = ('ret', 1, 2)
        else:
            a, k = (), {}

            def run():
                with mk():
                    if exc:
                        made.append(exc('text'))
                        raise made[-1]
                return 'after'
            out = outcome(run)
            good = 'after'
        if exc is None:
            c.eq(out, ('ok', good), 'log-transparent', kind=kind)
            c.eq(lo.entries, [], 'nothing-logged', kind=kind)
            continue
        e = made[0]
        if hit:
            c.expect(len(lo.entries) == 1 and lo.entries[0][0] == 35 and lo.entries[0][2] is e, 'logged-once', kind=kind, entries=repr(lo.entries))
            c.eq(lo.entries[0][1], want_fmt(e, a, k), 'log-text', kind=kind, fmt=fmt)
        else:
            c.eq(lo.entries, [], 'others-not-logged', kind=kind)
        if hit and swallow:
            c.eq(out, ('ok', 'after' if kind == 'context' else None), 'swallowed', kind=kind)
        else:
            c.expect(out[0] == 'exc' and out[1] is e, 'reraised', kind=kind, out=repr(out))


@CHECK.scenario(quick=80, thorough=4000)
def checking(c):
    """raises_exception, catch_exception, expect_exception, preconditions and postconditions"""
    rng = c.rng
    exc = rng.choice(EXCS + [None])
    sources = rng.choice([Root, (Left, KeyError), ValueError, (Other,), Exception])
    hit = exc is not None and issubclass(exc, sources)
    tag = rng.randrange(9)
    fn = raiser(exc, tag)
    c.rec((repr(exc), repr(sources), tag))
    other = ('exc', exc, (tag,))
    out = describe(outcome(lambda: raises_exception(sources, fn)))
    c.eq(out, ('ok', hit) if exc is None or hit else other, 'raises-exception')
    out = outcome(lambda: catch_exception(sources, fn, return_value_on_no_exception=True))
    if hit:
        c.expect(out[0] == 'ok' and type(out[1]) is exc and out[1].args == (tag,), 'catch-exception')
    else:
        c.eq(describe(out), ('ok', ('res', (), {})) if exc is None else other, 'catch-exception-other')
    if exc is None:
        c.raises(ValueError, lambda: catch_exception(sources, fn), 'catch-exception-none')
        instead = rng.choice(['instead', 0, False, '', (), 2.5])
        got = c.attempt(lambda: catch_exception(sources, fn, return_instead=instead))
        c.expect(got[0] == 'ok' and got[1] is instead, 'catch-exception-instead', out=repr(got), instead=repr(instead))

    def expecting():
        with expect_exception(sources, Boom, 'not raised', 5) as e:
            c.expect(isinstance(e, expect_exception), 'entered')
            fn()
        return 'through'
    raw = outcome(expecting)
    out = describe(raw)
    if exc is not None and not hit:
        e = raw[1]
        tb, names = e.__traceback__, []
        while tb is not None:
            names.append(tb.tb_frame.f_code.co_name)
            tb = tb.tb_next
        c.expect(not e.__suppress_context__ and e.__cause__ is None and e.__context__ is None and names[-1] == 'fn' and 'expecting' in names,
                 'expect-exception-untouched', names=names, context=repr(e.__context__))
    c.eq(out, ('exc', Boom, ('not raised', 5)) if exc is None else ('ok', 'through') if hit else other, 'expect-exception')
    # conditions
    calls = []
    n = rng.randrange(-3, 4)
    m = rng.randrange(-3, 4)
    z = rng.choice([None, 1, -1])
    pos_n = n > 0

    @precondition('x > 0', None, short_none(lambda v: v > 0), key=lambda v: v > 0, other='x != 3')
    def fun(a, b, z, key=-5, other=3):
        calls.append((a, b, z, key, other))
        return 'done'
    use_key, use_other = rng.random() < 0.5, rng.random() < 0.5
    kw = {}
    if use_key:
        kw['key'] = m
    if use_other:
        kw['other'] = m
    ok = pos_n and (z is None or z > 0) and (not use_key or m > 0) and (not use_other or m != 3)
    out = outcome(lambda: fun(n, 'any', z, **kw))
    if ok:
        c.eq(out, ('ok', 'done'), 'precondition-holds', n=n, m=m, z=z, kw=kw)
        c.eq(calls, [(n, 'any', z, kw.get('key', -5), kw.get('other', 3))], 'called-with')
    else:
        c.expect(out[0] == 'exc' and isinstance(out[1], PreconditionError) and isinstance(out[1], ValueError), 'precondition-fails', n=n, m=m, z=z, kw=kw,
                 out=repr(out))
        c.eq(calls, [], 'not-called')
    c.raises(PreconditionError, lambda: fun('text', 1, None), 'precondition-type-error')

    @precondition('x > 0')
    def inner_type_error(v):
        raise TypeError('inner')
    e = c.raises(TypeError, lambda: inner_type_error(1), 'inner-type-error')
    c.expect(type(e) is TypeError, 'inner-type-error-type')

    @postcondition(rng.choice(['x > 0', lambda v: v > 0]))
    def post(v):
        calls.append(v)
        return v
    calls.clear()
    if pos_n:
        c.eq(post(n), n, 'postcondition-holds')
    else:
        c.raises(PreconditionError, lambda: post(n), 'postcondition-fails')
    c.eq(calls, [n], 'postcondition-called-once')

    @postcondition('x is not None')
    def something(v):
        return v
    c.eq(something(0), 0, 'postcondition-of-none')
    c.raises(PreconditionError, lambda: something(None), 'postcondition-of-none')
    c.raises(PreconditionError, lambda: precondition('len(x) > 5')(something)((1, 2)), 'precondition-of-tuple')


@contextlib.contextmanager
def isolated_hooks(c, log):
    """the global hook with nothing installed, its predecessor and the hook of threads replaced with recorders"""
    g = GlobalExcepthook()
    saved = g.installed_hooks, g.old_excepthook, g.ignore_failed_hooks, threading.excepthook, sys.stderr
    g.installed_hooks, g.ignore_failed_hooks = [], True
    g.old_excepthook = exception_handler(priority=10000)(lambda t, v, tb: log.append(('old', v)))
    threading.excepthook = lambda args: log.append(('thread-died', args.exc_value))
    sys.stderr = io.StringIO()
    try:
        yield g
    finally:
        g.installed_hooks, g.old_excepthook, g.ignore_failed_hooks, threading.excepthook, sys.stderr = saved


@CHECK.scenario(quick=60, thorough=3000)
def hooks(c):
    """hooks run in order of their priority until one of them intercepts the exception"""
    rng = c.rng
    log = []
    with isolated_hooks(c, log) as g:
        model = []
        installed = []
        n = rng.randrange(0, 6)
        for i in range(n):
            prio = rng.choice([ALWAYS_FIRST, -10, 0, NORMAL_PRIORITY, 5, ALWAYS_LAST])
            ret = rng.choice([None, False, False, 0, [], [False], (), (False,), (False, True), True, 1, [False, True], Boom])
            kind = rng.choice(['class', 'decorator', 'plain'])

            def fn(t, v, tb, i=i, ret=ret):
                log.append((i, t, v, tb))
                if ret is Boom:
                    raise Boom()
                return ret
            if kind == 'class':
                class H(BaseExceptionHandler):
                    def handle_exception(self, t, v, tb, fn=fn):
                        r = fn(t, v, tb)
                        return any(r) if isinstance(r, (list, tuple)) else r
                h = H(prio)
                c.expect(h.install() is h, 'install-returns')
            elif kind == 'decorator':
                if rng.random() < 0.3:      # decorated without parentheses
                    h, prio = exception_handler(fn), 0
                else:
                    h = exception_handler(priority=prio)(fn)
                c.expect(isinstance(h, FunctionExceptionHandler) and h.install() is h, 'install-returns')
            else:
                prio = 0
                h = g.add_hook(fn)
            if rng.random() < 0.2:
                c.expect(g.add_hook(h) is h, 'added-again')
            installed.append(h)
            model.append((prio, i, ret))
            c.rec((prio, repr(ret), kind))
        for i in rng.sample(range(n), rng.randrange(0, n + 1) // 2):
            installed[i].uninstall()
            model = [m for m in model if m[1] != i]
            c.raises(ValueError, installed[i].uninstall, 'uninstalled-twice')
        g.ignore_failed_hooks = ignore = rng.random() < 0.8
        exc = rng.choice([Left, KeyError, Boom])('text')
        in_thread = rng.random() < 0.5
        kind = rng.choice(['target', 'subclass'])
        order = sorted(model, key=lambda m: m[0])
        want, intercepted, failed = [], False, False
        for prio, i, ret in order:
            want.append(i)
            if ret is Boom:
                if not ignore:
                    failed = True
                    break
            elif ret in (True, 1, [False, True], (False, True)):
                intercepted = True
                break
        if not intercepted and not failed:
            want.append('old')
        if in_thread:
            def run():
                raise exc
            if kind == 'target':
                t = threading.Thread(target=run)
            else:
                class T(threading.Thread):
                    def run(self):
                        raise exc
                t = T()
            t.start()
            t.join()
            want.append('thread-died')
            died = log[-1]
            if not failed:
                c.expect(died == ('thread-died', exc), 'exception-reraised-in-thread')
        else:
            try:
                raise exc
            except Exception:   # noqa
                info = sys.exc_info()
            if failed:
                c.raises(NotImplementedError, lambda: sys.excepthook(*info), 'failed-hook-reported')
            else:
                sys.excepthook(*info)
        c.eq([entry[0] for entry in log], want, 'hooks-run', hooks=model, thread=in_thread, ignore=ignore)
        for entry in log:
            if len(entry) == 4:
                c.expect(entry[1] is type(exc) and entry[2] is exc and entry[3] is exc.__traceback__ or in_thread and entry[2] is exc, 'hook-arguments')
        if any(m[2] is Boom and m[1] in want for m in model):
            c.expect('Boom' in sys.stderr.getvalue(), 'failure-of-hook-shown')
        # exceptions not derived from Exception end the thread and go past the hooks
        log.clear()

        def exits():
            raise BoomBase()
        t = threading.Thread(target=exits)
        t.start()
        t.join()
        c.eq([entry[0] for entry in log], ['thread-died'], 'base-exception')
        log.clear()
        got = []
        t = threading.Thread(target=lambda a, k: got.append((a, k)), args=(1,), kwargs={'k': 2})
        t.start()
        t.join()
        c.expect(got == [(1, 2)] and log == [], 'healthy-thread')


@CHECK.scenario(quick=30, thorough=1500)
def memory_errors(c):
    """an out of memory error ends the process, unless the custom hook says otherwise"""
    rng = c.rng
    log = []
    killed = []
    leads = rng.random() < 0.5
    me = os.getpid()
    standins = [Standin([memerr, osmisc], os, kill=lambda pid, sig: killed.append(('process', pid, int(sig))),
                        killpg=lambda pid, sig: killed.append(('group', pid, int(sig))),
                        getpgid=lambda pid: me if leads else me + 1, getpgrp=lambda: me if leads else me + 1),
                Standin([memerr], time, sleep=lambda s: log.append(('sleep',)))]
    for st in standins:
        st.__enter__()
    try:
        with isolated_hooks(c, log) as g:
            ret = rng.choice([True, False, None, [False, False], [True], [False, True], (True, False), [], Boom])
            pg = rng.random() < 0.5

            def custom(t, v, tb):
                log.append(('custom', v))
                if ret is Boom:
                    raise Boom()
                return ret
            h = MemoryErrorExceptionHandler(custom, kill_pg=pg) if rng.random() < 0.8 else MemoryErrorExceptionHandler(kill_pg=pg)
            no_custom = h.custom_hook is not custom
            c.rec((repr(ret), pg, no_custom))
            exception_handler(priority=rng.choice([-5, 0]))(lambda t, v, tb: log.append(('normal', v))).install()
            h.install()
            c.raises(RuntimeError, h.install, 'installed-twice')
            c.eq(g.installed_hooks.count(h), 1, 'installed-once')
            exc = rng.choice([MemoryError(), KeyError(), type('Sub', (MemoryError,), {})()])
            try:
                raise exc
            except Exception:   # noqa
                sys.excepthook(*sys.exc_info())
            names = [e[0] for e in log]
            if not isinstance(exc, MemoryError):
                c.eq((names, killed), (['normal', 'old'], []), 'other-exceptions-pass')
            elif not no_custom and ret is not Boom and (any(ret) if isinstance(ret, (list, tuple)) else ret):
                c.eq((names, killed), (['custom'], []), 'custom-hook-saves')
            else:
                c.eq(killed, [('group' if pg and leads else 'process', me, 9)], 'killed', ret=repr(ret), pg=pg, leads=leads)
                c.eq([x for x in names if x != 'sleep'], [] if no_custom else ['custom'], 'nothing-else-ran')
            h.uninstall()
            c.expect(h not in g.installed_hooks, 'uninstalled')
            h.install()
            c.expect(h in g.installed_hooks, 'installed-again')
    finally:
        for st in reversed(standins):
            st.__exit__()


@CHECK.scenario(quick=40, thorough=1500)
def dumping(c):
    """unhandled exceptions are dumped to all the streams, in main and other threads"""
    rng = c.rng
    log = []

    class Minimal:
        def __init__(self):
            self.data = []

        def write(self, d):
            self.data.append(d)

    class Buffered(Minimal):
        """what was written gets out once flushed"""
        def __init__(self):
            super().__init__()
            self.out = []

        def flush(self):
            self.out.extend(self.data)
            self.data.clear()

    import logging as logmod

    class Enabled(logmod.Logger):
        def isEnabledFor(self, level):
            return True
    lo = Enabled('c29')
    records = []

    class Handler(logmod.Handler):
        def emit(self, r):
            records.append((r.levelno, r.getMessage(), r.exc_info[1], r.stack_info))
    lo.addHandler(Handler())
    d = c.tmpdir()
    text_out = [io.StringIO(), Minimal(), Buffered(), d + '/text.txt', d, None, lo, (lo, 30)]
    chosen = rng.sample(text_out, rng.randrange(1, len(text_out) + 1))
    pick_out = [io.BytesIO(), d + '/trace.pickle', None]
    pickles = rng.sample(pick_out, rng.randrange(0, 4))
    h = DumpToFileHandler(chosen, pickles if pickles or rng.random() < 0.5 else None)
    c.raises(TypeError, lambda: DumpToFileHandler([rng.choice([5, 2.5, []])]), 'invalid-stream')
    value = 'secret%d' % rng.randrange(10 ** 6)
    exc = rng.choice([Left, KeyError])('message of it')
    in_thread = rng.random() < 0.5
    c.rec((len(chosen), len(pickles), in_thread))

    class Broken:
        def __repr__(self):
            raise exc_in_repr('cannot')
    exc_in_repr = rng.choice([Boom, AttributeError])
    with_broken = rng.random() < 0.4

    def failing(local):
        obj = Broken() if with_broken else 5     # noqa
        raise exc
    with isolated_hooks(c, log) as g:
        h.install()
        if in_thread:
            t = threading.Thread(target=failing, args=(value,))
            t.start()
            t.join()
            want_log = [('old', exc), ('thread-died', exc)]
        else:
            try:
                failing(value)
            except Exception:       # noqa
                info = sys.exc_info()
            sys.excepthook(*info)       # no exception is in progress now
            want_log = [('old', exc)]
        c.eq(log, want_log, 'propagated', thread=in_thread)
        c.eq(sys.stderr.getvalue(), '', 'handler-itself-failed')
        g.installed_hooks = []
    import glob
    for o in chosen:
        if o is None or o is lo or isinstance(o, tuple):
            continue
        if isinstance(o, io.StringIO):
            text = o.getvalue()
        elif isinstance(o, Buffered):
            text = ''.join(o.out)
            c.eq(o.data, [], 'flushed')
        elif isinstance(o, Minimal):
            text = ''.join(o.data)
        elif o == d:
            names = [n for n in glob.glob(d + '/*') if not n.endswith(('.txt', '.pickle'))]
            c.expect(len(names) == 1, 'dump-in-directory', names=names)
            text = open(names[0]).read()
        else:
            text = open(o).read()
        c.expect(value in text and 'message of it' in text and type(exc).__name__ in text and 'failing' in text, 'dump-content', text=text[:500], to=repr(o))
        c.expect(text.startswith('Unhandled exception caught'), 'dump-start')
    levels = sorted(([40] if lo in chosen else []) + ([30] if (lo, 30) in chosen else []))
    c.eq(sorted(r[0] for r in records), levels, 'logged')
    for r in records:
        c.expect(r[2] is exc and r[3] and r[1] == str(exc), 'log-content')
    for o in pickles:
        if o is None:
            continue
        data = o.getvalue() if isinstance(o, io.BytesIO) else open(o, 'rb').read()
        tb = pickle.loads(data)
        c.expect(isinstance(tb, Traceback) and tb.frames[0].name == 'failing' and tb.frames[0].locals['local'].load_value() == value, 'pickle-content')


@CHECK.scenario(quick=60, thorough=3000)
def classes(c):
    """custom and coded exceptions"""
    rng = c.rng
    args = [rng.choice([1, 'text', None, (1, 2), "quo'te"]) for _ in range(rng.randrange(0, 4))]
    kw = {k: rng.choice([1, 'v', None]) for k in rng.sample(['a', 'b', 'c'], rng.randrange(0, 3))}

    class Mine(CustomException):
        pass

    class Passing(CustomException):
        def __init__(self, first, **kwargs):
            super().__init__(first, **kwargs)
    c.rec((args, sorted(kw.items())))
    e = Mine(*args, **kw)
    inside = ', '.join([repr(a) for a in args] + ['%s=%r' % i for i in kw.items()])
    if args or not kw:
        c.eq(str(e), 'Mine(%s)' % inside, 'str', args=args, kw=kw)
        c.eq(repr(e), '%s.%s(%s)' % (Mine.__module__, Mine.__qualname__, inside), 'repr', args=args, kw=kw)
    else:
        str(e), repr(e)
    c.expect(e.args == tuple(args) and e.kwargs == kw, 'arguments-kept')
    p = Passing('x', **kw)
    c.expect(p.args == ('x',) and p.kwargs == kw and str(p).startswith("Passing('x'"), 'passing')
    # coded: siblings of the same hierarchy and the same code are instances of each other's class
    bases = [type('Base%d' % i, (CodedCustomException,), {}) for i in range(2)]
    nodes = []       # (class, root, effective code)
    for i, b in enumerate(bases):
        nodes.append((b, i, None))
    for i in range(rng.randrange(1, 7)):
        parent = rng.choice(nodes)
        code = rng.choice([0, 1, 2, 'x', '', None])
        cls = type('N%d' % i, (parent[0],), {} if code is None else {'code': code})
        nodes.append((cls, parent[1], parent[2] if code is None else code))
    c.rec([(n[1], n[2], n[0].__mro__[1].__name__) for n in nodes])
    for cls, root, code in nodes:
        given = rng.choice([None, 0, 1, 2, 'x', '', 3])
        inst = cls('message', given) if given is not None else cls('message')
        eff = code if given is None else given
        c.expect(inst.message == 'message' and getattr(inst, 'code', None) == eff, 'code')
        c.expect(isinstance(inst, CodedCustomException) and isinstance(inst, CustomException), 'is-coded')
        for k2, root2, code2 in nodes:
            if issubclass(cls, k2):
                want = True
            elif root != root2 or code2 is None or eff is None:
                want = False
            else:
                want = code2 == eff
            c.eq(isinstance(inst, k2), want, 'coded-isinstance', inst=repr(inst), cls=k2.__name__, code=eff, cls_code=code2, roots=(root, root2))
    c.expect(not any(isinstance(o, n[0]) for o in (5, None, ValueError(), Mine()) for n in nodes), 'foreign-not-instance')
    # hierarchy users catch by
    for sub, sup in ((ResourceLocked, ResourceLockingError), (WouldWaitMore, TimeoutError), (WouldWaitMore, BaseSatellaError), (PreconditionError, ValueError),
                     (ConfigurationError, ValueError), (ConfigurationValidationError, ConfigurationSchemaError), (AlreadyAllocated, ResourceLocked),
                     (ProcessFailed, OSError), (ConfigurationSchemaError, ConfigurationError)):
        c.expect(issubclass(sub, sup), 'hierarchy', sub=sub.__name__, sup=sup.__name__)
    import queue
    c.expect(issubclass(Empty, queue.Empty) and not issubclass(ImpossibleError, Exception), 'hierarchy')
    v = ConfigurationValidationError('msg', 5)
    c.expect(v.value == 5 and 'msg' in str(v), 'validation-error')
    pf = ProcessFailed(3, b'out')
    c.expect(pf.rc == 3 and pf.stdout_so_far == b'out' and str(pf) == 'ProcessFailed(3)', 'process-failed')
    # they pass between processes and can be copied
    text = rng.choice(['', 'text', 'a%s'])
    for e in (CustomException(*args, **kw), BaseSatellaError(*args, **kw), ResourceLocked(*args), WouldWaitMore(text, **kw), PreconditionError(text),
              Empty(*args), ConfigurationError(text, **kw), ConfigurationValidationError(text, rng.choice([None, 5])), AlreadyAllocated(*args),
              ProcessFailed(rng.randrange(-9, 9), rng.choice([b'x', 'x'])), MetricAlreadyExists(text, 'name', 'int', 'float'),
              CodedCustomException(text, rng.choice([None, 0, 5, 'x'])), ImpossibleError(text)):
        for how in (copy.copy, copy.deepcopy, lambda e: pickle.loads(pickle.dumps(e, rng.randrange(2, pickle.HIGHEST_PROTOCOL + 1)))):
            st, e2 = c.attempt(lambda: how(e))
            c.expect(st == 'ok' and type(e2) is type(e) and e2.args == e.args and vars(e2) == vars(e) and str(e2) == str(e), 'exception-copies',
                     exc=repr(e), copied=repr(e2))
    m = MetricAlreadyExists(text, 'name', 'int', 'float')
    c.eq((m.name, m.requested_type, m.existing_type), ('name', 'int', 'float'), 'metric-already-exists')


@CHECK.scenario(quick=30, thorough=1500)
def dumping_at_once(c):
    """Threads that fail at the same moment are all dumped, to every stream"""
    rng = c.rng
    log = []
    n = rng.randrange(2, 5)
    barrier = threading.Barrier(n)
    d = c.tmpdir()

    class Slow:
        def __init__(self, binary):
            self.binary, self.data, self.pauses = binary, [], [rng.choice([0, 0, 0.0005, 0.002]) for _ in range(40)]

        def write(self, x):
            time.sleep(self.pauses.pop() if self.pauses else 0)
            self.data.append(x)

        def flush(self):
            time.sleep(0.0005)
    first, last, pick = Slow(False), Slow(False), Slow(True)
    texts = [first, d + '/text.txt', last, d + '/other.txt']
    if rng.random() < 0.5:
        rng.shuffle(texts)
    h = DumpToFileHandler(texts, [d + '/trace.pickle', pick])
    values = ['secret%d-%d' % (i, rng.randrange(10 ** 6)) for i in range(n)]
    c.rec(n, first.pauses, last.pauses, pick.pauses)
    excs = [KeyError(v) for v in values]

    def failing(i):
        local = values[i]   # noqa
        barrier.wait(30)
        raise excs[i]
    prev = sys.getswitchinterval()
    with isolated_hooks(c, log) as g:
        h.install()
        ts = [threading.Thread(target=failing, args=(i,)) for i in range(n)]
        sys.setswitchinterval(1e-5)
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(prev)
        c.eq(sys.stderr.getvalue(), '', 'handler-itself-failed')
        c.eq(sorted(v.args[0] for k, v in log if k == 'old'), sorted(values), 'propagated')
        g.installed_hooks = []
    for s in (first, last):
        text = ''.join(s.data)
        c.expect(all(v in text for v in values), 'dump-content')
        c.eq(text.count('Unhandled exception caught'), n, 'dump-content')
    c.eq(sorted(v for p in pick.data for v in values if pickle.loads(p).frames[0].locals['local'].load_value() == v), sorted(values), 'pickle-content')
    for f in ('/text.txt', '/other.txt'):
        c.expect(any(v in open(d + f).read() for v in values), 'dump-content')
    c.expect(pickle.loads(open(d + '/trace.pickle', 'rb').read()).frames[0].name == 'failing', 'pickle-content')


@CHECK.scenario(quick=40, thorough=1500)
def threads_as_before(c):
    """With the hook in place threads are still made the way they were, and carry what they carried"""
    rng = c.rng
    log, got = [], []
    name, arg, kwarg = 'thread-%d' % rng.randrange(10 ** 6), rng.randrange(1000), rng.randrange(1000)
    positional = rng.randrange(0, 6)
    daemon = rng.random() < 0.5
    fails = rng.random() < 0.5
    c.rec(positional, daemon, fails)
    exc = Left('no')

    def target(*a, **k):
        got.append((a, k, threading.current_thread().name))
        if fails:
            raise exc
    order = [('group', None), ('target', target), ('name', name), ('args', (arg,)), ('kwargs', {'k': kwarg})]

    class Running(threading.Thread):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.mine = 5

        def run(self):
            got.append('mine %d' % self.mine)
            super().run()
    with isolated_hooks(c, log):
        for cls in (threading.Thread, Running):
            t = cls(*[v for _, v in order[:positional]], daemon=daemon, **dict(order[positional:]))
            c.eq((t.name, t.daemon), (name, daemon), 'thread-made')
            t.start()
            t.join()
            c.eq(got, (['mine 5'] if cls is Running else []) + [((arg,), {'k': kwarg}, name)], 'thread-target')
            c.eq(log, [('old', exc), ('thread-died', exc)] if fails else [], 'thread-target')
            del got[:], log[:]
        t = threading.Timer(0.001, target, (arg,), {'k': kwarg})
        t.name = name
        t.start()
        t.join()
        c.eq(got, [((arg,), {'k': kwarg}, name)], 'thread-target')
        c.eq(log, [('old', exc), ('thread-died', exc)] if fails else [], 'thread-target')
        c.raises(TypeError, lambda: threading.Thread(1, 2, 3, 4, 5, 6, 7), 'thread-made')


@CHECK.scenario(quick=40, thorough=1500)
def more_arguments(c):
    """A coded exception carries everything it was given"""
    rng = c.rng
    more = tuple(rng.randrange(100) for _ in range(rng.randrange(0, 4)))
    kw = {k: rng.randrange(100) for k in rng.sample(['a', 'b', 'c'], rng.randrange(0, 3))}
    code = rng.choice([None, 0, 5, 'x', 1000, 10 ** 20])
    c.rec(more, sorted(kw), code)
    base = type('Base', (CodedCustomException,), {})
    e = base('text', code, *more, **kw)
    c.eq((e.args, e.kwargs, e.message, getattr(e, 'code', None)), (('text', code) + more, kw, 'text', code), 'arguments-kept')
    if code is not None:
        other = type('Coded', (base,), {'code': MyStr(code) if isinstance(code, str) else MyInt(code)})
        c.expect(isinstance(e, other), 'coded-isinstance')
        c.expect(isinstance(other('text'), type('Again', (base,), {'code': fresh(code)})), 'coded-isinstance')
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        from satella.exceptions import BaseSatellaException
        e = BaseSatellaException(*more, **kw)
    c.eq((e.args, e.kwargs), (more, kw), 'arguments-kept')
    c.eq([x.category for x in w], [DeprecationWarning], 'deprecated')


@CHECK.scenario(quick=60, thorough=2000)
def made_with_keywords(c):
    """Exceptions to raise that are made with keyword arguments, or by a function"""
    rng = c.rng
    kw = {k: rng.randrange(9) for k in rng.sample(['exc', 'value', 'fun', 'key'], rng.randrange(0, 4))}
    args = tuple(rng.randrange(9) for _ in range(rng.randrange(0, 3)))
    c.rec(args, sorted(kw.items()))

    class Made(Exception):
        def __init__(self, *a, **k):
            super().__init__(*a)
            self.given = a, k

    make = Made if rng.random() < 0.5 else lambda *a, **k: Made(*a, **k)
    try:
        with expect_exception(KeyError, make, *args, **kw):
            pass
    except Made as e:
        c.eq(e.given, (args, kw), 'keywords-expected', 'made with other arguments')
    else:
        c.fail('keywords-expected', 'nothing was raised')
    with expect_exception((KeyError, OSError), make, *args, **kw):
        raise rng.choice([KeyError, OSError, FileNotFoundError])()
    v = ConfigurationValidationError('msg', value=rng.choice([5, None]), **kw) if 'value' not in kw else \
        ConfigurationValidationError('msg', **kw)
    c.eq(v.value, v.args[1], 'keywords-validation')
    c.eq(v.kwargs, {k: x for k, x in kw.items() if k != 'value'}, 'keywords-validation', 'keyword arguments')
    c.expect(all('%s=%s' % (k, x) in str(v) and '%s=%s' % (k, x) in repr(v) for k, x in v.kwargs.items()), 'keywords-text', text=str(v))


if __name__ == '__main__':
    CHECK.main()
