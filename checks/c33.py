"""C33: traced operations end their spans with what happened, driver futures deliver their outcome, tainted values infect all that is made of them"""
import array
import collections
import gc
import itertools
import operator
import threading
import warnings
from concurrent.futures import Future as PyFuture

from opentracing.mocktracer import MockTracer

from vlib.harness import Check
from checks.common import Boom, BoomBase, MyDict, MyList, MyTuple, pause

import satella.opentracing.exceptions as otexc
from satella.cassandra import wrap_future, parallel_for
from satella.cassandra.common import ResponseFuture
from satella.coding.concurrent import Future as SatellaFuture
from satella.debug import TaintingEnvironment, TaintedObject, taint, access_tainted
from satella.opentracing import trace_exception, trace_function, trace_future, set_maximum_traceback_length

warnings.simplefilter('ignore', DeprecationWarning)

CHECK = Check('C33', 'A case is a random set of traced calls and futures with their outcomes, or a random program over tainted values; '
                     'distinct by parameters and outcomes; non-trivial if at least two oracle evaluations took place')


class DriverFuture(ResponseFuture):
    """What Cassandra's driver gives"""

    def __init__(self):
        self.lock = threading.Lock()
        self.state = None
        self.cbs, self.ebs = [], []

    def add_callback(self, fn, *args, **kwargs):
        self._add(self.cbs, 'result', fn, args, kwargs)

    def add_errback(self, fn, *args, **kwargs):
        self._add(self.ebs, 'error', fn, args, kwargs)

    def _add(self, where, kind, fn, args, kwargs):
        with self.lock:
            run = self.state is not None
            if not run:
                where.append((fn, args, kwargs))
        if run and self.state[0] == kind:
            fn(self.state[1], *args, **kwargs)

    def finish(self, kind, value):
        with self.lock:
            self.state = kind, value
            todo = self.cbs if kind == 'result' else self.ebs
        for fn, args, kwargs in todo:
            fn(value, *args, **kwargs)

    def result(self):
        kind, value = self.state
        if kind == 'error':
            raise value
        return value


def events(span, name):
    return [log.key_values for log in span.logs if log.key_values.get('event') == name]


@CHECK.scenario(quick=120, thorough=1500)
def traced_functions(c):
    """One finished span with the right tags, parent and error for every call, in threads and nested"""
    rng = c.rng
    tracer = MockTracer()
    static = rng.choice([None, {}, {'a': 1, 'b': 'x'}])
    before = dict(static) if static is not None else None
    style = rng.choice([None, 'dict', 'list', 'old'])
    factory = None
    if style in ('dict', 'list'):
        factory = [('first', lambda x, *args, **kw: x), ('n', lambda *args, **kw: len(args) + len(kw))]
        factory = dict(factory) if style == 'dict' else factory
    elif style == 'old':
        factory = [('first', lambda args: args[0])]
    c.rec(static, style)

    @trace_function(tracer, 'outer', tags=static, tags_factory=factory)
    def outer(x, *more, fail=None):
        """doc"""
        active = tracer.active_span
        c.eq(active.operation_name, 'outer', 'active', 'active span')
        if fail == 'inner':
            return inner(x, fail=Boom)
        if fail is not None:
            raise fail('failing')
        return x, active.context.span_id, inner(x)

    @trace_function(tracer, 'inner')
    def inner(x, fail=None):
        if fail is not None:
            raise fail('inner failing')
        return tracer.active_span.context.span_id

    c.eq((outer.__name__, outer.__doc__), ('outer', 'doc'), 'metadata', 'name and doc')
    calls = []

    def caller(tid):
        def fn():
            for i in range(3):
                arg = tid * 10 + i
                extra = tuple(range(rng.randrange(3)))
                fail = rng.choice([None, None, Boom, 'inner'])
                kw = {} if fail is None else {'fail': fail}
                if style == 'old':
                    extra, kw = (), {}      # calls with a single argument can be told in the old way only
                    fail = None
                kind, got = c.attempt(lambda: outer(arg, *extra, **kw))
                c.eq(kind, 'ok' if fail is None else 'exc', 'outcome', 'outcome of a traced call', got_=repr(got))
                if fail is None:
                    c.eq(got[0], arg, 'result', 'result of a traced call')
                else:
                    c.expect(isinstance(got, Boom), 'exception', 'exception of a traced call', got_=repr(got))
                calls.append((arg, 1 + len(extra) + len(kw), fail, got if fail is None else None))
        return fn

    if rng.random() < 0.5:
        c.go(caller(1), caller(2))
    else:
        caller(1)()
    c.eq(tracer.active_span, None, 'still-active', 'active span at the end')
    spans = tracer.finished_spans()
    outers = [s for s in spans if s.operation_name == 'outer']
    inners = [s for s in spans if s.operation_name == 'inner']
    c.eq(len(outers), len(calls), 'spans', 'spans finished')
    c.eq(len(inners), len([x for x in calls if x[2] in (None, 'inner')]), 'spans', 'inner spans finished')
    if before is not None:
        c.eq(static, before, 'tags-mutated', 'tags given to the decorator')
    want_tags = collections.Counter()
    for arg, n, fail, got in calls:
        t = dict(before or {})
        if style in ('dict', 'list'):
            t.update(first=arg, n=n)
        elif style == 'old':
            t.update(first=arg)
        if fail is not None:
            t['error'] = True
        want_tags[str(sorted(t.items()))] += 1
    c.eq(collections.Counter(str(sorted(s.tags.items())) for s in outers), want_tags, 'tags', 'tags of spans')
    ids = {s.context.span_id for s in outers}
    for s in inners:
        c.expect(s.parent_id in ids, 'parent', 'parent of a nested span')
    for s in spans:
        c.expect(s.finished or s.finish_time is not None, 'finished', 'span finished')
    for arg, n, fail, got in calls:
        if got is not None:
            c.expect(got[1] in ids and got[2] in {s.context.span_id for s in inners}, 'own-span', 'span in which the function was called')


@CHECK.scenario(quick=200, thorough=3000)
def traced_futures(c):
    """The span is finished exactly once when a future ends, in any way, with its exception attached"""
    rng = c.rng
    tracer = MockTracer()
    kind = rng.choice(['python', 'satella', 'driver'])
    how = rng.choice(['result', 'error', 'error', 'cancel', 'never'])
    if kind == 'driver' and how == 'cancel':
        how = 'error'
    before = rng.random() < 0.4
    exc_type = rng.choice([ValueError, Boom, KeyError, BoomBase, SystemExit])
    c.rec(kind, how, before, exc_type.__name__)
    fut = {'python': PyFuture, 'satella': SatellaFuture, 'driver': DriverFuture}[kind]()
    span = tracer.start_span('op')
    finishes = []
    orig = span.finish

    def finish(*a, **kw):
        finishes.append((dict(span.tags), len(span.logs)))
        return orig(*a, **kw)

    span.finish = finish
    exc = exc_type('the failure')

    def complete():
        if how == 'never':
            return
        if kind == 'driver':
            fut.finish(how, exc if how == 'error' else 7)
            return
        if how == 'cancel':
            c.expect(fut.cancel(), 'cancel', 'cancelling')
            fut.set_running_or_notify_cancel()
            return
        fut.set_running_or_notify_cancel()
        if how == 'error':
            fut.set_exception(exc)
        else:
            fut.set_result(7)

    if before:
        complete()
        trace_future(fut, span)
    else:
        trace_future(fut, span)
        c.eq(finishes, [], 'finished-early', 'span finished before the future')
        complete()
    if how == 'never':
        c.eq(finishes, [], 'finished-early', 'span finished before the future')
        return
    c.eq(len(finishes), 1, 'finished', 'times that the span is finished', kind=kind, how=how, before=before)
    c.eq((dict(span.tags), len(span.logs)), finishes[0], 'after-the-finish', 'what is in the span when it is finished, and later')
    logged = events(span, 'error')
    if how == 'error':
        c.eq(span.tags.get('error'), True, 'error-tag', 'error tag of the span')
        c.eq(len(logged), 1, 'error-log', 'errors logged')
        c.expect(logged[0]['error.object'] is exc, 'error-object', 'exception attached to the span', log=repr(logged[0])[:300])
        c.expect(logged[0]['error.kind'] is exc_type, 'error-kind', 'kind of exception attached to the span', log=repr(logged[0])[:300])
        c.expect('the failure' in str(logged[0]['message']), 'error-message', 'message attached to the span')
    elif how == 'result':
        c.expect('error' not in span.tags and not logged, 'false-error', 'error attached to a span of a success', tags=span.tags)


@CHECK.scenario(quick=150, thorough=2000)
def traced_exceptions(c):
    """trace_exception attaches the given or current exception with a trimmed stack, and nothing when there is none"""
    rng = c.rng
    tracer = MockTracer()
    span = tracer.start_span('op')
    saved = otexc.max_traceback_length
    limit = rng.choice([None, 10, 100, 5000])
    glob = rng.choice([None, 50, 1000])
    how = rng.choice(['current', 'given', 'nothing', 'no-span'])
    c.rec(limit, glob, how)
    try:
        if glob is not None:
            set_maximum_traceback_length(glob)
        kw = {} if limit is None else {'max_tb_length': limit}
        exc = Boom('message %d' % rng.randrange(100))

        def fails():
            special_local = 12345  # noqa
            raise exc

        if how == 'nothing':
            trace_exception(span, **kw)
            c.eq((span.tags, span.logs), ({}, []), 'no-exception', 'span without an exception')
            return
        def catcher():
            try:
                fails()
            except Boom as e:
                return e

        try:
            if how == 'given':
                raise catcher()
            fails()
        except Boom as e:
            if how == 'no-span':
                c.eq(trace_exception(None, **kw), None, 'no-span', 'result')
                return
            if how == 'current':
                trace_exception(span, **kw)
            tb = e.__traceback__
        if how == 'given':
            tb = tb.tb_next         # that it was raised again here is of no interest
            if rng.random() < 0.5:
                trace_exception(span, Boom, exc, tb, **kw)
            else:
                try:
                    raise KeyError('another one')
                except KeyError:
                    trace_exception(span, Boom, exc, tb, **kw)
        bound = limit or glob or 65536
        c.eq(span.tags, {'error': True}, 'error-tag', 'tags')
        c.eq(len(span.logs), 1, 'error-log', 'number of logs')
        log = span.logs[0].key_values
        c.eq(log['message'], str(exc), 'message', 'message')
        c.expect(log['error.object'] is exc and log['error.kind'] is Boom, 'error-object', 'exception attached')
        c.expect(len(log['stack']) <= bound, 'stack-length', 'length of the stack', length=len(log['stack']), bound=bound)
        if bound > 60000:
            c.expect('traced_exceptions' in log['stack'], 'stack-content', 'the stack does not show where it is')
            c.expect(how != 'given' or '** catcher at' in log['stack'], 'stack-of-given', 'the stack does not show the frame of the exception given')
            c.expect('Boom: %s' % exc in log['stack'] and 'in fails' in log['stack'] and 'another one' not in log['stack'], 'stack-exception',
                     'the stack does not show the exception', stack=log['stack'][:500])
        elif bound <= 100:
            c.eq(len(log['stack']), bound, 'stack-trimmed', 'length of a trimmed stack')
    finally:
        otexc.max_traceback_length = saved


@CHECK.scenario(quick=200, thorough=4000)
def driver_futures(c):
    """wrap_future and parallel_for deliver each result and exception in order, whoever completes the futures and when"""
    rng = c.rng
    n = rng.randrange(1, 5)
    outcomes = [rng.choice(['result', 'result', 'error']) for _ in range(n)]
    c.rec(outcomes)

    def body(s):
        futs = [DriverFuture() for _ in range(n)]
        got = {}

        def completer():
            order = list(range(n))
            rng.shuffle(order)
            for i in order:
                pause(2)
                futs[i].finish(outcomes[i], ('value', i) if outcomes[i] == 'result' else Boom(i))

        def waiter():
            wrapped = [wrap_future(f) for f in futs]
            for i, w in enumerate(wrapped):
                c.expect(isinstance(w, PyFuture) and wrap_future(w) is w, 'wrapped-type', 'type of wrapped future')
                c.expect(not w.cancel(), 'wrapped-cancel', 'future of a query in progress was cancelled')
                got[i] = c.attempt(w.result)

        c.go(completer, waiter)
        for i in range(n):
            kind, v = got[i]
            if outcomes[i] == 'result':
                c.eq((kind, v), ('ok', ('value', i)), 'wrapped-result', 'result of a wrapped future')
            else:
                c.expect(kind == 'exc' and isinstance(v, Boom) and v.args == (i,), 'wrapped-error', 'exception of a wrapped future', got_=repr(v))

    c.sched(body)


@CHECK.scenario(quick=150, thorough=1500)
def queries(c):
    """All queries are sent before the first result is waited for, each with its own arguments, and results come in order"""
    rng = c.rng
    n = rng.randrange(0, 7)
    log = []
    fails_at = rng.choice([None, None, rng.randrange(7)])
    many = rng.random() < 0.5
    args = [rng.choice([None, (i,), ('a', i)]) for i in range(n)]
    c.rec(n, fails_at, many, args)

    class Fut:
        def __init__(self, i):
            self.i = i

        def result(self):
            log.append(('wait', self.i))
            if self.i == fails_at:
                raise Boom(self.i)
            return 'row%d' % self.i

    class Cursor:
        sent = 0

        def execute_async(self, *a):
            log.append(('sent', a))
            self.sent += 1
            return Fut(self.sent - 1)

    query = ['Q%d' % i for i in range(n)] if many else 'Q'
    given = iter(args)
    if many and n and rng.random() < 0.3:
        args = [args[0]] * n            # the same for all of the queries, however many
        given = itertools.repeat(args[0])
    it = parallel_for(Cursor(), (x for x in query) if many and rng.random() < 0.5 else query, given)
    got = []
    kind, e = 'ok', None
    try:
        for row in it:
            got.append(row)
    except Boom as x:
        kind, e = 'exc', x
    stop = fails_at if fails_at is not None and fails_at < n else n
    c.eq(got, ['row%d' % i for i in range(stop)], 'rows', 'results')
    c.eq(kind, 'ok' if stop == n else 'exc', 'query-error', 'outcome')
    sent = [x[1] for x in log if x[0] == 'sent']
    c.eq(sent, [(('Q%d' % i if many else 'Q'),) + (() if a is None else (a,)) for i, a in enumerate(args)], 'sent', 'queries sent')
    c.expect(all(x[0] == 'sent' for x in log[:n]), 'sent-first', 'results waited for before all of the queries are sent')


# ------------------------------------------------------------------------------------------------ tainting


class Block:
    def __init__(self, swallow):
        self.swallow = swallow
        self.seen = 'nothing'

    def __enter__(self):
        return 'entered'

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.seen = exc_val
        return self.swallow


class Obj:
    def __init__(self, v):
        self.v = v
        self.w = [1, v]

    def method(self, x=1):
        return self.v + x

    def __eq__(self, other):
        return isinstance(other, Obj) and bool(self.v == other.v)

    __hash__ = None


BINARY = [('add', operator.add), ('sub', operator.sub), ('mul', operator.mul)]
COMPARE = [('lt', operator.lt), ('le', operator.le), ('gt', operator.gt), ('ge', operator.ge), ('eq', operator.eq), ('ne', operator.ne)]


def plain(v):
    """Remove taint from everything inside, too"""
    v = access_tainted(v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, Obj):
        o = Obj(0)
        o.__dict__ = {k: plain(x) for k, x in v.__dict__.items()}
        return o
    return v


@CHECK.scenario(quick=150, thorough=2500)
def tainted_programs(c):
    """What is computed of a tainted value is tainted, and has the value that it should"""
    rng = c.rng
    c.raises(RuntimeError, lambda: taint(5), 'no-session')
    with TaintingEnvironment() as env:
        c.expect(TaintingEnvironment.get_session_in_progress() is env, 'session', 'session in progress')
        # (tainted or not, reference value without taint)
        pool = [(rng.randrange(1, 9), None) for _ in range(3)]
        pool = [(v, v) for v, _ in pool] + [(taint(v), v) for v, _ in pool]
        for step in range(rng.randrange(4, 20)):
            a, ra = rng.choice([x for x in pool if isinstance(x[0], TaintedObject)])
            b, rb = rng.choice(pool)
            op = rng.choice(['binary', 'binary', 'radd', 'compare', 'compare', 'call', 'str', 'convert', 'inplace', 'again'])
            if op == 'binary':
                name, f = rng.choice(BINARY)
                if abs(ra) > 10 ** 9 or abs(rb) > 10 ** 9:
                    continue
                got, want = f(a, b), f(ra, rb)
            elif op == 'radd':
                name, got, want = 'radd', rb + a, rb + ra
            elif op == 'compare':
                name, f = rng.choice(COMPARE)
                got, want = (f(a, b), f(ra, rb)) if rng.random() < 0.5 else (f(rb, a), f(rb, ra))
                c.expect(isinstance(got, TaintedObject), 'compare-untainted', 'result of a comparison is not tainted', op=name)
                c.eq(bool(got), want, 'compare', 'result of a comparison ' + name)
                continue
            elif op == 'call':
                name, got, want = 'function', (lambda x, y, z=3: x + y * 2 + z)(a, a), ra * 3 + 3
            elif op == 'str':
                c.eq(str(a), str(ra), 'str', 'str() of a tainted value')
                kind, text = c.attempt(lambda: repr(a))
                c.expect(kind == 'ok' and str(ra) in text and 'TAINTED' in text, 'repr', 'repr() of a tainted value', got_=repr(text) if kind == 'exc' else text)
                c.eq('%s' % (a,), '%s' % (ra,), 'str', 'formatting of a tainted value')
                continue
            elif op == 'convert':
                c.eq((int(a), float(a), bool(a), hash(a)), (int(ra), float(ra), bool(ra), hash(ra)), 'convert', 'conversions')
                continue
            elif op == 'inplace':
                got, want, name = taint(access_tainted(a)), ra, 'inplace'
                which = rng.randrange(3)
                if which == 0:
                    got += b
                    want += rb
                elif which == 1:
                    got -= b
                    want -= rb
                elif abs(ra) < 10 ** 9 and abs(rb) < 10 ** 9:
                    got *= b
                    want *= rb
            else:
                c.expect(taint(a) is a and TaintedObject(a) is a, 'taint-again', 'tainting for the second time')
                c.eq(access_tainted(a), ra, 'access', 'access_tainted')
                c.eq(access_tainted(ra), ra, 'access', 'access_tainted of a plain value')
                continue
            c.rec(name, want)
            c.expect(isinstance(got, TaintedObject), 'taint-lost', 'result is not tainted', op=name)
            c.eq(access_tainted(got), want, 'value', 'value computed by ' + name)
            c.expect(not isinstance(access_tainted(got), TaintedObject), 'double-taint', 'tainted value within a tainted value', op=name)
            pool.append((got, want))
            c.count('operations')
        known = sorted(access_tainted(v) for v, _ in pool if isinstance(v, TaintedObject))
        found = [access_tainted(v) for v in env.get_tainted_variables()]
        for v in set(known):
            c.expect(v in found, 'variables', 'tainted variable not found', value=v)
    c.raises(RuntimeError, lambda: taint(5), 'session-over')
    c.raises(RuntimeError, TaintingEnvironment.get_session_in_progress, 'session-over')


@CHECK.scenario(quick=150, thorough=2500)
def tainted_containers(c):
    """Items, attributes, results of methods and iteration of tainted containers are tainted"""
    rng = c.rng
    is_t = lambda x: isinstance(x, TaintedObject)  # noqa
    with TaintingEnvironment():
        items = [rng.choice([rng.randrange(9), rng.randrange(9), None, '', False]) for _ in range(rng.randrange(1, 6))]
        t, ref = taint(list(items)), list(items)
        for _ in range(rng.randrange(2, 12)):
            op = rng.choice(['get', 'set', 'del', 'iter', 'append', 'len', 'sum', 'slice', 'contains', 'extend'])
            c.rec(op, len(ref))
            if op == 'get' and ref:
                i = rng.randrange(len(ref))
                c.expect(is_t(t[i]), 'item-taint', 'item of a tainted list is not tainted')
                c.eq(plain(t[i]), ref[i], 'item', 'item of a list')
            elif op == 'set' and ref:
                i, v = rng.randrange(len(ref)), rng.choice([rng.randrange(9), None])
                t[i] = v
                ref[i] = v
                c.expect(is_t(access_tainted(t)[i]), 'set-item-taint', 'item that was set is not tainted')
            elif op == 'del' and ref:
                i = rng.randrange(len(ref))
                del t[i]
                del ref[i]
            elif op == 'iter':
                got = list(t)
                c.expect(all(is_t(x) for x in got), 'iter-taint', 'iteration yielded something not tainted')
                c.eq([plain(x) for x in got], ref, 'iter', 'iteration')
            elif op == 'append':
                v = rng.choice([rng.randrange(9), None, ''])
                t.append(v)
                ref.append(v)
            elif op == 'len':
                c.eq((len(t), bool(t)), (len(ref), bool(ref)), 'len', 'length')
            elif op == 'extend':
                v = [rng.randrange(9) for _ in range(rng.randrange(3))]
                alias, inner = t, access_tainted(t)
                t += taint(list(v)) if rng.random() < 0.5 else list(v)
                ref += v
                c.expect(is_t(t), 'extend-taint', 'list is no longer tainted')
                c.eq(plain(alias), ref, 'extend-in-place', 'the same list under another name')
                c.expect(access_tainted(t) is inner, 'extend-in-place', 'another list after +=')
            elif op == 'sum' and ref and all(type(x) is int for x in ref):
                got = sum(t)
                c.expect(is_t(got), 'sum-taint', 'sum is not tainted')
                c.eq(plain(got), sum(ref), 'sum', 'sum')
            elif op == 'slice':
                got = t[1:3]
                c.expect(is_t(got), 'slice-taint', 'slice is not tainted')
                c.eq(plain(got), ref[1:3], 'slice', 'slice')
            elif op == 'contains':
                v = rng.randrange(9)
                c.eq(v in t, v in ref, 'contains', 'membership')
            c.eq(plain(t), ref, 'list', 'contents of the list', op=op)
        it = iter(taint(x) if rng.random() < 0.5 else x for x in (1, None, 'x'))
        t = taint(it)
        c.expect(is_t(next(t)) and is_t(next(t)) and is_t(next(t)), 'next-taint', 'what an iterator yields is not tainted')
        c.raises(StopIteration, lambda: next(t), 'next-end')
        fn = taint(lambda *a, **kw: (a, kw))
        got = fn(1, k=None)
        c.expect(is_t(got) and is_t(got[0]) and is_t(got[1]) and is_t(got[1]['k']), 'call-taint', 'result of a tainted function is not tainted')
        c.eq(plain(got), ((1,), {'k': None}), 'call', 'result of a tainted function')
        swallow = rng.random() < 0.5
        block = taint(Block(swallow))
        error = rng.choice([None, Boom('in block')])

        def in_block():
            with block as entered:
                c.expect(is_t(entered), 'enter-taint', 'what a context manager gives is not tainted')
                c.eq(plain(entered), 'entered', 'enter', 'what a context manager gives')
                if error is not None:
                    raise error
            return 'after'
        out = c.attempt(in_block)
        c.expect(out == ('ok', 'after') if error is None or swallow else out == ('exc', error), 'block', 'outcome of a block of a tainted context manager', out=repr(out))
        c.expect(access_tainted(block).__dict__['seen'] is error or access_tainted(access_tainted(block).__dict__['seen']) is error, 'exit-exception', 'exception that __exit__ saw')
        c.expect(set(dir(Block(True))) <= set(dir(block)), 'dir', 'dir() of a tainted object')
        d = taint({'a': 1, 'b': [1, 2]})
        d['c'] = 5
        c.expect(is_t(d['a']) and is_t(d['b']) and is_t(d['b'][0]) and is_t(d['c']), 'dict-taint', 'value of a tainted dict is not tainted')
        c.expect(is_t(d.get('a')), 'method-taint', 'result of a method is not tainted')
        c.eq(plain(d), {'a': 1, 'b': [1, 2], 'c': 5}, 'dict', 'contents of the dictionary')
        del d['a']
        c.eq(plain(d), {'b': [1, 2], 'c': 5}, 'dict', 'contents of the dictionary')
        v = rng.randrange(9)
        o = taint(Obj(v))
        c.expect(is_t(o.v) and is_t(o.w) and is_t(o.w[1]), 'attr-taint', 'attribute of a tainted object is not tainted')
        c.expect(is_t(o.method()) and is_t(o.method(5)), 'method-taint', 'result of a method is not tainted')
        c.eq((plain(o.v), plain(o.method(5)), plain(o.method(x=o.v))), (v, v + 5, 2 * v), 'method', 'results of methods')
        kind, e = c.attempt(lambda: setattr(o, 'v', 77))
        c.expect(kind == 'ok', 'set-attr', 'attribute of a tainted object can not be set', exc=repr(e))
        c.eq(plain(o.v), 77, 'set-attr', 'attribute that was set')
        c.expect(is_t(access_tainted(o).v), 'set-attr-taint', 'attribute that was set is not tainted')
        c.raises(AttributeError, lambda: o.absent, 'absent-attr')
        s = taint('abc')
        c.expect(is_t(s.upper()) and is_t('x' + s) and is_t(s + 'x') and is_t(s[1]), 'str-taint', 'text made of a tainted text is not tainted')
        c.eq((plain(s.upper()), plain('x' + s), plain(s + 'x'), plain(s[1])), ('ABC', 'xabc', 'abcx', 'b'), 'str-value', 'texts')


@CHECK.scenario(quick=150, thorough=3000)
def tainting_sessions(c):
    """Each thread has a session of its own; sessions do not nest; an exception ends the session"""
    rng = c.rng
    n = rng.randrange(1, 4)
    plans = [(rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.4) for _ in range(n)]
    c.rec(plans)

    def body(s):
        def user(i):
            def fn():
                nest, fails, without = plans[i]
                c.raises(RuntimeError, lambda: taint(5), 'no-session')
                if without:
                    return
                try:
                    with TaintingEnvironment() as env:
                        pause(2)
                        c.expect(TaintingEnvironment.get_session_in_progress() is env, 'own-session', 'session in progress is of another thread')
                        t = taint(i)
                        if nest:
                            c.raises(RuntimeError, lambda: TaintingEnvironment().__enter__(), 'nested-session')
                            c.expect(TaintingEnvironment.get_session_in_progress() is env, 'own-session', 'session lost to a nested one')
                        pause(2)
                        c.eq(access_tainted(t + 1), i + 1, 'session-value', 'value')
                        if fails:
                            raise Boom()
                except Boom:
                    c.expect(fails, 'session-exception', 'exception')
                else:
                    c.expect(not fails, 'session-exception', 'exception swallowed by the session')
                c.raises(RuntimeError, lambda: taint(5), 'session-over')
                with TaintingEnvironment():
                    c.eq(access_tainted(taint(3)), 3, 'session-again', 'value')
            return fn

        c.go(*[user(i) for i in range(n)])

    c.sched(body)


class Parent:
    def __init__(self, rng, depth=0):
        self.v = rng.randrange(9)
        self.kids = [Parent(rng, depth + 1) for _ in range(rng.randrange(3))] if depth < 2 else []
        for kid in self.kids:
            kid.parent = self

    def total(self):
        return self.v + sum(kid.total() for kid in self.kids)


@CHECK.scenario(quick=300, thorough=6000)
def other_containers(c):
    """Whatever it is that is tainted: subclasses, things that contain themselves, things that take numbers only"""
    rng = c.rng
    is_t = lambda x: isinstance(x, TaintedObject)  # noqa
    with TaintingEnvironment():
        n = rng.randrange(1, 5)
        items = [rng.choice([rng.randrange(256), 0]) for _ in range(n)]
        i, v = rng.randrange(n), rng.randrange(256)
        for make in (list, MyList, collections.deque, collections.UserList, bytearray, lambda x: array.array('i', x)):
            raw, ref = make(items), make(items)
            st, t = c.attempt(lambda: taint(raw))
            if not c.expect(st == 'ok' and is_t(t) and access_tainted(t) is raw, 'taint-sequence', made=repr(ref), out=repr(t)):
                continue
            c.expect(is_t(t[i]) and access_tainted(t[i]) == ref[i] and all(map(is_t, t)) and len(t) == n, 'sequence', made=repr(ref))
            st, e = c.attempt(lambda: t.__setitem__(i, taint(v) if rng.random() < 0.5 else v))
            ref[i] = v
            c.expect(st == 'ok', 'set-item', made=repr(ref), out=repr(e))
            c.eq([access_tainted(x) for x in t], list(ref), 'sequence', made=repr(ref))
            c.expect(is_t(t[i]), 'set-item-taint', made=repr(ref))
        for make in (dict, MyDict, collections.OrderedDict, collections.UserDict):
            t = taint(make(a=v, b=None))
            c.expect(is_t(t['a']) and is_t(t['b']) and access_tainted(t['a']) == v, 'mapping', made=make.__name__)
            t['c'] = i
            c.eq({k: access_tainted(t[k]) for k in 'abc'}, {'a': v, 'b': None, 'c': i}, 'mapping', made=make.__name__)
        for make in (tuple, MyTuple, frozenset, set):
            t = taint(make(items))
            c.expect(all(map(is_t, t)) and sorted(access_tainted(x) for x in t) == sorted(make(items)), 'immutable', made=make.__name__)
        # something that contains itself
        root = Parent(rng)
        want, kids = root.total(), list(root.kids)
        st, t = c.attempt(lambda: taint(root))
        if c.expect(st == 'ok', 'contains-itself', out=repr(t)[:200]):
            total = t.total()
            c.expect(is_t(total) and access_tainted(total) == want, 'contains-itself', total=repr(total), wanted=want)
            for j, kid in enumerate(kids):
                c.expect(is_t(t.kids[j]) and is_t(t.kids[j].parent) and access_tainted(t.kids[j].parent) is root and is_t(t.kids[j].parent.v), 'contains-itself')
        lst = list(items)
        lst.append(lst)
        st, t = c.attempt(lambda: taint(lst))
        if c.expect(st == 'ok', 'contains-itself', out=repr(t)[:200]):
            c.expect(is_t(t[n]) and access_tainted(t[n]) is lst and is_t(t[n][n][i]) and access_tainted(t[n][n][i]) == items[i], 'contains-itself')
        # a class is not changed, what it makes is tainted
        Made = type('Made', (), {'attr': 5})
        st, t = c.attempt(lambda: taint(Made))
        if c.expect(st == 'ok', 'taint-class', out=repr(t)):
            c.expect(type(Made.attr) is int and is_t(t.attr) and is_t(t()) and type(access_tainted(t())) is Made, 'taint-class')
        once = taint(v)
        c.expect(taint(once) is once and access_tainted(once) == v and access_tainted(v) == v, 'taint-twice')


if __name__ == '__main__':
    CHECK.main()
