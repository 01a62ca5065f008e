"""C05: futures deliver exactly one outcome to everybody who waits, after callbacks had their say"""
import concurrent.futures
import itertools
import random
import threading
import time
from concurrent.futures import Future as PyFuture, ThreadPoolExecutor, CancelledError

from vlib.harness import Check
from checks.common import Boom, BoomBase, MyList, not_locked_out, pause, two_of_a_kind

from satella.coding.concurrent import Future, WrappingFuture, FutureCollection, InvalidStateError, parallel_execute, \
    run_as_future, call_in_separate_thread, parallel_construct, sync_threadpool
from satella.coding.concurrent.futures import wrap_if, ExecutorWrapper, call_in_future
from satella.exceptions import WouldWaitMore

CHECK = Check('C05', 'A case is one scenario of futures being completed, cancelled, wrapped and waited for, under one '
                     'controlled schedule or sequentially; distinct by its parameters and thread switches; non-trivial if '
                     'at least two oracle evaluations took place')


def outcome(fn):
    try:
        return 'ok', fn()
    except CancelledError:
        return 'cancelled', None
    except (Boom, BoomBase) as e:
        return 'exc', e


class Pre:
    """a random pre-done callback, and what it does to (kind, value)"""

    def __init__(self, rng, i):
        self.kind = rng.choice(['add', 'add', 'noop', 'raise', 'except', 'recover'])
        self.i = i
        self.calls = 0
        self.exc = Boom('inserted', i)

    def __call__(self, fut):
        self.calls += 1
        if self.kind == 'add':
            fut.set_result(fut.result() + [self.i])
        elif self.kind == 'raise':
            raise ValueError('logged')
        elif self.kind == 'except':
            fut.set_exception(self.exc)
        elif self.kind == 'recover':
            fut.set_result(['recovered', self.i])

    def model(self, kind, value):
        if self.kind == 'recover':
            return 'ok', ['recovered', self.i]
        if kind == 'ok':
            if self.kind == 'add':
                return 'ok', value + [self.i]
            if self.kind == 'except':
                return 'exc', self.exc
        elif self.kind == 'except':
            return 'exc', self.exc
        return kind, value


@CHECK.scenario(quick=1500, thorough=60000)
def one_outcome_for_everybody(c):
    rng = c.rng
    pres = [Pre(rng, i) for i in range(rng.randrange(0, 4))]
    fails = rng.random() < 0.3
    waiters = rng.randrange(0, 4)
    late_callbacks = rng.randrange(0, 4)
    cancel = rng.random() < 0.25
    delay = rng.choice([0, 0, 1])
    c.rec([p.kind for p in pres], fails, waiters, late_callbacks, cancel, delay)
    err = Boom('original')
    want = ('exc', err) if fails else ('ok', [])
    for p in pres:
        want = p.model(*want)

    def body(s):
        fut = Future()
        for p in pres:
            fut.add_pre_done_callback(p)
        seen, done, succ, failed, chained = [], [], [], [], []
        started = []
        c.expect(fut.on_success(succ.append) is fut, 'returns-self')
        c.expect(fut.on_failure(failed.append) is fut, 'returns-self')
        if not cancel:
            c.expect(fut.chain(chained.append) is fut, 'returns-self')

        def executor():
            if delay:
                time.sleep(delay)
            if not fut.set_running_or_notify_cancel():
                started.append(False)
                return
            started.append(True)
            fut.set_exception(err) if fails else fut.set_result([])

        def waiter():
            k = rng.randrange(3)
            if k == 0:
                seen.append(outcome(fut.result))
            elif k == 1:
                o = outcome(lambda: fut.result(timeout=50))
                seen.append(o)
                c.expect(s.now < 40, 'woken-up')
            else:
                o = outcome(fut.exception)
                if o[0] == 'cancelled':
                    seen.append(o)
                elif o[1] is None:
                    seen.append(('ok', fut.result(0)))
                else:
                    seen.append(('exc', o[1]))

        calls = []

        def late(i):
            def cb(f):
                calls.append((i, f is fut, f.done()))
            fut.add_done_callback(cb)

        def canceller():
            r = fut.cancel()
            done.append(r)
        c.go(executor, *[waiter] * waiters, *[lambda i=i: late(i) for i in range(late_callbacks)],
             *([canceller] if cancel else []))
        if cancel and done[0]:
            c.eq(started, [False], 'cancelled-yet-started')
            final = ('cancelled', None)
        else:
            c.eq(started, [True], 'not-started')
            final = want
        c.eq(outcome(fut.result), final, 'outcome')
        c.expect(fut.done() and not fut.running(), 'done')
        c.eq(fut.cancelled(), final[0] == 'cancelled', 'cancelled')
        for x in seen:
            c.eq(x, final, 'outcome-seen-by-a-waiter')
        c.eq(sorted(calls), [(i, True, True) for i in range(late_callbacks)], 'callback-exactly-once')
        if final[0] != 'cancelled':
            for p in pres:
                c.eq(p.calls, 1, 'pre-done-callback-exactly-once')
        c.eq(succ, [final[1]] if final[0] == 'ok' else [], 'on-success')
        c.eq(failed, [final[1]] if final[0] == 'exc' else [], 'on-failure')
        if not cancel:
            c.eq(chained, [final[1]], 'chain')
        c.raises(InvalidStateError, lambda: fut.set_result(3), 'completed-twice')
        c.raises(InvalidStateError, lambda: fut.set_exception(Boom()), 'completed-twice')
        c.eq(outcome(fut.result), final, 'outcome')
    c.sched(body)


@CHECK.scenario(quick=600, thorough=20000)
def result_is_never_seen_unfinished(c):
    """pre-done callbacks take their time, observers must not be shown the value before these are through"""
    rng = c.rng
    n = rng.randrange(1, 4)
    depth = rng.randrange(1, 3)
    fails = rng.random() < 0.3
    c.rec(n, depth, fails)

    def body(s):
        fut = Future()
        fut.set_running_or_notify_cancel()
        final = Boom('final')
        for _ in range(depth):
            def pre(f):
                pause(2)
                time.sleep(0.5)
                f.set_exception(final) if fails else f.set_result(f.result() + 1)
                pause(2)
            fut.add_pre_done_callback(pre)

        def watch():
            for _ in range(3):
                if rng.random() < 0.5:
                    try:
                        o = outcome(lambda: fut.result(timeout=rng.choice([0, 0.2, 20])))
                    except concurrent.futures.TimeoutError:
                        continue
                    c.eq(o, ('exc', final) if fails else ('ok', depth), 'unfinished-result-seen')
                else:
                    try:
                        e = fut.exception(timeout=rng.choice([0, 0.2, 20]))
                    except concurrent.futures.TimeoutError:
                        continue
                    c.expect(e is (final if fails else None), 'unfinished-result-seen')
                if rng.random() < 0.5:
                    time.sleep(0.25)
        c.go(lambda: fut.set_result(0), *[watch] * n)
    c.sched(body)


@CHECK.scenario(quick=1500, thorough=60000)
def wrapping(c):
    rng = c.rng
    when = rng.choice(['before', 'concurrent', 'concurrent', 'concurrent', 'running'])
    how = rng.choice(['ok', 'ok', 'exc', 'cancel-source', 'cancel-wrapper'])
    pres = [Pre(rng, i) for i in range(rng.randrange(0, 3))]
    waiters = rng.randrange(0, 3)
    c.rec(when, how, [p.kind for p in pres], waiters)
    err = Boom('source')
    want = {'ok': ('ok', []), 'exc': ('exc', err)}.get(how, ('cancelled', None))

    def body(s):
        src = PyFuture()
        registered = threading.Event()

        def complete():
            if how == 'cancel-source':
                c.expect(src.cancel(), 'cancel')
                src.set_running_or_notify_cancel()
                return
            if how == 'cancel-wrapper':
                return
            if src.set_running_or_notify_cancel():
                if when == 'running':
                    registered.wait()
                src.set_result([]) if how == 'ok' else src.set_exception(err)
        box, seen, calls, succ = [], [], [], []

        def wrapper():
            w = rng.choice([wrap_if, WrappingFuture])(src)
            c.expect(isinstance(w, Future) and wrap_if(w) is w, 'wrap-if')
            box.append(w)
            w.add_done_callback(lambda f: calls.append((f is w, f.done(), f.cancelled())))
            w.on_success(succ.append)
            if when == 'running':
                for p in pres:
                    w.add_pre_done_callback(p)
            registered.set()

            def waiter():
                t = rng.choice([None, 60])
                seen.append(outcome(lambda: w.result(t)))
                c.expect(s.now < 40, 'woken-up')
            ts = [threading.Thread(target=waiter) for _ in range(waiters)]
            for t in ts:
                t.start()
            if how == 'cancel-wrapper':
                c.expect(w.cancel(), 'cancel')
                c.expect(src.cancelled(), 'cancel-reaches-source')
            for t in ts:
                t.join()
        if when == 'before':
            complete()
            c.go(wrapper)
        else:
            c.go(complete, wrapper)
        w = box[0]
        final = want
        if when == 'running':
            for p in pres:
                if final[0] != 'cancelled':
                    final = p.model(*final)
        c.eq(outcome(lambda: w.result(1)), final, 'outcome')
        for o in seen:
            c.eq(o, final, 'outcome-seen-by-a-waiter')
        c.eq(calls, [(True, True, final[0] == 'cancelled')], 'callback-exactly-once')
        c.eq(succ, [final[1]] if final[0] == 'ok' else [], 'on-success')
        c.expect(w.done() and w.cancelled() == (final[0] == 'cancelled'), 'state')
    c.sched(body)


class MyCollection(FutureCollection):
    pass


@CHECK.scenario(quick=800, thorough=20000)
def collections(c):
    rng = c.rng
    n = rng.randrange(0, 6)
    futs = [PyFuture() if rng.random() < 0.5 else Future() for _ in range(n)]
    k = rng.randrange(n + 1)
    form = rng.randrange(5)
    Operand = rng.choice([FutureCollection, FutureCollection, MyCollection])
    if form == 0:
        a, b = FutureCollection(rng.choice([list, MyList])(futs[:k])), Operand(futs[k:])
        fc = a + b
        c.expect(fc is not a and fc is not b, 'sum-is-a-new-collection')
        c.eq((list(a), list(b)), (futs[:k], futs[k:]), 'operands-unchanged')
    elif form == 1:
        a, b = FutureCollection(tuple(futs[:k])), futs[k:]
        fc = a + b
        c.eq((list(a), b), (futs[:k], futs[k:]), 'operands-unchanged')
    elif form == 2:
        fc = FutureCollection(futs[:k])
        fc += rng.choice([list, tuple, MyList])(futs[k:]) if rng.random() < 0.5 else Operand(futs[k:])
    elif form == 3:
        fc = FutureCollection(iter(futs[:k]))
        for f in futs[k:]:
            if rng.random() < 0.5:
                c.expect(fc.add(f) is fc, 'add')
            else:
                fc += f
    else:
        fc = FutureCollection()
        for i, f in enumerate(futs):
            before = fc
            fc = fc + f
            c.eq(list(before), futs[:i], 'operands-unchanged')
            c.expect(fc is not before, 'sum-is-a-new-collection')
    if rng.random() < 0.3:
        # what gets added to a sum is no business of its operands, and the other way round
        total = fc + FutureCollection()
        extra = Future()
        (total if rng.random() < 0.5 else fc).add(extra)
        c.eq(sorted((len(total), len(fc))), [n, n + 1], 'operands-unchanged')
        fc = total if len(total) == n else FutureCollection(futs)
    c.eq(len(fc), n, 'len')
    for i in range(n):
        c.expect(fc[i] is futs[i], 'getitem')
    states = []
    for f in futs:
        st = rng.choice(['pending', 'running', 'cancelled', 'pending'])
        if st == 'running':
            f.set_running_or_notify_cancel()
        elif st == 'cancelled':
            f.cancel()
        states.append(st)
    c.rec(form, n, k, states)
    op = rng.choice(['cancel', 'start', 'result', 'exception', 'callback', 'timeout'])
    c.rec(op)
    if op == 'cancel':
        r = fc.cancel()
        c.eq(bool(r), all(s != 'running' for s in states), 'cancel-result', states=states)
        c.eq([f.cancelled() for f in futs], [s != 'running' for s in states], 'all-are-cancelled', states=states)
    elif op == 'start':
        for f, st in zip(futs, states):
            if st == 'running':
                return
        r = fc.set_running_or_notify_cancel()
        c.eq(bool(r), any(s == 'pending' for s in states), 'start-result')
        c.eq([f.running() for f in futs], [s == 'pending' for s in states], 'all-are-started', states=states)
    elif op in ('result', 'exception', 'callback'):
        if 'cancelled' in states:
            for f, st in zip(futs, states):
                if st != 'cancelled':
                    f.set_result(1)
            c.raises(CancelledError, fc.result, 'cancelled-member')
            c.raises(CancelledError, fc.exception, 'cancelled-member')
            return
        calls = []
        one = rng.random() < 0.4 and n > 0
        fc.add_done_callback(calls.append, only_one=True) if one else fc.add_done_callback(calls.append)
        if op == 'exception' and rng.random() < 0.5:
            e = Boom()
            fc.set_exception(e)
            c.expect(fc.exception() is (e if n else None), 'exception')
            if n:
                c.expect(c.raises(Boom, fc.result, 'result') is e, 'exception')
        elif rng.random() < 0.5:
            fc.set_result(7)
            c.eq(fc.result(), [7] * n, 'result')
            c.expect(fc.exception(1) is None, 'exception')
        else:
            errs = []
            for i, f in enumerate(futs):
                if rng.random() < 0.3:
                    e = Boom(i)
                    errs.append(e)
                    f.set_exception(e)
                else:
                    f.set_result(i)
            if errs:
                c.expect(fc.exception() is errs[0], 'first-exception')
                c.expect(c.raises(Boom, fc.result, 'result') is errs[0], 'first-exception')
            else:
                c.eq(fc.result(5), list(range(n)), 'result')
                c.expect(fc.exception() is None, 'exception')
        c.eq(len(calls), 1 if one else n, 'callbacks')
        c.expect(all(a is b for a, b in zip(calls, futs)), 'callbacks')
    else:
        if n and 'cancelled' not in states:
            with c.virtual_time():
                c.raises(WouldWaitMore, lambda: fc.result(0.5), 'timeout')
                c.raises(WouldWaitMore, lambda: fc.exception(0.5), 'timeout')
    if not n:
        c.raises(IndexError, lambda: fc.add_done_callback(print, only_one=True), 'empty')
        c.eq(fc.result(), [], 'empty')
        c.expect(fc.exception() is None, 'empty')


def work(rng):
    """a random function: (fn, expected outcome)"""
    k = rng.randrange(5)
    v = rng.choice([None, 0, 'x', (1, 2)])
    e = Boom(v)

    def fn(*args, **kwargs):
        pause(k % 3)
        if k == 4:
            time.sleep(1)
        if k == 3:
            raise e
        return v, args, tuple(sorted(kwargs.items()))
    return fn, k == 3, v, e


@CHECK.scenario(quick=600, thorough=20000)
def executors(c):
    """ExecutorWrapper, call_in_future, run_as_future, call_in_separate_thread, parallel_execute"""
    rng = c.rng
    jobs = [(work(rng), (i,) * rng.randrange(3), {'k': i} if rng.random() < 0.5 else {},
             rng.choice(['wrapper', 'call_in_future', 'run_as_future', 'separate', 'separate-delay']))
            for i in range(rng.randrange(1, 5))]
    workers = rng.randrange(1, 4)
    c.rec([(j[1], j[2], j[3], j[0][1]) for j in jobs], workers)

    def body(s):
        tpe = ThreadPoolExecutor(max_workers=workers)
        ex = ExecutorWrapper(tpe)
        futs = []
        for (fn, boom, v, e), args, kw, how in jobs:
            if how == 'wrapper':
                f = ex.submit(fn, *args, **kw)
                c.expect(isinstance(f, Future), 'satella-future')
            elif how == 'call_in_future':
                call = call_in_future(rng.choice([tpe, ex]), fn, *args, **kw)
                f = call('ignored', ignored=True)
                c.expect(isinstance(f, Future), 'satella-future')
            elif how == 'run_as_future':
                f = run_as_future(fn)(*args, **kw)
            elif how == 'separate':
                f = call_in_separate_thread(daemon=True)(fn)(*args, **kw)
                c.expect(f.thread.future is f, 'thread-attribute')
            else:
                f = call_in_separate_thread(delay=2, no_thread_attribute=True)(fn)(*args, **kw)
                c.expect(not hasattr(f, 'thread'), 'thread-attribute')
            futs.append((f, s.now))
        for (f, t0), ((fn, boom, v, e), args, kw, how) in zip(futs, jobs):
            kind, r = outcome(f.result)
            if boom:
                c.expect(kind == 'exc' and r is e, 'outcome', got=(kind, r))
                c.expect(f.exception() is e, 'outcome')
            else:
                c.eq((kind, r), ('ok', (v, args, tuple(sorted(kw.items())))), 'outcome')
            if how == 'separate-delay':
                c.expect(s.now - t0 >= 2 - 1e-6, 'delay')
        ex.shutdown()
    c.sched(body)


@CHECK.scenario(quick=300, thorough=8000)
def thread_futures_always_complete(c):
    """whatever the function does to leave, its future gets completed"""
    rng = c.rng
    exc = rng.choice([Boom('x'), BoomBase('y'), SystemExit(3), KeyboardInterrupt(), GeneratorExit(), MemoryError()])
    how = rng.choice(['run_as_future', 'separate'])
    c.rec(type(exc).__name__, how)

    def body(s):
        def fn():
            pause(rng.randrange(3))
            raise exc
        if how == 'run_as_future':
            f = run_as_future(fn)()
        else:
            f = call_in_separate_thread()(fn)()
            seen = []
            g = call_in_separate_thread(name='called-so', daemon=True)(
                lambda *a, **k: seen.append((a, k, threading.current_thread().name,
                                             threading.current_thread().daemon)) or 7)(1, *[2], k=3)
            c.eq(g.result(timeout=20), 7, 'outcome')
            c.eq(seen, [((1, 2), {'k': 3}, 'called-so', True)], 'thread-arguments')
        c.expect(f.exception(timeout=20) is exc, 'outcome')
        try:
            f.result(0)
            c.fail('outcome', 'exception was lost')
        except BaseException as e:  # noqa
            c.expect(e is exc, 'outcome')
    hook, unhandled = threading.excepthook, []
    threading.excepthook = lambda args: unhandled.append(args.exc_value)
    try:
        c.sched(body)
    finally:
        threading.excepthook = hook
    c.eq([e for e in unhandled if type(e).__name__ != 'Abort'], [], 'thread-ends-in-peace', 'exceptions of the threads themselves')


@CHECK.scenario(quick=500, thorough=15000)
def parallel(c):
    rng = c.rng
    n = rng.randrange(0, 6)
    xs = list(range(n))
    durations = [rng.choice([0, 0, 0.5, 2]) for _ in xs]
    bad = {i for i in xs if rng.random() < 0.2}
    nones = {i for i in xs if rng.random() < 0.2}
    workers = rng.randrange(1, 4)
    mode = rng.choice(['execute', 'execute-kw', 'construct'])
    if mode == 'construct':
        bad = set()
    c.rec(n, durations, sorted(bad), sorted(nones), workers, mode)

    def body(s):
        tpe = ThreadPoolExecutor(max_workers=workers)
        ran = []

        def fn(i, extra=0):
            pause(rng.randrange(3))
            if durations[i]:
                time.sleep(durations[i])
            ran.append(i)
            if i in bad:
                raise Boom(i)
            if i in nones:
                return None
            return i * 10 + extra

        if mode == 'construct':
            res = parallel_construct(rng.choice([xs, iter(xs), tuple(xs)]), fn, tpe)
            c.eq(res, [i * 10 for i in xs if i not in nones], 'parallel-construct')
        else:
            sub = call_in_separate_thread()(fn) if rng.random() < 0.5 else (lambda *a, **k: tpe.submit(fn, *a, **k))
            if mode == 'execute':
                it = parallel_execute(sub, ((i,) for i in xs))
            else:
                kws = [{'extra': 1}] * n
                if rng.random() < 0.3:
                    it = parallel_execute(sub, iter([(i,) for i in xs]), itertools.repeat({'extra': 1}))
                elif rng.random() < 0.3:
                    it = parallel_execute(sub, ((i,) for i in itertools.count()), kws)
                else:
                    it = parallel_execute(sub, [(i,) for i in xs], kws)
            res = list(it)
            c.eq(len(res), n, 'parallel-execute')
            for i, r in zip(xs, res):
                if i in bad:
                    c.expect(isinstance(r, Boom) and r.args == (i,), 'parallel-execute', got=r)
                elif i in nones:
                    c.expect(r is None, 'parallel-execute', got=r)
                else:
                    c.eq(r, i * 10 + (1 if mode == 'execute-kw' else 0), 'parallel-execute')
        c.eq(sorted(ran), xs, 'each-exactly-once')
    c.sched(body)


@CHECK.scenario(quick=500, thorough=15000)
def syncing_a_threadpool(c):
    rng = c.rng
    workers = rng.randrange(1, 4)
    jobs = [rng.choice([0, 0, 0.3, 1, 4]) for _ in range(rng.randrange(0, 7))]
    max_wait = rng.choice([None, None, 0, 0.5, 2, 100])
    wrapped = rng.random() < 0.5
    c.rec(workers, jobs, max_wait, wrapped)

    def body(s):
        tpe = ThreadPoolExecutor(max_workers=workers)
        ex = ExecutorWrapper(tpe) if wrapped else tpe
        finished = []

        def job(i, d):
            if d:
                time.sleep(d)
            pause(rng.randrange(3))
            finished.append(i)
        futs = [ex.submit(job, i, d) for i, d in enumerate(jobs)]
        t0 = s.now
        try:
            try:
                sync_threadpool(ex, max_wait=max_wait) if max_wait is not None else sync_threadpool(ex)
            finally:
                c.expect(max_wait is None or s.now - t0 <= max_wait + 1.6, 'timeout-honored', 'time taken', took=s.now - t0, max_wait=max_wait)
            c.eq(sorted(finished), list(range(len(jobs))), 'synced-before-done')
        except WouldWaitMore:
            c.expect(max_wait is not None, 'spurious-timeout')
            c.expect(s.now - t0 >= max_wait - 1e-6, 'spurious-timeout', waited=s.now - t0)
            # the queue is polled, so allow for that
            c.expect(len(finished) < len(jobs) or max_wait < sum(jobs) + 1.5, 'spurious-timeout', jobs=jobs)
        # pool has to remain usable afterwards
        again = [ex.submit(job, 100 + i, 0) for i in range(workers + 1)]
        for f in again + futs:
            f.result(timeout=1000)
        c.eq(len(finished), len(jobs) + workers + 1, 'pool-usable-afterwards')
        ex.shutdown()
    c.sched(body)


@CHECK.scenario(quick=600, thorough=15000)
def late_pre_done(c):
    """A pre-done callback registered while, or after, a future is being completed is still called, exactly once"""
    rng = c.rng
    fails = rng.random() < 0.4
    n = rng.randrange(1, 4)
    delayed = rng.random() < 0.3
    c.rec(fails, n, delayed)

    def body(s):
        fut = Future()
        fut.set_running_or_notify_cancel()
        calls = []
        err = Boom('x')

        def finish():
            fut.set_exception(err) if fails else fut.set_result(7)

        def register(i):
            def fn():
                if delayed:
                    time.sleep(1)

                def pre(f):
                    c.expect(f is fut, 'pre-done-argument')
                    c.expect(f.exception() is err if fails else f.result() == 7 and f.exception() is None, 'pre-done-sees-outcome')
                    calls.append(i)
                fut.add_pre_done_callback(pre)
            return fn
        c.go(finish, *[register(i) for i in range(n)])
        c.eq(sorted(calls), list(range(n)), 'pre-done-exactly-once')
    c.sched(body, gran=rng.choice(['line', 'opcode']))


@CHECK.scenario(quick=600, thorough=15000)
def waited_for_together(c):
    """concurrent.futures.wait and as_completed work on futures of this library, however they end"""
    rng = c.rng
    n = rng.randrange(1, 4)
    plans = [(rng.choice([0, 0, 1, 3]), rng.choice(['ok', 'ok', 'exc', 'cancel'])) for _ in range(n)]
    how = rng.choice([concurrent.futures.ALL_COMPLETED, concurrent.futures.FIRST_COMPLETED, concurrent.futures.FIRST_EXCEPTION, 'as_completed'])
    wrapped = [rng.random() < 0.4 for _ in range(n)]
    plans = [(d, 'ok' if w and k == 'cancel' else k) for (d, k), w in zip(plans, wrapped)]
    c.rec(plans, how, wrapped)

    def body(s):
        src = [PyFuture() if w else Future() for w in wrapped]
        futs = [WrappingFuture(f) if w else f for f, w in zip(src, wrapped)]
        ended = {}

        def finisher(i):
            def fn():
                delay, kind = plans[i]
                if delay:
                    time.sleep(delay)
                with s.nopreempt():
                    ended[i] = s.now
                if kind == 'cancel':
                    c.expect(src[i].cancel(), 'cancelled')
                    src[i].set_running_or_notify_cancel()
                elif kind == 'exc':
                    src[i].set_exception(Boom(i))
                else:
                    src[i].set_result(i)
            return fn

        def waiter():
            if how == 'as_completed':
                got = list(concurrent.futures.as_completed(futs))
                c.eq(sorted(futs.index(f) for f in got), list(range(n)), 'as-completed')
                return
            done, pending = concurrent.futures.wait(futs, return_when=how)
            c.expect(len(done) + len(pending) == n and all(f.done() for f in done), 'wait-sets')
            if how == concurrent.futures.ALL_COMPLETED:
                c.eq(len(done), n, 'wait-all')
            elif how == concurrent.futures.FIRST_COMPLETED:
                c.expect(len(done) >= 1, 'wait-first')
                c.expect(s.now <= min(d for d, _ in plans) + 0.01, 'wait-first', 'too late', now=s.now)
            else:
                bad = [d for d, k in plans if k == 'exc']
                c.expect(len(done) == n or any(not f.cancelled() and f.exception() for f in done), 'wait-exception')
                c.expect(s.now <= (min(bad) if bad else max(d for d, _ in plans)) + 0.01, 'wait-exception', 'too late', now=s.now)
        c.go(waiter, *[finisher(i) for i in range(n)])
    c.sched(body)


@CHECK.scenario(quick=300, thorough=6000)
def running_state(c):
    """What has begun cannot be cancelled any more, and says that it is running; shutting down waits if asked to"""
    rng = c.rng
    how = rng.choice(['run_as_future', 'separate', 'wrapper', 'wrapping', 'delayed'])
    d = rng.choice([1, 5])
    wait = rng.choice([True, False, None])
    c.rec(how, d, wait)

    def body(s):
        began, finished = [], []

        def fn():
            began.append(s.now)
            time.sleep(d)
            finished.append(s.now)
            return 3
        if how == 'wrapping':
            for before in (False, True):
                src = PyFuture()
                w = WrappingFuture(src)
                if before:
                    c.expect(w.cancel(), 'cancelled')
                c.eq(w.set_running_or_notify_cancel(), not before, 'set-running')
                c.eq((src.running(), w.running(), w.cancelled(), src.cancelled()), (not before, not before, before, before), 'running')
                if not before:
                    c.eq(w.cancel(), False, 'cancelled-while-running')
            return
        if how == 'wrapper':
            ex = ExecutorWrapper(ThreadPoolExecutor(max_workers=1))
            f = ex.submit(fn)
        elif how == 'run_as_future':
            f = run_as_future(fn)()
        elif how == 'separate':
            f = call_in_separate_thread()(fn)()
        else:
            f = call_in_separate_thread(delay=2)(fn)()
        t0 = s.now
        time.sleep(0.5 if how != 'delayed' else 2.5)
        c.eq(len(began), 1, 'begun')
        c.expect(f.running() and not f.done(), 'running')
        c.eq(f.cancel(), False, 'cancelled-while-running')
        if how == 'wrapper':
            if wait is None:
                ex.shutdown()
            else:
                ex.shutdown(wait=wait)
            c.expect((s.now - t0 >= d - 1e-6) == (wait is not False), 'shutdown-wait', 'time that shutdown took', took=s.now - t0, d=d)
            c.raises(RuntimeError, lambda: ex.submit(fn), 'submit-after-shutdown')
        c.eq(f.result(), 3, 'outcome')
        c.eq(len(finished), 1, 'outcome')
    c.sched(body)


@CHECK.scenario(quick=150, thorough=3000)
def parallel_tracing(c):
    """parallel_construct opens a child span of the active one for each element, titled as asked, in the thread that processes it"""
    import opentracing
    from opentracing.mocktracer import MockTracer
    rng = c.rng
    n = rng.randrange(0, 5)
    title = rng.choice([None, 'title'])
    active = rng.random() < 0.7
    tracer = MockTracer()
    saved = opentracing.tracer
    c.rec(n, title, active)

    def body(s):
        opentracing.set_global_tracer(tracer)
        try:
            tpe = ThreadPoolExecutor(max_workers=2)
            seen = []

            def fn(i):
                sp = tracer.active_span
                seen.append((i, sp and sp.context.span_id))
                time.sleep(rng.choice([0, 1]))
                if i == 3:
                    return None
                return -i
            kw = {} if title is None else {'span_title': title}
            if active:
                with tracer.start_active_span('outer') as scope:
                    outer = scope.span.context.span_id
                    res = parallel_construct(range(n), fn, tpe, **kw)
                    c.eq(tracer.active_span.context.span_id, outer, 'span-left')
            else:
                outer = None
                res = parallel_construct(range(n), fn, tpe, **kw)
            tpe.shutdown()
            c.eq(res, [-i for i in range(n) if i != 3], 'parallel-construct')
            spans = {x.context.span_id: x for x in tracer.finished_spans() if x.operation_name != 'outer'}
            c.eq(len(spans), n if active else 0, 'span-each')
            for i, sid in seen:
                if active:
                    c.expect(sid in spans and spans[sid].parent_id == outer and spans[sid].operation_name == (title or 'New span'), 'span-child',
                             'span of an element', element=i, span=sid and spans.get(sid) and (spans[sid].operation_name, spans[sid].parent_id))
                else:
                    c.expect(sid is None, 'span-none', 'a span without an active one')
            if active:
                c.eq(len({sid for _, sid in seen}), n, 'span-each')
        finally:
            opentracing.set_global_tracer(saved)
    c.sched(body)


@CHECK.scenario(quick=60, thorough=1000)
def after_failures(c):
    """what cannot be done to a future does not keep others from it"""
    def make(s):
        def done(pre=None, wrapped=False):
            f = Future()
            if pre:
                f.add_pre_done_callback(pre)
            f.set_result(1)
            return f

        def boom(*args):
            raise Boom()

        def use(f):
            def inner():
                assert f.done() and f.result(0) == 1
                got = []
                f.add_done_callback(got.append)
                f.add_pre_done_callback(got.append)
                assert len(got) == 2
            return inner
        f1, f2, f3, f4 = done(), done(), done(boom), done()
        py = PyFuture()
        py.set_result(1)
        f5 = wrap_if(py)
        f6, f7 = Future(), Future()
        f6.add_pre_done_callback(boom)
        f6.add_done_callback(boom)

        def fail_and_see():
            f6.set_result(1)
            assert False

        def later():
            f7.set_result(1)
            use(f7)()
        return [(lambda: f1.set_result(2), use(f1), 'set_result'), (lambda: f2.set_exception(Boom()), use(f2), 'set_exception'),
                (lambda: f3.add_pre_done_callback(boom), use(f3), 'pre-done'), (lambda: f4.add_done_callback(boom), use(f4), 'done'),
                (lambda: f5.set_result(5), use(f5), 'wrapped'), (fail_and_see, use(f6), 'callbacks'), (lambda: f7.result(0), later, 'result'),
                (lambda: f7.exception('x'), lambda: f7.done(), 'exception')]
    not_locked_out(c, make)


@CHECK.scenario(quick=60, thorough=1500)
def executors_of_all_kinds(c):
    """A wrapped executor remains one in everything that executors do, whatever class it is of"""
    rng = c.rng

    class Pool(ThreadPoolExecutor):
        pass

    class Wrapper(ExecutorWrapper):
        pass
    n = rng.randrange(1, 30)
    workers = rng.randrange(1, 4)
    cancelling = rng.random() < 0.5
    c.rec(n, workers, cancelling)
    gate, started = threading.Event(), threading.Semaphore(0)

    def boom():
        raise Boom()

    def blocked():
        started.release()
        gate.wait(30)
        return 'blocked'
    pool = rng.choice([Pool, ThreadPoolExecutor])(max_workers=workers)
    ex = rng.choice([Wrapper, ExecutorWrapper])(pool)
    c.expect(isinstance(ex, concurrent.futures.Executor), 'executor')
    try:
        c.eq(list(ex.map(lambda a, b: (a, b), range(n), range(5, 5 + n))), [(i, i + 5) for i in range(n)], 'executor-map')
        c.eq(list(ex.map(lambda a: a, range(n), chunksize=2, timeout=30)), list(range(n)), 'executor-map')
        f = ex.submit(lambda *a, **k: (a, k), 1, x=2)
        c.expect(isinstance(f, Future), 'executor-future')
        c.eq(f.result(30), ((1,), {'x': 2}), 'executor-submit')
        c.raises(Boom, lambda: ex.submit(boom).result(30), 'executor-submit')
        running = [ex.submit(blocked) for _ in range(workers)]
        for _ in running:
            started.acquire(timeout=30)
        waiting = [ex.submit(lambda: 'ran') for _ in range(3)]
        if cancelling:
            ex.shutdown(wait=False, cancel_futures=True)
        else:
            ex.shutdown(False)
        gate.set()
        ex.shutdown()
        c.eq([f.result(30) for f in running], ['blocked'] * workers, 'executor-shutdown')
        c.eq([f.cancelled() for f in waiting], [cancelling] * 3, 'executor-shutdown')
        c.raises(RuntimeError, lambda: ex.submit(blocked), 'executor-shutdown')
    finally:
        gate.set()
        pool.shutdown()
    with rng.choice([Wrapper, ExecutorWrapper])(rng.choice([Pool, ThreadPoolExecutor])(max_workers=1)) as ex:
        f = ex.submit(lambda: 5)
    c.expect(f.done() and f.result() == 5, 'executor-context')


@CHECK.scenario(quick=200, thorough=5000)
def two_at_once(c):
    """Two futures share neither callbacks nor results"""
    rng = c.rng
    how = rng.choice(['set_result', 'set_exception', 'cancel'])
    log = []

    def make():
        f = Future()
        f.calls = []
        f.add_done_callback(lambda g: f.calls.append('done'))
        if hasattr(f, 'add_pre_done_callback'):
            f.add_pre_done_callback(lambda g: f.calls.append('pre'))
        return f

    def use(f):
        if how != 'cancel':
            f.set_running_or_notify_cancel()
        f.cancel() if how == 'cancel' else getattr(f, how)(Boom('x') if how == 'set_exception' else 5)

    def look(f):
        return f.done(), f.cancelled(), sorted(f.calls), f.done() and how == 'set_result' and f.result()
    two_of_a_kind(c, [('future', make, use, look)])


@CHECK.scenario(quick=800, thorough=25000)
def only_one_may_complete(c):
    """Some threads complete a future, each its own way, and others cancel it: one of them succeeds and its outcome is everybody's"""
    rng = c.rng
    running = rng.random() < 0.5
    hows = [rng.choice(['result', 'result', 'exception', 'cancel']) for _ in range(rng.randrange(2, 5))]
    pres = rng.randrange(0, 3)
    c.rec(running, hows, pres)

    def body(s):
        fut = Future()
        if running:
            fut.set_running_or_notify_cancel()
        pre, done, won, seen = [], [], [], []
        errs = [Boom(i) for i in range(len(hows))]

        def take_time(f):
            pre.append(f)
            pause()
        for _ in range(pres):
            fut.add_pre_done_callback(take_time)
        fut.add_done_callback(lambda f: done.append(outcome(lambda: f.result(0))))

        def completer(i, how):
            def run():
                try:
                    if how == 'result':
                        fut.set_result(i)
                        won.append(('ok', i))
                    elif how == 'exception':
                        fut.set_exception(errs[i])
                        won.append(('exc', errs[i]))
                    elif fut.cancel() and ('cancelled', None) not in won:
                        won.append(('cancelled', None))
                except InvalidStateError:
                    c.expect(outcome(lambda: fut.result(0))[0] != 'timeout', 'refused-as-it-is-done')
            return run

        def adder():
            fut.add_done_callback(lambda f: seen.append(outcome(lambda: f.result(0))))
        c.go(adder, *[completer(i, how) for i, how in enumerate(hows)])
        if not won:
            c.expect(running and set(hows) == {'cancel'}, 'somebody-completes-it')
            return
        c.eq(len(won), 1, 'completed-once', won=won)
        c.eq([outcome(lambda: fut.result(0)), done, seen], [won[0], won, won], 'outcome-of-the-one')
        c.eq(len(pre), 0 if won[0][0] == 'cancelled' else pres, 'pre-callbacks-once')
    c.sched(body)
