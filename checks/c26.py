"""C26: time is measured, limited, waited for and parsed as documented"""
import time
import warnings
from concurrent.futures import Future

from vlib.harness import Check
from checks.common import Boom, BoomBase

import satella.coding
from satella.exceptions import WouldWaitMore
from satella.instrumentation.metrics import AggregateMetric, DEBUG, LabeledMetric, RUNTIME, getMetric
from satella.time import ExponentialBackoff, measure, parse_time_string, sleep, time_as_int, time_ms, time_us

CHECK = Check('C26', 'A case is one random history of operations on a counter or a backoff under a virtual clock, one random measured '
                     'program, or one schedule of threads waiting for availability; distinct by history and interleaving; '
                     'non-trivial if at least two oracle evaluations took place')


class FakeClock:
    def __init__(self, t=1000.0):
        self.t = t

    def __call__(self):
        return self.t


@CHECK.scenario(quick=120, thorough=4000)
def counter_history(c):
    """Sequences of start, stop, reset and readings"""
    rng = c.rng
    clk = FakeClock()
    timeout = rng.choice([None, 5, 20])
    stopped_first = rng.random() < 0.3
    frozen = rng.random() < 0.8
    m = measure(time_getter_callable=clk, create_stopped=stopped_first, timeout=timeout, stop_on_stop=frozen)
    running, acc, since = not stopped_first, 0.0, clk.t

    if not frozen:
        stopped_first = False
        running, acc, since = True, 0.0, clk.t

    def elapsed():
        return acc + (clk.t - since if running else 0)
    for step in range(rng.randrange(5, 25)):
        clk.t += rng.choice([0, 0.5, 1, 3.25])
        op = rng.choice(['read', 'start', 'stop', 'reset', 'with', 'reset_and_start', 'reset_and_stop', 'update', 'adjust'])
        c.rec('op', (op, clk.t))
        if not frozen:
            if op in ('start', 'stop', 'update'):
                c.raises(TypeError, getattr(m, op), 'counter-not-stoppable')
            elif op == 'with':
                with m as mm:
                    c.expect(mm is m, 'counter-enter', 'with has to give the counter itself')
            elif op == 'reset':
                m.reset()
                since = clk.t
        elif op in ('start', 'update'):
            if running:
                c.raises(TypeError, getattr(m, op), 'counter-start-running')
            else:
                getattr(m, op)()
                running, since = True, clk.t
        elif op == 'stop':
            if running:
                m.stop()
                running, acc = False, elapsed()
            else:
                c.raises(TypeError, m.stop, 'counter-stop-stopped')
        elif op == 'reset':
            m.reset()
            running, acc = False, 0.0
        elif op == 'reset_and_start':
            m.reset_and_start()
            running, acc, since = True, 0.0, clk.t
        elif op == 'reset_and_stop':
            if running:
                m.reset_and_stop()
                running, acc = False, 0.0
            else:
                c.raises(TypeError, m.reset_and_stop, 'counter-stop-stopped')
        elif op == 'adjust':
            if running:
                d = rng.choice([1, -2])
                m.adjust(d)
                since += d
        elif op == 'with':
            if not running:
                running, since = True, clk.t
            boom = rng.random() < 0.3
            try:
                with m as mm:
                    c.expect(mm is m, 'counter-enter', 'with has to give the counter itself')
                    clk.t += rng.choice([0, 1])
                    c.eq(m(), elapsed(), 'counter-inside', 'wrong time within the section')
                    if boom:
                        raise Boom()
                c.expect(not boom, 'counter-swallowed', 'an exception was swallowed')
            except Boom:
                c.expect(boom, 'x', '')
            running, acc = False, elapsed()
        e = elapsed()
        c.eq((m(), m.get_time_elapsed()), (e, e), 'counter-elapsed', 'wrong time elapsed', operation=op)
        if frozen:
            c.eq(m.stopped, not running, 'counter-stopped', 'wrong state', operation=op)
        if timeout is None:
            c.eq((m.timeouted, m.time_remaining), (False, None), 'counter-no-timeout', 'there is no timeout')
            m.assert_not_timeouted()
        else:
            c.eq((m.timeouted, m.time_remaining), (e >= timeout, max(0, timeout - e)), 'counter-timeout', 'wrong state of the timeout', elapsed=e)
            if e >= timeout:
                c.raises(WouldWaitMore, m.assert_not_timeouted, 'counter-assert')
            else:
                m.assert_not_timeouted()


@CHECK.scenario(quick=80, thorough=2000)
def measured_functions(c):
    """Functions, methods and generators that measure themselves: each call has its own counter"""
    rng = c.rng
    clk = FakeClock()
    result = object()
    extra = {k: rng.randrange(9) for k in rng.sample(['a', 'b', 'fun', 's'], rng.randrange(3))}
    for stopped in (True, False):
        tool = measure(time_getter_callable=clk, create_stopped=stopped)

        @tool
        def plain(m, *args, **kwargs):
            return m, args, kwargs, result

        @tool
        def generating(m, *args, **kwargs):
            yield args
            return m, args, kwargs, result

        class Holder:
            @tool
            def method(self, m, *args, **kwargs):
                return m, (self,) + args, kwargs, result

            @tool
            def gen(self, m, *args, **kwargs):
                yield args
                return m, (self,) + args, kwargs, result
        h = Holder()

        def exhausted(g):
            try:
                next(g)
                next(g)
            except StopIteration as e:
                return e.value
        args = tuple(rng.randrange(9) for _ in range(rng.randrange(3)))
        for got, want in ((plain(*args, **extra), args), (exhausted(generating(*args, **extra)), args),
                          (h.method(*args, **extra), (h,) + args), (exhausted(h.gen(*args, **extra)), (h,) + args)):
            c.expect(isinstance(got, tuple) and isinstance(got[0], measure) and got[0] is not tool, 'fun-counter', 'no counter of its own', got_=repr(got))
            c.eq(got[1:], (want, extra, result), 'fun-arguments', 'arguments or result changed on the way', stopped=stopped)
            c.expect(got[0].stopped, 'fun-stopped', 'the counter runs although the call has ended')
            if stopped:
                c.eq(got[0](), 0, 'fun-not-started', 'a counter created stopped has been started')
        c.expect(tool.stopped is stopped, 'fun-original', 'the original counter has been touched')
    base = measure(time_getter_callable=clk, create_stopped=rng.random() < 0.2)
    auto = not base.create_stopped
    seen = []

    def work(m, plan):
        out = 0
        start = clk.t
        for step in plan:
            if step == 'call' and len(plan) > 2:
                r = fun(plan[2:], flag=1)
                c.eq(r, ('r', plan[2:]), 'fun-result', 'wrong result')
            elif step == 'boom':
                raise Boom(clk.t)
            elif not isinstance(step, str):
                clk.t += step
            if auto:
                c.eq(m(), clk.t - start, 'fun-elapsed', 'wrong time inside', plan=plan)
        seen.append(m)
        return 'r', plan

    @base
    def fun(m, plan, flag=0):
        """docs"""
        return work(m, plan)

    class K:
        @base
        def method(self, m, plan):
            c.expect(isinstance(self, K), 'method-self', 'self is gone')
            return work(m, plan)

        @base
        def gen(self, m, n):
            start = clk.t
            got = []
            for i in range(n):
                clk.t += 1
                if auto:
                    c.eq(m(), clk.t - start, 'gen-elapsed', 'wrong time inside')
                got.append((yield i))
            return 'done', got
    for _ in range(3):
        clk.t += 10
        plan = [rng.choice([1, 0.5, 2, 1, 'call', 'boom' if rng.random() < 0.3 else 3]) for _ in range(rng.randrange(6))]
        for f in (fun, K().method):
            del seen[:]
            try:
                r = f(plan)
            except Boom:
                c.expect('boom' in plan, 'fun-boom', 'unexpected exception')
                continue
            c.eq(r, ('r', plan), 'fun-result', 'wrong result')
            c.eq(len(set(map(id, seen))), len(seen), 'fun-own-counter', 'a counter is shared by calls')
            if auto:
                c.expect(all(m.stopped for m in seen), 'fun-not-stopped', 'a counter runs after the end of the call')
    n = rng.randrange(4)
    g = K().gen(n)
    yields, result = [], None
    try:
        v = next(g)
        while True:
            yields.append(v)
            clk.t += rng.choice([0, 2])
            v = g.send(v * 10)
    except StopIteration as e:
        result = e.value
    c.eq(yields, list(range(n)), 'gen-yields', 'wrong elements')
    c.eq(result, ('done', [i * 10 for i in range(n)]), 'gen-result', 'the return value of a generator was lost')


@CHECK.scenario(quick=40, thorough=1500)
def limits(c):
    """Limits are compared to the time that has passed"""
    rng = c.rng
    clk = FakeClock()
    m = measure(time_getter_callable=clk, timeout=rng.choice([None, 3, 0]))
    passed = 0
    for _ in range(6):
        step = rng.choice([0, 1, 0.5, 2])
        clk.t += step
        passed += step
        limit = rng.choice([passed, passed - 0.25, passed + 0.25, 0, 3])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c.eq(m.has_exceeded(limit), passed > limit, 'has-exceeded', passed=passed, limit=limit)
            for kind, args in ((WouldWaitMore, ()), (Boom, (Boom,))):
                if passed > limit:
                    c.raises(kind, lambda: m.raise_if_exceeded(limit, *args), 'raise-if-exceeded', passed=passed, limit=limit)
                else:
                    c.eq(c.attempt(lambda: m.raise_if_exceeded(limit, *args)), ('ok', None), 'raise-if-exceeded', passed=passed, limit=limit)
        over = m.timeout is not None and passed >= m.timeout
        c.eq(m.timeouted, over, 'timeouted', passed=passed, timeout=m.timeout)
        c.eq(m.time_remaining, None if m.timeout is None else max(0, m.timeout - passed), 'time-remaining', passed=passed, timeout=m.timeout)
        if over:
            c.raises(WouldWaitMore, m.assert_not_timeouted, 'assert-not-timeouted')
        else:
            c.eq(c.attempt(m.assert_not_timeouted), ('ok', None), 'assert-not-timeouted')
    c.rec(passed, m.timeout)


@CHECK.scenario(quick=20, thorough=300)
def slow_sleepers(c):
    """A thread that is held up while going to sleep, or whose clock is slow to read, still sleeps properly"""
    rng = c.rng
    delay = rng.choice([0.001, 0.002, 0.004])
    want = rng.choice([0.001, 0.003, 0.005])
    interrupts = [rng.choice([0, 0, 1])]
    original, real = measure.get_time_elapsed, time.sleep

    def slow(self):
        v = original(self)
        real(delay)
        return v

    def interrupted(t):
        if interrupts[0]:
            interrupts[0] -= 1
            raise KeyboardInterrupt()
        real(t)
    measure.get_time_elapsed = slow
    time.sleep = interrupted
    t0 = time.monotonic()
    try:
        r = c.attempt(lambda: sleep(want))
    finally:
        measure.get_time_elapsed = original
        time.sleep = real
    c.eq(r, ('ok', True), 'sleep-slow', 'sleep failed', delay=delay, interval=want)
    c.expect(time.monotonic() - t0 >= want, 'sleep-slow-short', 'slept too short')
    c.rec(delay, want)
    # clocks of interpreters without time_ns
    kept = time.time_ns
    del time.time_ns
    try:
        before = time.time()
        v = time_ms(), time_us(), time_as_int()
        after = time.time()
    finally:
        time.time_ns = kept
    for n, unit in zip(v, (1000, 10 ** 6, 1)):
        c.expect(type(n) is int and int(before * unit) <= n <= int(after * unit), 'clocks-old', 'wrong time', value=n, unit=unit)


@CHECK.scenario(quick=60, thorough=1500)
def measured_futures(c):
    """A counter of a future stops when the future does, however it ends"""
    rng = c.rng
    clk = FakeClock()
    f = Future()
    clk.t += 5
    ms = [measure(f, time_getter_callable=clk) for _ in range(2)]
    d = rng.choice([0, 1, 7])
    clk.t += d
    c.eq([m() for m in ms], [d, d], 'future-running', 'wrong time so far')
    how = rng.choice(['result', 'exception', 'cancel'])
    if how == 'result':
        f.set_result(1)
    elif how == 'exception':
        f.set_exception(Boom())
    else:
        f.cancel()
        f.set_running_or_notify_cancel()
    clk.t += 100
    c.eq([(m(), m.stopped) for m in ms], [(d, True)] * 2, 'future-stopped', 'the counter has not stopped with the future', how=how)


@CHECK.scenario(quick=80, thorough=2000)
def measured_metrics(c):
    """Metrics measure each call, section, generator and future exactly once; failures only if told so"""
    rng = c.rng
    getMetric('').reset()
    clk = FakeClock()
    m = getMetric('meas', 'summary', quantiles=(0.0, 1.0))
    h = getMetric('hist', 'histogram', buckets=(1, 100))
    include = rng.random() < 0.5
    labels = {'k': 'v'} if rng.random() < 0.5 else {}
    level = rng.choice([RUNTIME, DEBUG])
    via = rng.choice(['summary', 'aggregate', 'labeled'])
    src = m if via == 'summary' else AggregateMetric(m, h) if via == 'aggregate' else LabeledMetric(m, extra='e')
    kw = dict(include_exceptions=include, value_getter=clk, logging_level=level, **labels)
    total, n = 0.0, 0

    @src.measure(**kw)
    def fun(d, fail):
        """docs"""
        clk.t += d
        if fail:
            raise Boom(d)
        return 'r%s' % d

    @src.measure(**kw)
    def gen(d, k, fail):
        got = []
        for i in range(k):
            clk.t += d
            got.append((yield i))
        if fail:
            raise Boom(d)
        return 'end', got
    c.eq((fun.__name__, fun.__doc__), ('fun', 'docs'), 'measured-wraps', 'the function lost its identity')
    for _ in range(rng.randrange(1, 8)):
        clk.t += rng.choice([0, 50])
        d, fail = rng.choice([0, 1, 2.5]), rng.random() < 0.3
        op = rng.choice(['fun', 'gen', 'with', 'future', 'gen-closed'])
        failed = False
        if op == 'fun':
            try:
                c.eq(fun(d, fail=fail), 'r%s' % d, 'measured-result', 'wrong result')
            except Boom as e:
                failed = True
                c.eq(e.args, (d,), 'measured-exception', 'another exception')
            spent = d
        elif op in ('gen', 'gen-closed'):
            k = rng.randrange(1, 4)
            g = gen(d, k, fail)
            spent = 0.0
            res = None
            try:
                v = next(g)
                spent += d
                for j in range(k):
                    if op == 'gen-closed' and j == k - 1:
                        g.close()
                        break
                    clk.t += 1
                    spent += 1
                    v = g.send(j)
                    spent += d
            except StopIteration as e:
                res = e.value
            except Boom:
                failed = True
            if op == 'gen-closed':
                c.count('generators-closed')
                if not include:
                    # whether giving up counts as a failure is not specified
                    got = m.to_metric_data()
                    total, n = read(got, labels, via)
                    continue
            else:
                c.eq(failed, fail, 'measured-gen-exception', 'the exception of a generator was lost')
                if not fail:
                    c.eq(res, ('end', list(range(k))), 'measured-gen-result', 'the return value of a generator was lost')
        elif op == 'with':
            try:
                with src.measure(**kw):
                    clk.t += d
                    if fail:
                        raise Boom()
                c.expect(not fail, 'measured-with-swallowed', 'the exception was swallowed')
            except Boom:
                failed = True
            spent = d
        else:
            f = Future()
            src.measure_future(f, level, clk, **labels)
            clk.t += d
            if rng.random() < 0.3:
                m2 = getMetric('other', 'summary')
                m2.measure_future(f, RUNTIME, clk)
            clk.t += 1
            spent = d + 1
            if fail:
                f.set_exception(Boom())
            else:
                f.set_result(5)
        if level == RUNTIME and (include or not failed or op == 'future'):
            total, n = total + spent, n + 1
        c.eq(read(m.to_metric_data(), labels, via), (total, n), 'measured-wrong', 'wrong time was reported', operation=op, fail=fail, include=include)
        c.rec('op', (op, d, fail))
    if via == 'aggregate':
        got = {md.name: md.value for md in h.to_metric_data().values if 'k' not in md.labels and 'le' not in md.labels}
        c.eq((got.get('hist.count', got.get('hist.total.count')), got.get('hist.sum', got.get('hist.total.sum'))), (n, total), 'measured-aggregate', 'metrics differ')
    getMetric('').reset()


def read(mdc, labels, via):
    want = dict(labels)
    if via == 'labeled':
        want['extra'] = 'e'
    out = {}
    for md in mdc.values:
        if dict(md.labels) == want:
            out[md.name] = md.value
    return out.get('meas.sum', 0), out.get('meas.count', 0)


@CHECK.scenario(quick=100, thorough=3000)
def backoff_history(c):
    """A backoff doubles up to the limit on failures beyond the grace, starts afresh on success"""
    rng = c.rng
    start, limit, grace = rng.choice([1, 2.5, 40]), rng.choice([10, 30]), rng.choice([0, 0, 1, 2, 7, 300])

    def body(_):
        now = time.monotonic
        slept = []
        eb = ExponentialBackoff(start, limit, slept.append, grace)
        wait, fails, until = 0, 0, None
        for _ in range(rng.randrange(3, 20)):
            op = rng.choice(['fail', 'fail', 'success', 'sleep', 'pass', 'wait'])
            if op == 'fail':
                for _ in range(rng.choice([1, 1, 1, grace, grace + 1, grace + 2])):
                    eb.failed()
                    fails += 1
                    if fails > grace:
                        wait = min(limit, start if wait == 0 else wait * 2)
                        until = now() + wait
            elif op == 'success':
                eb.success()
                wait, fails, until = 0, 0, None
            elif op == 'sleep':
                eb.sleep()
                c.eq(slept[-1], wait, 'backoff-sleep', 'wrong time of sleep', start=start, limit=limit, grace=grace)
            elif op == 'pass':
                time.sleep(rng.choice([0.3, 2.2, 11.7, 31.1]))
            else:
                t = rng.choice([None, 0.7, 5.3])
                before = now()
                left = 0 if until is None else max(0.0, until - before)
                try:
                    eb.wait_until_available(t)
                except WouldWaitMore:
                    spent = now() - before
                    c.expect(t is not None and left >= t - 0.1, 'backoff-gave-up', 'gave up though it would be available in time', left=left, timeout=t)
                    c.expect(t <= spent <= t + 0.1, 'backoff-wait-time', 'gave up at a wrong time', timeout=t, waited=spent)
                else:
                    spent = now() - before
                    c.expect(t is None or left <= t + 0.1, 'backoff-too-long', 'waited longer than the timeout', left=left, timeout=t)
                    c.expect(left - 0.1 <= spent <= left + 0.1, 'backoff-wait', 'waited for a wrong time', left=left, waited=spent)
            at = now()
            if until is None or abs(at - until) > 0.1:
                ready = until is None or at > until
                c.eq(eb.ready_for_next_check, ready, 'backoff-ready', 'wrong readiness', operation=op)
                left = eb.time_until_next_check()
                c.eq(left is None, ready, 'backoff-left', 'wrong readiness', operation=op)
                if left is not None:
                    c.expect(abs(left - (until - at)) < 0.1, 'backoff-left-time', 'wrong time left')
            c.eq(eb.available, wait == 0, 'backoff-available', 'wrong availability', operation=op)
            c.rec('op', (op, round(at, 1)))
    c.sched(body, gran='line', tick=0.0001)


@CHECK.scenario(quick=60, thorough=1000)
def backoff_launch(c):
    rng = c.rng
    fails = rng.randrange(5)
    foreign = rng.random() < 0.3
    calls, slept = [], []
    eb = ExponentialBackoff(1, 4, slept.append)

    def action(*args, **kwargs):
        calls.append((args, kwargs))
        if len(calls) <= fails:
            raise rng.choice([TypeError, KeyError])()
        if foreign:
            raise Boom()
        return 'ok'
    immediate = rng.random() < 0.3 and not foreign
    f = eb.launch((TypeError, KeyError), immediate=immediate)(action)
    waits = [min(4, 2 ** i) for i in range(fails)]
    if immediate:
        c.eq((calls, slept), ([((), {})] * (fails + 1), waits), 'launch-immediate', 'wrong calls')
        del calls[:]
        del slept[:]
        fails, waits = 0, []
    try:
        r = f(5, x=1)
    except Boom:
        c.expect(foreign, 'launch-boom', 'unexpected')
    else:
        c.eq(r, 'ok', 'launch-result', 'wrong result')
        c.expect(not foreign, 'launch-foreign', 'a foreign exception was swallowed')
        c.eq((eb.available, eb.ready_for_next_check), (True, True), 'launch-available', 'not available after success')
    c.eq((calls, slept), ([((5,), {'x': 1})] * (fails + 1), waits), 'launch-calls', 'wrong calls')


@CHECK.scenario(quick=40, thorough=1200)
def backoff_threads(c):
    """One controller, several waiters: a failure stands until its time passes or a success, nobody crashes nor waits forever"""
    rng = c.rng
    ops = [rng.choice(['fail', 'fail', 'success', 'sleep']) for _ in range(rng.randrange(3, 8))]
    n = rng.randrange(1, 4)

    def body(_):
        eb = ExponentialBackoff(2, 8)
        log = []

        def controller():
            for op in ops:
                if op == 'fail':
                    eb.failed()
                    until = time.monotonic() + eb.counter
                    # nobody else may cancel this failure
                    for _ in range(2):
                        left = eb.time_until_next_check()
                        if time.monotonic() < until - 1e-6:
                            c.expect(left is not None, 'backoff-failure-cancelled', 'a failure was forgotten', ops=ops)
                        c.count('failures-observed')
                elif op == 'success':
                    eb.success()
                    c.expect(eb.ready_for_next_check, 'backoff-success', 'not ready after a success')
                else:
                    time.sleep(rng.choice([0.5, 2.5, 9]))
            log.append('done')

        def waiter(t):
            def run():
                for _ in range(2):
                    before = time.monotonic()
                    try:
                        eb.wait_until_available(t)
                    except WouldWaitMore:
                        c.expect(t is not None and time.monotonic() - before >= t - 1e-6, 'backoff-early', 'gave up too early', timeout=t)
                    eb.ready_for_next_check
                    time.sleep(0.25)
            return run
        c.go(controller, *[waiter(rng.choice([None, 1, 4])) for _ in range(n)])
        c.eq(log, ['done'], 'backoff-controller', 'the controller has not finished')
    c.sched(body, gran='line', tick=0.001)


@CHECK.scenario(quick=80, thorough=1500)
def parsing(c):
    rng = c.rng
    for _ in range(10):
        unit, mult = rng.choice([('s', 1), ('sec', 1), ('second', 1), ('seconds', 1), ('m', 60), ('min', 60), ('minutes', 60), ('minute', 60),
                                 ('h', 3600), ('hour', 3600), ('hours', 3600), ('d', 86400), ('day', 86400), ('days', 86400),
                                 ('w', 604800), ('week', 604800), ('weeks', 604800), ('', 1)])
        v = rng.choice([0, 1, 30, 12345, 2.5, 0.25])
        text = '%s%s%s' % (v, rng.choice(['', ' ']) if unit else '', unit)
        c.eq(parse_time_string(text), v * mult, 'parse', 'wrong time parsed', text=text)
    for v in (5, 2.5, 0, -3):
        c.eq(parse_time_string(v), v, 'parse-number', 'a number has to be returned as it is')
    for bad in ('', 'x', 'abc', 'five m', '1h30m', 'm'):
        c.raises(ValueError, lambda: parse_time_string(bad), 'parse-bad', text=bad)


@CHECK.scenario(quick=60, thorough=1500)
def sleeping(c):
    """Sleeping takes the time given despite of interrupts, and ends upon the first one if told so"""
    rng = c.rng
    # the clock of measure() is bound at import, so this takes real time
    d = rng.choice([0.01, 0.02, '0.015', '0.01s', 0])
    want = float(str(d).rstrip('s'))
    abort = rng.random() < 0.4
    interrupts = rng.choice([0, 0, 1, 2])
    real, left = time.sleep, [interrupts]

    def fake(t):
        if left[0]:
            left[0] -= 1
            real(t / 4)
            raise KeyboardInterrupt()
        real(t)
    time.sleep = fake
    t0 = time.monotonic()
    try:
        r = sleep(d, abort_on_interrupt=abort)
    finally:
        time.sleep = real
    spent = time.monotonic() - t0
    if abort and interrupts and want:
        c.eq(r, False, 'sleep-aborted', 'an aborted sleep claims success')
        c.eq(left[0], interrupts - 1, 'sleep-aborted-late', 'the sleep went on after an interrupt')
    else:
        c.eq(r, True, 'sleep-result', 'wrong result')
        c.expect(spent >= want, 'sleep-short', 'slept too short', spent=spent, wanted=want, interrupts=interrupts)
    c.eq(sleep(-1), False, 'sleep-negative', 'negative interval')
    c.eq(sleep('-5'), False, 'sleep-negative', 'negative interval')
    for fn, unit in ((time_as_int, 10 ** 9), (time_ms, 10 ** 6), (time_us, 1000)):
        before = time.time_ns()
        v = fn()
        after = time.time_ns()
        c.expect(type(v) is int and before // unit - 1 <= v <= after // unit + 1, 'clocks', 'wrong time', function=fn.__name__, value=v)


@CHECK.scenario(quick=100, thorough=3000)
def default_clocks(c):
    """What is measured with the default clock is the time elapsed, even if the wall clock is set in the meantime"""
    rng = c.rng
    getMetric('').reset()
    m = getMetric('meas', 'summary', quantiles=(0.0, 1.0), last_calls=1)

    def last():
        return {p.value for p in m.to_metric_data().values if 'quantile' in p.labels}
    with c.virtual_time() as vt:
        @m.measure()
        def fun(d):
            vt.advance(d)
            return d

        @m.measure()
        def gen(d):
            vt.advance(d / 2)
            yield 1
            vt.advance(d / 2)

        @measure()
        def timed(s, d):
            vt.advance(d)
            c.eq(s(), d, 'default-clock')
            return s

        @measure()
        def breaks(s, d):
            kept.append(s)
            vt.advance(d)
            raise Boom(d)

        @measure()
        def timed_gen(s, d):
            kept.append(s)
            vt.advance(d)
            yield 1
            raise Boom(d)
        for _ in range(rng.randrange(1, 6)):
            vt.advance(rng.choice([0, 2, 500]))
            d = rng.choice([0, 0.5, 4, 1024, 5000])
            op = rng.choice(['fun', 'gen', 'with', 'future', 'measure', 'decorated', 'breaks', 'gen-breaks', 'stopped', 'with-breaks'])
            c.rec(op, d)
            if op == 'fun':
                fun(d)
            elif op == 'gen':
                list(gen(d))
            elif op == 'with':
                with m.measure():
                    vt.advance(d)
            elif op == 'future':
                f = Future()
                m.measure_future(f)
                vt.advance(d)
                f.set_result(1) if rng.random() < 0.5 else f.set_exception(Boom())
            elif op == 'measure':
                with measure(timeout=100) as s:
                    vt.advance(d)
                    c.eq((s(), s.timeouted), (d, d > 100), 'default-clock')
                vt.advance(3)
                c.eq(s(), d, 'stopped-at-the-end')
            elif op == 'with-breaks':
                try:
                    with measure() as s:
                        vt.advance(d)
                        raise Boom()
                except Boom:
                    pass
                vt.advance(3)
                c.eq(s(), d, 'stopped-at-the-end')
            elif op == 'decorated':
                s = timed(d)
                vt.advance(3)
                c.eq(s(), d, 'stopped-at-the-end')
            elif op in ('breaks', 'gen-breaks'):
                kept = []
                c.raises(Boom, lambda: breaks(d) if op == 'breaks' else list(timed_gen(d)), 'exception-passed')
                vt.advance(3)
                c.eq(kept[0](), d, 'stopped-at-the-end', how=op)
            else:
                s = measure(create_stopped=True)
                vt.advance(d)
                c.eq(s(), 0, 'created-stopped')
                s.start()
                vt.advance(d)
                s.stop()
                vt.advance(7)
                c.eq(s(), d, 'default-clock')
            if op in ('fun', 'gen', 'with', 'future'):
                c.eq(last(), {d}, 'default-clock', 'not the time elapsed', how=op)
    getMetric('').reset()
