"""C06: managed threads run, loop, terminate and clean up the way they promise"""
import threading
import time

from vlib import vsched
from vlib.harness import Check
from checks.common import pause, Boom, get_ident

from satella.coding.concurrent import TerminableThread, IntervalTerminableThread, ThreadCollection, Condition, \
    BogusTerminableThread
from satella.exceptions import WouldWaitMore, ResourceLocked

CHECK = Check('C06', 'A case is one life of a thread (or a group of threads) under one controlled schedule and virtual '
                     'clock; distinct by parameters and thread switches; non-trivial if at least two oracle evaluations '
                     'took place')


class Other(Exception):
    pass


class SubBoom(Boom):
    pass


class excepthook:
    """collects exceptions that get out of threads"""

    def __enter__(self):
        self.prev = threading.excepthook
        self.got = []
        threading.excepthook = lambda a: self.got.append(a.exc_value)
        return self.got

    def __exit__(self, *a):
        threading.excepthook = self.prev
        return False


@CHECK.scenario(quick=1500, thorough=50000)
def life_of_a_thread(c):
    rng = c.rng
    interval = rng.random() < 0.4
    terminate_on = rng.choice([None, Boom, (Boom, KeyError)])
    where = rng.choice(['prepare', 'loop', 'loop', None, None])
    what = rng.choice([Boom, SubBoom, Other, SystemExit, KeyError])
    at = rng.randrange(1, 4)
    cm = rng.random() < 0.4
    cm_exc = rng.choice([None, None, Other('block'), KeyboardInterrupt()])
    dur = rng.choice([0, 0, 0.3, 1.5])
    wait = rng.choice([0, 0.5, 3, 10])
    c.rec(interval, str(terminate_on), where, what.__name__, at, cm, dur, wait, type(cm_exc).__name__)

    def body(s):
        log = []
        me = get_ident()
        exc = what('x')

        class T(IntervalTerminableThread if interval else TerminableThread):
            def prepare(self):
                log.append(('prepare', get_ident(), s.now, self.terminating))
                if where == 'prepare':
                    raise exc

            def loop(self):
                log.append(('loop', get_ident(), s.now, self.terminating))
                pause(1)
                if where == 'loop' and sum(1 for x in log if x[0] == 'loop') == at:
                    raise exc
                if dur:
                    time.sleep(dur)
                if not interval and not dur:
                    time.sleep(0.1)
                log.append(('loop-end', get_ident(), s.now, self.terminating))

            def on_overrun(self, time_taken):
                log.append(('overrun', time_taken, s.now, self.terminating))

            def cleanup(self):
                log.append(('cleanup', get_ident(), s.now, self.terminating))

        kw = {} if terminate_on is None and rng.random() < 0.5 else {'terminate_on': terminate_on}
        if interval:
            t = T(rng.choice([1, '1s', 1.0]), daemon=True, **kw)
        else:
            t = T(daemon=True, **kw)
        with excepthook() as got:
            c.expect(not t.terminating, 'terminating')
            requested = None
            if cm:
                try:
                    with t as tt:
                        c.expect(tt is t, 'context-manager')
                        if wait:
                            time.sleep(wait)
                        requested = s.now
                        if cm_exc is not None:
                            raise cm_exc
                    c.expect(cm_exc is None, 'context-manager', 'the exception of the block got lost')
                except (Other, KeyboardInterrupt) as e:
                    c.expect(e is cm_exc, 'context-manager')
                c.expect(not t.is_alive(), 'context-manager', 'left the block with the thread still running',
                         exc=type(cm_exc).__name__)
            else:
                c.expect(t.start() is t, 'returns-self')
                if wait:
                    time.sleep(wait)
                requested = s.now
                c.expect(t.terminate() is t, 'returns-self')
                c.expect(t.terminating, 'terminating')
                t.join()
            c.expect(not t.is_alive(), 'ends-after-terminate')
        kinds = [x[0] for x in log]
        idents = {x[1] for x in log if x[0] != 'overrun'}
        c.expect(len(idents) == 1 and me not in idents, 'runs-in-own-thread')
        c.eq(kinds[0], 'prepare', 'prepare-first', log=kinds)
        c.eq(kinds.count('prepare'), 1, 'prepare-once', log=kinds)
        c.eq(kinds.count('cleanup'), 1, 'cleanup-once', log=kinds)
        c.eq(kinds[-1], 'cleanup', 'cleanup-last', log=kinds)
        # the request may come in between the check and the call, so one call may already see it; never two
        c.expect(sum(1 for x in log if x[0] == 'loop' and x[3]) <= 1, 'loop-called-after-terminate', log=log)
        c.expect(not any(x[0] == 'overrun' and x[3] and log[i - 1][3] for i, x in enumerate(log)),
                 'overrun-after-terminate', 'a thread that was asked to terminate during its loop goes on', log=log)
        raised = where == 'prepare' or (where == 'loop' and kinds.count('loop') == at)
        if where == 'prepare':
            c.expect('loop' not in kinds, 'loop-despite-failed-prepare')
        if raised and where == 'loop':
            c.eq(kinds.count('loop-end'), at - 1, 'loop-after-exception', log=kinds)
        silent = what is SystemExit or (terminate_on is not None and issubclass(what, terminate_on))
        c.eq(got, [exc] if raised and not silent else [], 'exception-reported')
        c.expect(t.terminating, 'terminating')
        if raised and silent and what is not SystemExit:
            c.expect(log[-1][3], 'terminates-itself')
        # promptness: at most one loop plus wake up granularity
        c.expect(log[-1][2] <= requested + dur + 2 + 1e-6, 'ends-promptly', at=log[-1][2], requested=requested)
        if interval:
            starts = [x[2] for x in log if x[0] == 'loop']
            for a, b in zip(starts, starts[1:]):
                c.expect(abs((b - a) - max(1, dur)) < 1e-6, 'interval', starts=starts)
            full = kinds.count('loop-end')
            over = [x[1] for x in log if x[0] == 'overrun']
            if dur > 1:
                c.expect(full - 1 <= len(over) <= full, 'overrun', log=kinds)
                c.expect(all(abs(o - dur) < 1e-6 for o in over), 'overrun', over=over)
            else:
                c.eq(over, [], 'overrun')
            if not raised and wait:
                c.expect(len(starts) >= int(wait / max(1, dur)), 'loops-enough', starts=starts)
        elif not raised and wait:
            c.expect(kinds.count('loop') >= int(wait / (dur or 0.1)) - 1, 'loops-enough')
    c.sched(body)


@CHECK.scenario(quick=900, thorough=30000)
def safe_waits(c):
    rng = c.rng
    op = rng.choice(['sleep', 'condition', 'condition', 'condition-dont-raise'])
    total = rng.choice([0, -1, 0.5, 3, 7, 20]) if op == 'sleep' else rng.choice([0.5, 3, 7, 20])
    each = rng.choice([2, 1, 0.4])
    explicit = each != 2 or rng.random() < 0.5
    term_at = rng.choice([None, 0.3, 2.7, 8.1])
    notify_at = rng.choice([None, 0.6, 4.3]) if op != 'sleep' else None
    as_string = rng.random() < 0.3
    c.rec(op, total, each, term_at, notify_at, as_string)

    def body(s):
        cond = Condition()
        out = []

        class T(TerminableThread):
            def run(self):
                t0 = s.now
                kw = {'wake_up_each': each} if explicit else {}
                try:
                    if op == 'sleep':
                        self.safe_sleep(total, **kw)
                    else:
                        tot = ('%ss' % total) if as_string else total
                        if op.endswith('raise'):
                            kw['dont_raise'] = True
                        if explicit and as_string and each != 0.4:
                            kw['wake_up_each'] = '%ss' % each
                        self.safe_wait_condition(cond, tot, **kw)
                    out.append(('ok', s.now - t0))
                except SystemExit:
                    out.append(('exit', s.now - t0))
                except WouldWaitMore:
                    out.append(('timeout', s.now - t0))
        t = T()
        t.start()
        evs = sorted((x, k) for x, k in ((term_at, 'term'), (notify_at, 'notify')) if x is not None)
        for at, k in evs:
            time.sleep(max(0, at - s.now))
            t.terminate() if k == 'term' else cond.notify_all()
        t.join()
        kind, took = out[0]
        granularity = each
        natural = max(total, 0)
        if notify_at is not None and notify_at < natural - 1e-6 and (term_at is None or notify_at < term_at):
            c.expect(kind == 'ok' and abs(took - notify_at) < 1e-6, 'notified', got=out, at=notify_at)
        elif term_at is not None and term_at < natural - granularity - 1e-6:
            # may be notified before it notices
            if notify_at is not None and term_at < notify_at < term_at + granularity and kind == 'ok':
                c.expect(abs(took - notify_at) < 1e-6, 'notified')
            else:
                c.eq(kind, 'exit', 'system-exit-when-terminating', took=took)
                c.expect(term_at - 1e-6 <= took <= term_at + granularity + 1e-6, 'notices-termination-in-time', took=took)
        elif term_at is None or term_at > natural + 1e-6:
            c.expect(abs(took - natural) < 1e-6, 'waits-for-the-whole-time', took=took, want=natural)
            c.eq(kind, 'timeout' if op == 'condition' else 'ok', 'outcome')
        else:
            # terminated within last stretch: any of these, yet no later than asked for
            c.expect(took <= natural + 1e-6, 'no-longer-than-asked-for', took=took)
            if op == 'sleep':
                c.eq(kind, 'exit', 'system-exit-when-terminating')
    c.sched(body)


@CHECK.scenario(quick=900, thorough=30000)
def conditions(c):
    """no wakeup without a notification, n wakeups for notify(n), all for notify_all"""
    rng = c.rng
    waiters = [rng.choice([None, 20, '20s', 30.0]) for _ in range(rng.randrange(1, 5))]
    dont = [rng.random() < 0.3 for _ in waiters]
    kind = rng.choice(['notify', 'n', 'all', 'none', 'notifyAll'])
    n = rng.randrange(0, len(waiters) + 2)
    own = rng.choice([None, 'lock', 'rlock'])
    if kind in ('notify', 'n', 'none'):
        waiters = [20 if w is None else w for w in waiters]
    c.rec(waiters, dont, kind, n, own)

    def body(s):
        cond = Condition(*({None: (), 'lock': (threading.Lock(),), 'rlock': (threading.RLock(),)}[own]))
        res = []

        def waiter(t, d):
            t0 = s.now
            try:
                r = cond.wait(t, dont_raise=d) if t is not None else cond.wait()
                res.append(('woken' if s.now - t0 < 10 else 'returned', s.now - t0))
            except WouldWaitMore:
                res.append(('timeout', s.now - t0))

        def notifier():
            time.sleep(1)
            if kind == 'notify':
                cond.notify()
            elif kind == 'n':
                cond.notify(n)
            elif kind == 'all':
                cond.notify_all()
            elif kind == 'notifyAll':
                cond.notifyAll()
        c.go(*[lambda t=t, d=d: waiter(t, d) for t, d in zip(waiters, dont)], notifier)
        woken = sum(1 for k, _ in res if k == 'woken')
        want = {'notify': 1, 'n': min(n, len(waiters)), 'none': 0}.get(kind, len(waiters))
        c.eq(woken, want, 'number-of-wakeups', kind=kind, n=n)
        for k, t in res:
            if k == 'woken':
                c.expect(abs(t - 1) < 1e-6, 'woken-in-time', t=t)
            else:
                c.expect(t >= 20 - 1e-6, 'timeout-honored', t=t)
        c.eq(sum(1 for k, _ in res if k == 'timeout') <= len(waiters) - sum(dont), True, 'dont-raise')
        # lock must be free
        with_clock = s.now
        c.raises(WouldWaitMore, lambda: cond.wait(rng.choice([0, -1, -0.5])), 'past-timeout')
        cond.wait(-3, dont_raise=True)
        c.expect(s.now - with_clock <= 1e-6, 'past-timeout', 'a timeout in the past was waited for')
        c.expect(cond.acquire(False), 'lock-left-locked')
        if own != 'lock':
            cond.release()
            return
        got = []

        def blocked():
            for t in (0.5, 0, -1):
                t0 = s.now
                try:
                    cond.wait(t)
                except ResourceLocked:
                    got.append(s.now - t0)
        releaser = threading.Thread(target=lambda: (time.sleep(30), cond.release()))
        if own != 'rlock':
            releaser.start()
        c.go(blocked)
        c.expect(len(got) == 3 and 0.5 - 1e-6 <= got[0] < 1 and max(got[1:]) < 0.1, 'resource-locked', got=got)
        if own != 'rlock':
            releaser.join()
            return
        cond.release()
    c.sched(body)


class MyCollection(ThreadCollection):
    pass


@CHECK.scenario(quick=600, thorough=20000)
def thread_groups(c):
    rng = c.rng
    n = rng.randrange(0, 5)
    durations = [rng.choice([0, 0.5, 2, None]) for _ in range(n)]      # None: until terminated
    plain = [d is not None and rng.random() < 0.5 for d in durations]
    k = rng.randrange(n + 1)
    form = rng.randrange(6)
    c.rec(durations, plain, k, form)

    def body(s):
        started, cleaned = [], []

        class T(TerminableThread):
            def __init__(self, i, daemon=True, **kw):
                super().__init__(daemon=daemon, **kw)
                self.i = i

            def prepare(self):
                started.append(self.i)
                self.until = None if durations[self.i] is None else s.now + durations[self.i]

            def loop(self):
                if self.until is not None and s.now >= self.until:
                    raise SystemExit()
                time.sleep(0.25)

            def cleanup(self):
                cleaned.append(self.i)

        def mk(i):
            if plain[i]:
                def run():
                    started.append(i)
                    time.sleep(durations[i])
                    cleaned.append(i)
                return threading.Thread(target=run, daemon=True)
            return T(i)
        ts = [mk(i) for i in range(n)]
        Operand = rng.choice([ThreadCollection, MyCollection])
        if form == 0:
            tc = ThreadCollection(ts[:k]) + Operand(ts[k:])
        elif form == 1:
            tc = ThreadCollection(tuple(ts[:k])) + iter(ts[k:])
        elif form == 2:
            tc = ThreadCollection(ts[:k])
            tc += rng.choice([list, tuple, iter])(ts[k:]) if rng.random() < 0.5 else Operand(ts[k:])
        elif form == 3:
            tc = ThreadCollection()
            for t in ts:
                if rng.random() < 0.5:
                    c.expect((tc.add if rng.random() < 0.5 else tc.append)(t) is tc, 'returns-self')
                else:
                    tc += t
        elif form == 4:
            tc = ThreadCollection()
            for t in ts:
                tc = tc + t
        else:
            tc = ThreadCollection.from_class(T, range(n), daemon=True)
            ts = list(tc)
            plain[:] = [False] * n
        c.eq(len(tc), n, 'len')
        c.expect(all(a is b for a, b in zip(tc, ts)), 'iteration')
        c.eq(tc.daemon, n > 0, 'daemon')
        tc.daemon = False
        c.expect(not any(t.daemon for t in ts) and not tc.daemon, 'daemon')
        tc.daemon = True
        c.eq(tc.is_alive(), False, 'is-alive')
        c.expect(tc.start() is tc, 'returns-self')
        forever = any(d is None for d in durations)
        slow = [d for d in durations if d is not None and d > 0]
        if n:
            t0 = s.now
            try:
                c.expect(tc.join(timeout=0.1) is tc, 'returns-self')
                c.expect(not any(t.is_alive() for t in ts), 'join-left-threads-running')
            except WouldWaitMore:
                c.expect(any(t.is_alive() for t in ts), 'spurious-timeout')
                c.expect(s.now - t0 >= 0.1 - 1e-6, 'spurious-timeout')
        if forever:
            c.expect(tc.is_alive(), 'is-alive')
            c.raises(WouldWaitMore, lambda: tc.join(3), 'join-timeout')
        c.expect(tc.terminate() is tc, 'returns-self')
        c.expect(tc.join() is tc, 'returns-self')
        c.expect(not tc.is_alive() and not any(t.is_alive() for t in ts), 'join-left-threads-running')
        c.eq(sorted(started), list(range(n)), 'all-started')
        c.eq(sorted(cleaned), list(range(n)), 'all-finished')
        c.expect(all(t.terminating for t in ts if isinstance(t, TerminableThread)), 'all-terminated')
    c.sched(body)


@CHECK.scenario(quick=200, thorough=2000)
def bogus_threads(c):
    rng = c.rng

    def body(s):
        b = BogusTerminableThread()
        b.terminate()
        c.raises(RuntimeError, b.start, 'bogus-started-after-termination')
        c.expect(not b.is_alive(), 'bogus-alive')
        b.join()
        b = BogusTerminableThread()
        c.expect(b.daemon, 'bogus-daemon')
        c.expect(not b.is_alive() and not b.started and not b.terminated, 'bogus-initial')
        c.raises(RuntimeError, lambda: b.join(1), 'bogus-join-before-start')
        b.start()
        c.expect(b.is_alive(), 'bogus-alive')
        c.raises(RuntimeError, b.start, 'bogus-started-twice')
        t0 = s.now
        tmo = rng.choice([0, 0.5, 3])
        c.rec(tmo)
        c.raises(WouldWaitMore, lambda: b.join(tmo), 'bogus-join-timeout')
        c.expect(tmo - 1e-6 <= s.now - t0 <= tmo + 1.1, 'bogus-join-timeout')
        at = rng.choice([0.3, 1.2, 4])
        c.rec(at)
        done = []

        def term():
            time.sleep(at)
            b.terminate()

        def join():
            t0 = s.now
            b.join(rng.choice([None, 100]))
            done.append(s.now - t0)
        c.go(term, join)
        c.expect(at - 1e-6 <= done[0] <= at + 1.1, 'bogus-join', took=done)
        c.expect(not b.is_alive() and b.terminated, 'bogus-terminated')
        c.raises(RuntimeError, b.start, 'bogus-restarted')
        b.join()
        b.join(0)
    c.sched(body)


@CHECK.scenario(quick=6, thorough=100)
def forced_termination(c):
    """real threads, as an exception is being injected into them"""
    rng = c.rng
    cleaned = []
    running = threading.Event()
    catch = rng.random() < 0.5
    c.rec(catch)

    class T(TerminableThread):
        def loop(self):
            running.set()
            while True:
                vsched._real_sleep(0.001)

        def cleanup(self):
            cleaned.append(get_ident())
    t = T(daemon=True)
    t.start()
    running.wait(30)
    c.expect(t.terminate(force=True) is t, 'returns-self')
    vsched._orig_join(t, 30)
    c.expect(not t.is_alive(), 'killed')
    c.eq(cleaned, [t.ident], 'cleanup-once')
    c.expect(t.terminating, 'terminating')
    c.raises(RuntimeError, lambda: t.terminate(force=True), 'killing-the-dead')


@CHECK.scenario(quick=10, thorough=100)
def running_threads(c):
    """A collection of what is running has every thread that is, with the main one only if wanted"""
    rng = c.rng
    n = rng.randrange(0, 4)
    stop = threading.Event()
    ts = [threading.Thread(target=stop.wait, daemon=True) for _ in range(n)]
    c.rec(n)
    for t in ts:
        t.start()
    try:
        for main in (True, None, False):
            tc = ThreadCollection.get_currently_running() if main is None else ThreadCollection.get_currently_running(include_main_thread=main)
            want = {t for t in threading.enumerate() if main is not False or t is not threading.main_thread()}
            c.eq(set(tc), want, 'running-threads', main=main)
            c.expect(all(t in set(tc) for t in ts), 'running-threads')
            c.eq(len(tc), len(want), 'running-threads')
    finally:
        stop.set()
        for t in ts:
            t.join()


@CHECK.scenario(quick=60, thorough=2000)
def made_like_threads(c):
    """Managed threads take what threads take, by position as well as by name, and it gets where it belongs"""
    from satella.coding.concurrent import SingleStartThread, call_in_separate_thread
    from satella.instrumentation.cpu_time import CPUTimeAwareIntervalTerminableThread
    rng = c.rng
    name, arg, kwarg = 'thread-%d' % rng.randrange(10 ** 6), rng.randrange(1000), rng.randrange(1000)
    positional = rng.randrange(0, 6)
    daemon = rng.random() < 0.5
    c.rec(positional, daemon)
    got = []

    def target(*a, **k):
        got.append((a, k, threading.current_thread().name))

    def form(n):
        order = [('group', None), ('target', target), ('name', name), ('args', (arg,)), ('kwargs', {'k': kwarg})]
        return [v for _, v in order[:n]], dict(order[n:] + [('daemon', daemon)])

    class Loops:
        def prepare(self):
            self.terminate()

        def loop(self):
            got.append('looped')

    class T(Loops, TerminableThread):
        pass

    class I(Loops, IntervalTerminableThread):
        pass

    class C(Loops, CPUTimeAwareIntervalTerminableThread):
        pass

    a, k = form(min(positional, 5))

    def body(s):
        t = SingleStartThread(*a, **k)
        c.eq((t.name, t.daemon), (name, daemon), 'thread-made')
        t.start()
        t.join()
        c.eq(got, [((arg,), {'k': kwarg}, name)], 'thread-target')
        for f in (lambda: T(*a, terminate_on=Boom, **k), lambda: I(5, *a, **k), lambda: I('5s', *a, **k),
                  lambda: I(*a[:0], seconds=3, **form(0)[1])):
            t = f()
            c.eq((t.name, t.daemon, t.terminating), (name, daemon, False), 'thread-made')
            t.start()
            t.join()
            c.expect(t.terminating, 'thread-made')
        del got[:]
        res = call_in_separate_thread(None, None, name, daemon=daemon)(target)(arg, k=kwarg)
        c.expect(res.result(20) is None, 'call-in-separate-thread')
        c.eq((res.thread.name, res.thread.daemon), (name, daemon), 'call-in-separate-thread')
        c.eq(got, [((arg,), {'k': kwarg}, name)], 'call-in-separate-thread')
        c.expect(not hasattr(call_in_separate_thread(no_thread_attribute=True)(target)(1), 'thread'), 'call-in-separate-thread')
    c.sched(body)
    from satella.instrumentation.cpu_time import concurrency
    prev = getattr(concurrency, '_CPUProfileBuilderThread', None)
    if not hasattr(prev, 'get_instance'):
        return

    class Builder:
        @classmethod
        def get_instance(cls):
            return cls

        @classmethod
        def request_percentile(cls, p):
            asked.append(p)
    asked = []
    concurrency._CPUProfileBuilderThread = Builder
    try:
        t = C(5, 2, 0.4, '7s', *a, **k)
        c.eq((t.name, t.daemon, t.terminating, asked), (name, daemon, False, [0.4]), 'thread-made')
        c.eq((t.seconds, t.max_sooner, t.wakeup_interval), (5, 2, 7), 'thread-made')
        t = C('1m', **k) if not a else C('1m', name=name, daemon=daemon)
        c.eq((t.name, t.daemon, t.seconds, t.max_sooner, t.wakeup_interval), (name, daemon, 60, 6, 3), 'thread-made')
    finally:
        concurrency._CPUProfileBuilderThread = prev


@CHECK.scenario(quick=40, thorough=1000)
def collections_pass_it_on(c):
    """terminate() of a collection reaches every thread that can be terminated, with what it was given"""
    rng = c.rng
    got = []

    class Dummy(threading.Thread):
        def __init__(self, i):
            super().__init__()
            self.i = i

    class Able(Dummy):
        def terminate(self, *a, **k):
            got.append((self.i, a, k))
            return self
    ts = [rng.choice((Dummy, Able))(i) for i in range(rng.randrange(0, 7))]
    a = tuple(rng.randrange(9) for _ in range(rng.randrange(0, 3)))
    k = {'force': rng.random() < 0.5} if rng.random() < 0.6 else {}
    c.rec([type(t).__name__ for t in ts], a, k)
    tc = ThreadCollection(ts)
    c.expect(tc.terminate(*a, **k) is tc, 'collection-terminate')
    c.eq(got, [(t.i, a, k) for t in ts if isinstance(t, Able)], 'collection-terminate')
