"""C31: memory pressure is recognized and announced level by level, CPU occupancy is measured as it was, and CPU-aware sleeping obeys both"""
import collections
import gc
import math
import multiprocessing
import os
import threading
import time
import weakref

import psutil

from vlib.harness import Check
from checks.common import Standin, pause

import satella.instrumentation.cpu_time.collector as collector
import satella.instrumentation.memory.conditions as conditions
import satella.instrumentation.memory.memthread as memthread
from satella.coding.transforms import percentile
from satella.time import parse_time_string
from satella.instrumentation.cpu_time import (calculate_occupancy_factor, sleep_cpu_aware, CPUTimeManager, get_own_cpu_usage, pCPUtimes,
                                              CPUTimeAwareIntervalTerminableThread)
from satella.instrumentation.memory import (MemoryPressureManager, install_force_gc_collect, CustomCondition, All, Any, Not, GlobalAbsoluteValue, GlobalRelativeValue,
                                            LocalAbsoluteValue, LocalRelativeValue, GB, MB, KB)

CHECK = Check('C31', 'A case is a random history of memory or CPU load in virtual time with observers, callbacks and threads; distinct by its '
                     'parameters and outcomes; non-trivial if at least two oracle evaluations took place')

NCPU = 4


class Load:
    """Load of the system as a step function of time"""

    def __init__(self, steps):
        self.steps = steps      # [(from time, load)]

    def used(self, t):
        total = 0
        for i, (a, v) in enumerate(self.steps):
            b = self.steps[i + 1][0] if i + 1 < len(self.steps) else math.inf
            if t > a:
                total += (min(t, b) - a) * v
        return total

    def mean(self, a, b):
        return (self.used(b) - self.used(a)) / (b - a)


class FakePsutil:
    """cpu_times() as psutil gives them on a few systems"""

    def __init__(self, load, system, t0=0.0):
        self.load, self.system, self.t0 = load, system, t0

    def cpu_times(self):
        used = self.load.used(time.monotonic() - self.t0) * NCPU
        if self.system == 'linux':
            # user includes guest, and nice includes guest_nice, as the kernel has it
            t = collections.namedtuple('t', 'user nice system idle iowait irq softirq steal guest guest_nice')
            return t(used * 0.5, used * 0.125, used * 0.125, 7.0, 9.0, used * 0.0625, used * 0.0625, used * 0.125, 0.0, 0.0)
        if self.system == 'virtualizing':
            t = collections.namedtuple('t', 'user nice system idle iowait irq softirq steal guest guest_nice')
            return t(used * 0.5, used * 0.125, used * 0.125, 7.0, 9.0, used * 0.0625, used * 0.0625, used * 0.125, used * 0.25, used * 0.125)
        if self.system == 'oldlinux':
            t = collections.namedtuple('t', 'user nice system idle iowait irq softirq')
            return t(used * 0.5, used * 0.125, used * 0.25, 7.0, 9.0, used * 0.0625, used * 0.0625)
        if self.system == 'unix':
            t = collections.namedtuple('t', 'user nice system idle')
            return t(used * 0.5, used * 0.25, used * 0.25, 7.0)
        t = collections.namedtuple('t', 'user system idle interrupt dpc')
        return t(used * 0.5, used * 0.25, 7.0, used * 0.125, used * 0.125)


# what the collector remembers between calls, as it is right after the import
FRESH = {k: v for k, v in vars(collector).items() if v is None or isinstance(v, (int, float)) and not isinstance(v, bool)}


class Rig:
    """Puts a fake load in place of the system's, and a fresh profile builder that is not running"""

    def __init__(self, load, system='linux', **kw):
        self.load, self.system, self.kw = load, system, kw

    def __enter__(self):
        self.saved = collector._CPUProfileBuilderThread.thread, {k: getattr(collector, k) for k in FRESH}
        self.psutil = FakePsutil(self.load, self.system, time.monotonic())
        self.standins = [Standin([collector], psutil, cpu_times=self.psutil.cpu_times, cpu_count=lambda *a, **kw: NCPU),
                         Standin([collector], multiprocessing, cpu_count=lambda: NCPU), Standin([collector], os, cpu_count=lambda: NCPU)]
        for s in self.standins:
            s.__enter__()
        self.thread = collector._CPUProfileBuilderThread.thread = collector._CPUProfileBuilderThread(**self.kw)
        for k, v in FRESH.items():
            setattr(collector, k, v)
        self.t0 = self.psutil.t0
        return self

    def now(self):
        return time.monotonic() - self.t0

    def __exit__(self, *a):
        collector._CPUProfileBuilderThread.thread, remembered = self.saved
        for k, v in remembered.items():
            setattr(collector, k, v)
        for s in reversed(self.standins):
            s.__exit__()
        return False


def random_load(rng, quantum=0.5, lo=0, hi=16, n=8):
    t, steps = 0.0, []
    for _ in range(rng.randrange(1, n)):
        steps.append((t, rng.randrange(lo, hi + 1) / 16))
        t += quantum * rng.randrange(1, 8)
    return Load(steps)


SYSTEMS = ['linux', 'linux', 'oldlinux', 'unix', 'windows', 'virtualizing']


def close(a, b, eps=1e-6):
    return abs(a - b) <= eps


@CHECK.scenario(quick=60, thorough=800)
def occupancy(c):
    """The factor is the mean load since the previous call, for any system"""
    rng = c.rng
    load, system = random_load(rng), rng.choice(SYSTEMS)
    c.rec(system, load.steps)
    naps = [rng.choice([0, 0.5, 1, 1.5, 3]) for _ in range(rng.randrange(2, 8))]

    def body(s):
        with Rig(load, system) as rig:
            before = None
            for nap in naps:
                if nap:
                    time.sleep(nap)
                asked = rig.now()
                got = calculate_occupancy_factor()
                after = rig.now()
                # called for the first time, or twice in an instant, it waits a bit
                waits = before is None or before == asked
                c.expect(close(after - asked, 0.1 if waits else 0), 'occupancy-blocks', 'time taken by the call', took=after - asked)
                start = asked if before is None else before
                c.expect(close(got, load.mean(start, after)), 'occupancy', 'mean load since the previous call', value=got,
                         wanted=load.mean(start, after), system=system)
                before = after

    c.sched(body)


@CHECK.scenario(quick=200, thorough=4000)
def occupancy_concurrent(c):
    """No caller is told an impossible load, whoever else asks at the same time"""
    rng = c.rng
    load = random_load(rng, lo=4, hi=12)
    lo, hi = min(v for _, v in load.steps), max(v for _, v in load.steps)
    n = rng.randrange(2, 4)
    plans = [[rng.choice([0.5, 0.5, 0.5, 0.25, 1]) for _ in range(rng.randrange(1, 4))] for _ in range(n)]
    c.rec(load.steps, plans)
    results = []

    def body(s):
        with Rig(load) as rig:
            def asker(plan):
                def fn():
                    for nap in plan:
                        if nap:
                            time.sleep(nap)
                        results.append(calculate_occupancy_factor())
                return fn

            c.go(*[asker(p) for p in plans])

    c.sched(body, gran=rng.choice(['line', 'opcode']))
    c.expect(len(results) == sum(map(len, plans)), 'answers', 'answers given')
    for r in results:
        c.expect(lo - 1e-6 <= r <= hi + 1e-6, 'impossible-load', 'factor outside of the range of loads ever there', value=r, lo=lo, hi=hi)


def ref_sleep(load, start, seconds, below, above, check_each, primed_at):
    """-> (woken, time it ends)"""
    t = start
    if below is None and above is None:
        return False, t + seconds
    if primed_at is None or primed_at == t:
        t += 0.1
    last = t
    while seconds > 0:
        nap = min(seconds, check_each)
        t += nap
        of = load.mean(last, t)
        last = t
        for limit, sign in ((above, 1), (below, -1)):
            if limit is not None and sign * (of - limit) > 1e-9:
                return True, t
            if limit is not None and abs(of - limit) <= 1e-9:
                return None, t
        seconds -= nap
    return False, t


@CHECK.scenario(quick=120, thorough=1500)
def sleeping(c):
    """sleep_cpu_aware ends when the load crosses a bound or when the time is out, whichever comes first"""
    rng = c.rng
    load = random_load(rng)
    plan = []
    for _ in range(rng.randrange(1, 5)):
        plan.append((rng.choice([0.5, 1, 2.5, 7, '3s', '1m', 0]), rng.choice([None, rng.randrange(17) / 16 + 0.01]),
                     rng.choice([None, rng.randrange(17) / 16 + 0.01]), rng.choice([None, 0.5, 2])))
    c.rec(load.steps, plan)

    def body(s):
        with Rig(load) as rig:
            primed = None
            for secs, below, above, each in plan:
                start = rig.now()
                real = {'3s': 3, '1m': 60}.get(secs, secs)
                kw = {} if each is None else {'check_each': each}
                if below is not None:
                    kw['of_below'] = below
                if above is not None:
                    kw['of_above'] = above
                want = ref_sleep(load, start, real, below, above, each or 1, primed)
                got = sleep_cpu_aware(secs, **kw)
                end = rig.now()
                if want[0] is None:
                    return
                c.expect(got is want[0], 'woken', 'whether woken by CPU load', answer=got, wanted=want[0], plan=(secs, below, above, each))
                c.expect(close(end, want[1]), 'slept', 'time slept', slept=end - start, wanted=want[1] - start, plan=(secs, below, above, each))
                if below is not None or above is not None:
                    primed = end

    c.sched(body)


def ref_percentile(data, p):
    data = sorted(data)
    k = (len(data) - 1) * p
    lo, hi = math.floor(k), math.ceil(k)
    return data[lo] if lo == hi else data[lo] * (hi - k) + data[hi] * (k - lo)


@CHECK.scenario(quick=60, thorough=800)
def percentiles(c):
    """Percentiles of the profile are those of the loads seen second by second in the window"""
    rng = c.rng
    load = random_load(rng, quantum=1, n=20)
    window = rng.randrange(1, 8)
    requested = rng.sample([0.0, 0.1, 0.25, 0.5, 0.9, 1.0], rng.randrange(0, 4))
    c.rec(load.steps, window, requested)

    def body(s):
        with Rig(load, window_seconds=rng.choice([window, '%ds' % window]), percentiles_requested=requested) as rig:
            c.eq(CPUTimeManager.percentile(0.5), 0, 'no-data', 'percentile before any data')
            for _ in range(rng.randrange(1, 4)):
                last = rig.now()
                # it primes first, waiting if necessary
                first = collector.previous_timestamp
                rig.thread._recalculate()
                t = rig.now()
                c.expect(close(t - last, window + (0.1 if first is None or close(first - rig.t0, last, 0) else 0)), 'window', 'time of observation',
                         took=t - last, window=window)
                want = [load.mean(t - window + i, t - window + i + 1) for i in range(window)]
                for p in rng.sample([0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0], 4) + [rng.random(), 0.999, 0.001]:
                    got = CPUTimeManager.percentile(p)
                    c.expect(close(got, ref_percentile(want, p)), 'percentile', 'percentile of the profile', value=got, wanted=ref_percentile(want, p),
                             p=p, data=want)
                if rng.random() < 0.5:
                    p = rng.choice([0.33, 0.66])
                    rig.thread.request_percentile(p)
                    got = CPUTimeManager.percentile(p)
                    c.expect(close(got, ref_percentile(want, p)), 'percentile-requested', 'percentile requested just now', value=got)
                if rng.random() < 0.5:
                    time.sleep(rng.choice([0.5, 1, 3]))

    c.sched(body)


@CHECK.scenario(quick=250, thorough=6000)
def percentiles_concurrent(c):
    """Asking for percentiles while the profile is rebuilt and further percentiles are requested gives one of the profiles there were"""
    rng = c.rng
    load = random_load(rng, quantum=1, n=20)
    window = rng.randrange(1, 3)
    rounds = rng.randrange(1, 3)
    ps = rng.sample([0.1, 0.2, 0.3, 0.4, 0.6, 0.7], rng.randrange(1, 4))
    c.rec(load.steps, window, rounds, ps)
    profiles, answers = [], []

    def body(s):
        with Rig(load, window_seconds=window, percentiles_requested=(0.5,)) as rig:
            def builder():
                for _ in range(rounds):
                    rig.thread._recalculate()
                    profiles.append(list(rig.thread.data))

            def asker(mine):
                def fn():
                    for p in mine:
                        time.sleep(rng.choice([0, 0.1, 1, 1.1, window + 0.1]))
                        rig.thread.request_percentile(p)
                        answers.append((p, rig.thread.percentile(p)))
                        answers.append((0.5, rig.thread.percentile(0.5)))
                    time.sleep(window)
                    for p in mine:
                        answers.append((p, rig.thread.percentile(p)))
                return fn

            c.go(builder, asker(ps[:2]), asker(ps[2:]))

    c.sched(body, gran=rng.choice(['line', 'opcode']))
    for p, got in answers:
        c.expect(any(close(got, x) for x in [0] + [ref_percentile(d, p) for d in profiles]), 'percentile-mixed',
                 'percentile of none of the profiles', p=p, value=got, profiles=profiles)


@CHECK.scenario(quick=60, thorough=600)
def own_usage(c):
    """Own CPU usage is the increase of each time since the last measure, by second"""
    rng = c.rng
    window = rng.choice([2, 5, 10])
    plan = [(rng.choice([1, 2, 5, 0.5]), pCPUtimes(*[rng.randrange(100) / 16 for _ in range(5)])) for _ in range(rng.randrange(0, 15))]
    c.rec(window, plan)

    def body(s):
        with Rig(Load([(0, 0.5)]), window_seconds=window) as rig:
            prev, total = None, pCPUtimes(*[0] * 5)
            c.eq(get_own_cpu_usage(), None, 'usage-early', 'usage before any data')
            for nap, inc in plan:
                time.sleep(nap)
                total = pCPUtimes(*[a + b for a, b in zip(total, inc)])
                rig.thread.save_load(total)
                now = rig.now()
                got = get_own_cpu_usage()
                if prev is None:
                    c.eq(got, None, 'usage-early', 'usage after a single measure')
                else:
                    want = [(a - b) / (now - prev[0]) for a, b in zip(total, prev[1])]
                    c.expect(isinstance(got, pCPUtimes) and all(close(a, b) for a, b in zip(got, want)), 'usage', 'own CPU usage', value=got, wanted=want)
                prev = now, total
            c.expect(len(rig.thread.own_load_average) <= 4 + window / 0.5, 'usage-memory', 'measures are kept forever')

    c.sched(body)


@CHECK.scenario(quick=120, thorough=1500)
def aware_thread(c):
    """The loop of a CPU-aware thread starts at most max_sooner earlier than due, only upon a low load, and never later"""
    rng = c.rng
    seconds = rng.choice([4, 10, 20, '10s', '20s', 5.0])
    real = float(str(seconds).rstrip('s'))
    sooner = rng.choice([None, None, 0, 1, 3, 2.5])
    real_sooner = real * 0.1 if sooner is None else sooner
    mode = rng.choice(['high', 'low', 'random'])
    load = {'high': Load([(0, 0.75)]), 'low': Load([(0, 0.75), (8, 0.0)]), 'random': random_load(rng, n=20)}[mode]
    dur = rng.choice([0, 0.5, 2])
    wakeup = rng.choice([None, 1, '2s', 0.5])
    c.rec(str(seconds), sooner, mode, dur, wakeup)
    starts = []

    def body(s):
        with Rig(load, window_seconds=4) as rig:
            rig.thread._recalculate()

            class T(CPUTimeAwareIntervalTerminableThread):
                def loop(self):
                    starts.append(rig.now())
                    if dur:
                        time.sleep(dur)

            kw = {}
            if sooner is not None:
                kw['max_sooner'] = sooner
            if wakeup is not None:
                kw['wakeup_interval'] = wakeup
            kind, t = c.attempt(lambda: T(seconds, daemon=True, **kw))
            c.expect(kind == 'ok', 'aware-construct', 'thread could not be made', seconds=seconds, exc=repr(t))
            t.start()
            time.sleep(rng.choice([real * 3.5, real * 2.2, real * 0.5, real * 0.95]))
            asked = rig.now()
            t.terminate()
            t.join()
            c.expect(rig.now() - asked <= dur + 3 + 0.2 + 1e-6, 'aware-terminates', 'time to terminate', took=rig.now() - asked)

    c.sched(body)
    wk = {None: 3, '2s': 2}.get(wakeup, wakeup)
    slack = 0.1 * (2 + real_sooner / wk)        # a check right after another one waits for 0.1 seconds
    for a, b in zip(starts, starts[1:]):
        gap = b - a
        c.expect(gap <= real + slack + 1e-6, 'aware-late', 'loop started late', gap=gap, seconds=real)
        c.expect(gap >= real - real_sooner - 1e-6, 'aware-early', 'loop started earlier than allowed', gap=gap, seconds=real, sooner=real_sooner)
        if mode == 'high':
            c.expect(gap >= real - 1e-6, 'aware-early-high', 'loop started earlier despite high load', gap=gap, seconds=real)
        if mode == 'low' and a > 8 and real_sooner > 1.2 and wk >= 1:
            c.expect(gap <= max(real - real_sooner, dur) + 1 + 0.2 + 1e-6, 'aware-never-sooner', 'low load was not taken advantage of', gap=gap, seconds=real,
                     sooner=real_sooner)
        c.count('gaps')


class Aborted(Exception):
    pass


class Unwanted(Exception):
    pass


@CHECK.scenario(quick=120, thorough=1500)
def aware_life(c):
    """A CPU-aware thread prepares, loops, reports overruns, ends upon the exceptions it is told to, and cleans up once, whatever happens"""
    rng = c.rng
    seconds = rng.choice([2, 5])
    terminate_on = rng.choice([None, Aborted, (Aborted, KeyError)])
    in_prepare = rng.choice([None] * 4 + [Aborted, Unwanted])
    loops = [(rng.choice([0, 0, 0.5, seconds, seconds + 1, 3 * seconds]), rng.choice([None] * 6 + [Aborted, Unwanted])) for _ in range(rng.randrange(1, 6))]
    c.rec(seconds, repr(terminate_on), repr(in_prepare), loops)
    log, hooked = [], []

    def body(s):
        with Rig(Load([(0, 0.75)]), window_seconds=2) as rig:
            rig.thread._recalculate()

            class T(CPUTimeAwareIntervalTerminableThread):
                def prepare(self):
                    log.append(('prepare',))
                    if in_prepare:
                        raise in_prepare()

                def loop(self):
                    n = sum(1 for x in log if x[0] == 'loop')
                    log.append(('loop', rig.now()))
                    dur, exc = loops[n]
                    if dur:
                        time.sleep(dur)
                    if n + 1 == len(loops):
                        self.terminate()
                    if exc:
                        raise exc()

                def on_overrun(self, took):
                    log.append(('overrun', took))

                def cleanup(self):
                    log.append(('cleanup',))

            t = T(seconds, max_sooner=0, terminate_on=terminate_on, daemon=True)
            run = t.run

            def runner():
                try:
                    run()
                except Exception as e:
                    hooked.append(type(e))
            t.run = runner
            t.start()
            t.join()
            c.expect(not t.is_alive(), 'life-alive', 'thread should have ended')
            if terminate_on is not None and ended[0] is Aborted:
                c.expect(t.terminating, 'life-terminating', 'thread ended by an exception is not terminating')

    # what should happen
    want, raised = [('prepare',)], []
    ended = [None]
    if in_prepare:
        ended[0] = in_prepare
    else:
        for i, (dur, exc) in enumerate(loops):
            want.append(('loop',))
            if exc:
                ended[0] = exc
                break
            if dur > seconds:
                want.append(('overrun', dur))
    want.append(('cleanup',))
    if ended[0] is not None and not (terminate_on is not None and ended[0] is Aborted):
        raised.append(ended[0])
    c.sched(body)
    got = [x[:1] if x[0] == 'loop' else x for x in log]
    c.expect(len(got) == len(want) and all(a[0] == b[0] and (len(a) < 2 or close(a[1], b[1])) for a, b in zip(got, want)), 'life',
             'life of the thread', seen=log, wanted=want)
    c.eq(hooked, raised, 'life-raised', 'exceptions that left the thread')
    starts = [x[1] for x in log if x[0] == 'loop']
    for (a, b), (dur, exc) in zip(zip(starts, starts[1:]), loops):
        c.expect(max(seconds, dur) - 1e-6 <= b - a <= max(seconds, dur) + 0.2 + 1e-6, 'life-pace', 'time between loops', gap=b - a, dur=dur, seconds=seconds)


@CHECK.scenario(quick=60, thorough=600)
def aware_percentile(c):
    """A loop is called sooner if the load is below the percentile asked for by this thread, not by any other"""
    rng = c.rng
    lo, hi = 0.25, 0.75
    now = rng.choice([0.125, 0.5, 0.875])
    p = rng.choice([0.05, 0.95, None])
    c.rec(now, p)
    limit = lo if p is None or p == 0.05 else hi
    starts = []

    def body(s):
        steps = [(i, lo if i < 4 else hi) for i in range(8)] + [(8, now)]
        with Rig(Load(steps), window_seconds=8, percentiles_requested=rng.choice([(), (0.9,), (0.5, 0.1)])) as rig:
            collector.calculate_occupancy_factor()
            rig.thread._recalculate()

            class T(CPUTimeAwareIntervalTerminableThread):
                def loop(self):
                    starts.append(rig.now())
                    if len(starts) == 4:
                        self.terminate()

            kw = {} if p is None else {'percentile': p}
            t = T('10s', max_sooner=5, daemon=True, **kw)
            t.start()
            t.join()

    c.sched(body)
    for a, b in list(zip(starts, starts[1:]))[1:]:
        if now < limit:
            c.expect(4.9 <= b - a <= 6.5, 'percentile-sooner', 'a low load was not taken advantage of', gap=b - a)
        else:
            c.expect(10 - 1e-6 <= b - a <= 10.5, 'percentile-due', 'loop called early despite of the load', gap=b - a)


@CHECK.scenario(quick=60, thorough=600)
def builder_thread(c):
    """The profile is rebuilt again and again, at the pace and of the window set, also during runtime"""
    rng = c.rng
    window, refresh = rng.randrange(1, 6), rng.choice([1, 3, '2s', '1m'])
    window2, refresh2 = rng.choice([None, rng.randrange(1, 6)]), rng.choice([None, 2, '5s', '1m'])
    rounds = rng.randrange(2, 5)
    c.rec(window, refresh, window2, refresh2, rounds)
    load = random_load(rng, quantum=1, n=20)
    seen = []

    def body(s):
        with Rig(load, window_seconds=window, refresh_each=refresh) as rig:
            class P:
                def cpu_times(self):
                    data = list(rig.thread.data)
                    t = rig.now()
                    seen.append((t, len(data), sorted(data), rig.thread.is_done()))
                    if len(seen) == 1:
                        if window2 is not None:
                            CPUTimeManager.set_window_size(window2)
                        if refresh2 is not None:
                            CPUTimeManager.set_refresh_each(refresh2)
                    if len(seen) == rounds:
                        raise SystemExit()
                    return pCPUtimes(t, 0, 0, 0, 0)
            rig.thread.process = P()
            c.expect(not rig.thread.is_done(), 'builder-done', 'done before it started')
            collector._CPUProfileBuilderThread.get_instance().start()
            rig.thread.join()
            if rounds > 2:
                use = get_own_cpu_usage()
                c.expect(use is not None and close(use.user, 1), 'builder-usage', 'own usage, as saved by the thread', usage=use)

    c.sched(body)
    c.eq(len(seen), rounds, 'builder-rounds', 'profiles built')
    for i, (t, n, data, done) in enumerate(seen):
        w = window if i == 0 or window2 is None else window2
        r = float(parse_time_string(refresh if refresh2 is None else refresh2))
        c.expect(done and n == w, 'builder-size', 'measures of a profile', size=n, window=w)
        want = sorted(load.mean(t - w + k, t - w + k + 1) for k in range(w))
        c.expect(all(close(a, b) for a, b in zip(data, want)), 'builder-data', 'profile', data=data, wanted=want)
        if i:
            gap = t - seen[i - 1][0]
            c.expect(r + w - 1e-6 <= gap <= r + w + 0.1 + 1e-6, 'builder-pace', 'time between profiles', gap=gap, window=w, refresh=r)


# ---------------------------------------------------------------------------------------------------- memory


class FakeVM:
    def __init__(self):
        self.edges = []     # (attribute, value) where a condition changes
        self.available, self.total, self.rss = 4 * GB, 8 * GB, MB

    def approach(self, rng, limit):
        """close to where conditions change, by whole bytes, kilobytes or parts of a megabyte"""
        for attribute, edge in rng.sample(self.edges, min(len(self.edges), 2)):
            by = rng.choice([-1, 1]) * rng.choice([rng.randrange(150, 1000), rng.randrange(KB, MB), rng.randrange(MB // 10, 2 * MB)])
            if 0 <= edge + by < (limit if attribute == 'rss' else self.total):
                setattr(self, attribute, edge + by)

    def virtual_memory(self):
        return collections.namedtuple('svmem', 'total available percent')(self.total, self.available, 0)

    def Process(self, pid=None):
        vm = self

        class P:
            def memory_info(self):
                return collections.namedtuple('pmem', 'rss vms')(vm.rss, 2 * vm.rss)
        return P()


class Info:
    def __init__(self, rss):
        self.rss = rss


def random_condition(rng, vm, limit, state, depth=0):
    """-> (condition, reference fn(), description)"""
    kind = rng.randrange(8 if depth < 3 else 5)
    if kind == 0:
        v = rng.randrange(0, 10 * GB)
        vm.edges.append(('available', v))
        return GlobalAbsoluteValue(v), lambda: vm.available < v, ('ga', v)
    if kind == 1:
        v = rng.randrange(0, 101)
        vm.edges.append(('available', v * vm.total // 100))
        return GlobalRelativeValue(v), lambda: vm.available * 100 < v * vm.total, ('gr', v)
    if kind == 2:
        v = rng.choice([rng.randrange(0, 5 * GB), rng.randrange(0, limit)])
        vm.edges.append(('rss', limit - v))
        return LocalAbsoluteValue(v), lambda: limit - vm.rss < v, ('la', v)
    if kind == 3:
        v = rng.randrange(0, 101)
        vm.edges.append(('rss', limit - v * limit // 100))
        return LocalRelativeValue(v), lambda: (limit - vm.rss) * 100 < v * limit, ('lr', v)
    if kind == 4:
        k = rng.randrange(3)
        return CustomCondition(lambda: state[k]), lambda: state[k], ('custom', k)
    if kind == 5:
        a, b, d = random_condition(rng, vm, limit, state, depth + 1)
        return Not(a), lambda: not b(), ('not', d)
    subs = [random_condition(rng, vm, limit, state, depth + 1) for _ in range(rng.randrange(0, 4))]
    if kind == 6:
        return Any(*[x[0] for x in subs]), lambda: any(x[1]() for x in subs), ('any', [x[2] for x in subs])
    return All(*[x[0] for x in subs]), lambda: all(x[1]() for x in subs), ('all', [x[2] for x in subs])


@CHECK.scenario(quick=120, thorough=2000)
def memory_conditions(c):
    """Conditions fire exactly when the amount of memory is what they say"""
    rng = c.rng
    vm, limit, state = FakeVM(), rng.randrange(1, 5 * GB), [False] * 3
    standin = Standin([conditions], psutil, Process=vm.Process, virtual_memory=vm.virtual_memory)
    standin.__enter__()
    try:
        c.expect(KB * 1024 == MB and MB * 1024 == GB and KB == 1024, 'units', 'units of memory')
        for _ in range(4):
            vm.edges = []
            cond, ref, desc = random_condition(rng, vm, limit, state)
            c.rec(str(desc)[:200])
            for _ in range(8):
                vm.available = rng.randrange(0, vm.total)
                vm.rss = rng.randrange(0, limit)
                if rng.random() < 0.6:
                    vm.approach(rng, limit)
                state[:] = [rng.random() < 0.5 for _ in range(3)]
                want = bool(ref())
                got = cond.can_fire(Info(vm.rss), limit)
                if bool(got) != want:
                    # not a matter of rounding at the very boundary
                    keep = vm.available, vm.rss
                    stable = True
                    for d in (-1, 1):
                        vm.available, vm.rss = keep[0] + d * 64, keep[1] + d * 64
                        stable = stable and bool(ref()) == want
                    vm.available, vm.rss = keep
                    if not stable:
                        continue
                c.eq(bool(got), want, 'condition', 'whether the condition fires', desc=desc, limit=limit, rss=vm.rss, available=vm.available)
    finally:
        standin.__exit__()


class Manager:
    """A fresh memory pressure manager with its thread, in virtual time"""

    def __init__(self, c, levels, vm=None, maximum=None, **kw):
        self.c, self.kw, self.levels, self.vm, self.maximum = c, kw, levels, vm or FakeVM(), maximum

    def __enter__(self):
        vm = self.vm
        self.standin = Standin([memthread], psutil, Process=vm.Process, virtual_memory=vm.virtual_memory)
        self.standin.__enter__()
        self.drop()
        self.m = MemoryPressureManager(self.maximum, self.levels, **self.kw)
        return self.m

    @staticmethod
    def drop():
        if '__it__' in MemoryPressureManager.__dict__:
            del MemoryPressureManager.__it__

    def __exit__(self, *a):
        self.m.terminate()
        self.m.join()
        self.standin.__exit__()
        self.drop()
        return False


class Cleaned:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def cleanup(self):
        self.log.append(('cleanup', self.name))

    def other(self):
        self.log.append(('other', self.name))


@CHECK.scenario(quick=150, thorough=2500)
def pressure_levels(c):
    """Each level between is entered and left, one after another, with its callbacks and cleanups called once"""
    rng = c.rng
    top = rng.randrange(1, 5)
    target = {'level': 0}
    interval = rng.choice([1, 10, '5s'])
    secs = float(str(interval).rstrip('s'))
    # levels above the one in force may or may not have their conditions true, those below are of no interest
    noise = [rng.random() < 0.5 for _ in range(top + 1)]
    levels = []
    for i in range(1, top + 1):
        levels.append(CustomCondition(lambda i=i: target['level'] == i or (target['level'] > i and noise[i])))
    plan = [rng.randrange(0, top + 1) for _ in range(rng.randrange(2, 9))]
    c.rec(top, str(interval), plan)

    def body(s):
        log, model = [], []
        with Manager(c, levels, check_interval=interval, log_transitions=rng.random() < 0.5) as m:
            c.expect(MemoryPressureManager() is m, 'one-manager', 'there is another manager')
            time.sleep(secs / 2)
            callbacks = []
            kept, cleanups = [], []
            level, stopped = 0, False

            def register():
                kind = rng.choice(['entered', 'left', 'remains', 'normal', 'cleanup'])
                lv = rng.randrange(0, top + 1)
                name = '%s-%d-%d' % (kind, lv, len(callbacks) + len(cleanups))

                def fn():
                    log.append((kind, name, s.now))

                if kind == 'entered':
                    h = m.register_on_entered_severity(lv)(fn)
                elif kind == 'left':
                    h = MemoryPressureManager.register_on_left_severity(lv)(fn)
                elif kind == 'remains':
                    often = rng.choice([0, 0, secs * 2.5])
                    h = m.register_on_remaining_in_severity(lv, often)(fn) if often else \
                        MemoryPressureManager.register_on_remaining_in_severity(lv)(fn)
                    callbacks.append([kind, lv, name, h, often, -math.inf])
                    return
                elif kind == 'normal':
                    h = m.register_on_memory_normal(fn)
                else:
                    o = Cleaned(log, name)
                    weak = rng.random() < 0.3
                    custom = rng.random() < 0.4
                    if custom:
                        m.cleanup_on_entered(lv, o, lambda y: y.other())
                    else:
                        m.cleanup_on_entered(lv, o)
                    if weak:
                        ref = weakref.ref(o)
                        del o
                        c.expect(ref() is None, 'weak-cleanup', 'object to clean up is kept alive')
                    else:
                        kept.append(o)
                        cleanups.append((lv, ('other' if custom else 'cleanup', name)))
                    return
                callbacks.append([kind, lv, name, h, 0, None])

            def fire(kind, lv):
                out = []
                for cb in callbacks:
                    if cb[0] == kind and not cb[3].cancelled and (kind == 'normal' or cb[1] == lv):
                        if kind == 'remains':
                            if s.now + secs / 2 - cb[5] < cb[4]:
                                continue
                            cb[5] = s.now + secs / 2
                        out.append((kind, cb[2]))
                return out

            for want_level in plan:
                for _ in range(rng.randrange(0, 4)):
                    register()
                if callbacks and rng.random() < 0.3:
                    rng.choice(callbacks)[3].cancel()
                roll = rng.random()
                if roll < 0.1:
                    m.stop()
                    stopped = True
                elif roll < 0.4 and stopped:
                    m.resume()
                    stopped = False
                target['level'] = want_level
                # what should happen at the check that takes place in half of interval
                expected = []           # a list of groups, in order, with any order inside of a group
                if not stopped:
                    if want_level == level:
                        expected.append(fire('remains', level))
                    while level < want_level:
                        level += 1
                        expected.append(fire('entered', level))
                        expected.append([x[1] for x in cleanups if x[0] == level])
                    while level > want_level:
                        expected.append(fire('left', level))
                        level -= 1
                        if level == 0:
                            expected.append(fire('normal', None))
                start = len(log)
                time.sleep(secs)
                got = [x[:2] for x in log[start:]]
                c.eq(m.severity_level, level, 'severity', 'severity level')
                pos = 0
                for group in expected:
                    part = got[pos:pos + len(group)]
                    c.eq(sorted(part), sorted(group), 'callbacks', 'callbacks called at a transition', called=got, all=expected, plan=plan)
                    pos += len(group)
                c.eq(got[pos:], [], 'callbacks-extra', 'callbacks called without a reason', called=got, all=expected)
                c.count('checks')

    c.sched(body)


@CHECK.scenario(quick=60, thorough=1000)
def forced_collection(c):
    """Garbage is collected once upon each entering of the level chosen, and then only"""
    rng = c.rng
    state = {'level': 0}
    at = rng.choice([None, 1, 2, 3])
    plan = [rng.randrange(0, 4) for _ in range(rng.randrange(2, 8))]
    c.rec(at, plan)

    def body(s):
        log = []
        cond = [CustomCondition(lambda i=i: state['level'] >= i) for i in (1, 2, 3)]
        original = gc.collect
        gc.collect = lambda *a: log.append(s.now) or 0
        try:
            with Manager(c, cond, check_interval=1, log_transitions=False):
                install_force_gc_collect() if at is None else install_force_gc_collect(at)
                time.sleep(0.5)
                level = 0
                for new in plan:
                    before = len(log)
                    state['level'] = new
                    time.sleep(6)
                    want = 1 if level < (at or 1) <= new else 0
                    c.eq(len(log) - before, want, 'forced-collection', 'number of collections', level=level, new=new, at=at)
                    level = new
        finally:
            gc.collect = original
    c.sched(body)


@CHECK.scenario(quick=250, thorough=6000)
def pressure_concurrent(c):
    """Whatever is registered while levels change is honoured at the next change"""
    rng = c.rng
    state = {'level': 0}
    n = rng.randrange(1, 3)
    c.rec(n)

    def body(s):
        log = []
        cond = [CustomCondition(lambda: state['level'] >= 1), CustomCondition(lambda: state['level'] >= 2)]
        with Manager(c, cond, check_interval=1, log_transitions=False) as m:
            kept, handles = [], []
            dying = [Cleaned(log, 'dying%d' % i) for i in range(2)]
            for i in range(2):
                m.cleanup_on_entered(1, dying[i])

            def registrar(k):
                def fn():
                    for i in range(rng.randrange(1, 4)):
                        time.sleep(rng.choice([0, 0, 0.5, 1]))
                        o = Cleaned(log, 'o%d-%d' % (k, i))
                        kept.append(o)
                        m.cleanup_on_entered(1, o)
                        name = 'cb%d-%d' % (k, i)
                        handles.append((name, m.register_on_entered_severity(1)(lambda name=name: log.append(('entered', name)))))
                        if rng.random() < 0.3:
                            handles[-1][1].cancel()
                return fn

            def changer():
                for _ in range(3):
                    state['level'] = rng.choice([0, 1, 2])
                    if dying and rng.random() < 0.5:
                        dying.pop()
                    time.sleep(rng.choice([0.5, 1]))

            c.go(changer, *[registrar(k) for k in range(n)])
            state['level'] = 0
            time.sleep(2.5)
            c.eq(m.severity_level, 0, 'severity-end', 'severity level')
            dying.clear()
            log.clear()
            state['level'] = 2
            time.sleep(2.5)
            c.eq(m.severity_level, 2, 'severity-end', 'severity level')
            want = [('cleanup', o.name) for o in kept] + [('entered', name) for name, h in handles if not h.cancelled]
            c.eq(sorted(log), sorted(want), 'registration-lost', 'callbacks and cleanups of a level being entered')

    c.sched(body)


@CHECK.scenario(quick=100, thorough=3000)
def percentile_of(c):
    """percentile() of any sorted list is linear between its neighbouring elements"""
    rng = c.rng
    n = rng.randrange(1, 30)
    data = sorted(rng.choice([rng.random(), rng.randrange(-5, 5), 1e9 * rng.random()]) for _ in range(n))
    c.rec(n, data[:3])
    for p in [0, 1, 0.5, 0.999, 0.9999, 1e-6, rng.random(), rng.randrange(n) / max(n - 1, 1), rng.randrange(101) / 100]:
        p = min(p, 1.0)
        got = percentile(data, p)
        c.expect(abs(got - ref_percentile(data, p)) <= 1e-9 * max(abs(x) for x in data) + 1e-12, 'percentile-of', 'percentile of a list', value=got, p=p, data=data)
        c.expect(data[0] <= got + 1e-6 and got <= data[-1] + 1e-6, 'percentile-range', 'percentile beyond the list')


@CHECK.scenario(quick=100, thorough=1500)
def pressure_of_memory(c):
    """Levels are entered as the memory of the process, compared to what it may use, and of the system dictates"""
    rng = c.rng
    vm, limit, state = FakeVM(), rng.randrange(GB, 5 * GB), [False] * 3
    conds = []
    for _ in range(rng.randrange(1, 5)):
        conds.append(random_condition(rng, vm, limit, state))
    c.rec(limit, [str(x[2])[:80] for x in conds])

    def level():
        return max([0] + [i for i, x in enumerate(conds, 1) if x[1]()])

    def body(s):
        with Manager(c, [x[0] for x in conds], vm=vm, maximum=limit, check_interval=10, log_transitions=False) as m:
            c.expect(m.maximum_available == limit, 'maximum', 'maximum available memory')
            time.sleep(5)
            for _ in range(rng.randrange(2, 8)):
                vm.available = rng.randrange(0, vm.total)
                vm.rss = rng.randrange(0, limit)
                if rng.random() < 0.6:
                    vm.approach(rng, limit)
                state[:] = [rng.random() < 0.5 for _ in range(3)]
                want = level()
                keep = vm.available, vm.rss
                stable = True
                for d in (-1, 1):       # not a matter of rounding at the very boundary
                    vm.available, vm.rss = keep[0] + d * 64, keep[1] + d * 64
                    stable = stable and level() == want
                vm.available, vm.rss = keep
                time.sleep(10)
                if stable:
                    c.eq(m.severity_level, want, 'memory-severity', 'severity level', limit=limit, rss=vm.rss, available=vm.available)
                    c.eq(m.calculate_severity_level(), want, 'memory-severity', 'calculated severity level')
            c.count('memory_levels')
    c.sched(body)


@CHECK.scenario(quick=10, thorough=50)
def no_levels(c):
    """A manager without levels stays at the zeroth, and calls what remains there"""
    rng = c.rng
    often = rng.choice([0, 3])
    n = rng.randrange(1, 6)
    c.rec(often, n)

    def body(s):
        with Manager(c, None, check_interval='2s') as m:
            calls = []
            time.sleep(1)
            deco = m.register_on_remaining_in_severity(0, often) if often else m.register_on_remaining_in_severity(0)
            deco(lambda: calls.append(s.now))
            time.sleep(2 * n)
            c.eq(m.severity_level, 0, 'no-levels', 'severity level')
            c.eq(len(calls), n if often < 2 else (n + 1) // 2, 'no-levels-calls', 'calls upon remaining', often=often, checks=n)
    c.sched(body)


if __name__ == '__main__':
    CHECK.main()
