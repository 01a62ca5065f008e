"""C07: registered callbacks are called when, as often and in the order they should be"""
import os
import importlib.util
import logging
import subprocess
import sys
import threading
import time

from vlib.harness import Check, REPO
from checks.common import Boom, get_ident, pause, two_of_a_kind

from satella.coding.concurrent import CallableGroup, CancellableCallback, CallNoOftenThan
import satella.coding.concurrent.timer as timer_module

CHECK = Check('C07', 'A case is one history of registrations, cancellations and calls (sequential, or under one controlled '
                     'schedule and virtual clock); distinct by operations, results and thread switches; non-trivial if at '
                     'least two oracle evaluations took place')
logging.getLogger('satella').addHandler(logging.NullHandler())
logging.getLogger('satella').propagate = False


@CHECK.scenario(quick=1500, thorough=50000)
def group_sequential(c):
    rng = c.rng
    gather = rng.random() < 0.6
    swallow = rng.random() < 0.4
    kw = {}
    if not gather or rng.random() < 0.5:
        kw['gather'] = gather
    if swallow or rng.random() < 0.5:
        kw['swallow_exceptions'] = swallow
    g = CallableGroup(**kw)
    model = []      # [callback, one_shot, id]
    log = []
    behave = {}
    cbs = {}

    def make(i):
        def f(*args, **kwargs):
            log.append((i, args, kwargs))
            b = behave.get(i)
            if b == 'raise':
                raise excs[i]
            if b == 'cancel-next':
                for m in model:
                    if m[2] == i + 1:
                        m[0].cancel()
            if b == 'add':
                # added during a call
                add(i + 1000)
            if b == 'none':
                return None
            return 'r%s' % (i,)
        return f

    excs = {}

    def add(i):
        one_shot = rng.random() < 0.4
        f = make(i)
        excs[i] = Boom(i)
        explicit = rng.random() < 0.3
        if explicit:
            cb = CancellableCallback(f)
            c.expect(g.add(cb, one_shot=one_shot) is cb, 'add-returns-callback')
            if rng.random() < 0.4:
                c.expect(g.add(cb) is cb, 'add-twice')     # no effect
        else:
            cb = g.add(f, one_shot) if one_shot else g.add(f)
            c.expect(isinstance(cb, CancellableCallback), 'add-returns-callback')
        model.append([cb, one_shot, i])
        cbs[i] = cb

    n = 0
    for _ in range(rng.randrange(4, 25)):
        k = rng.randrange(6)
        if k <= 1:
            r = rng.random()
            if r < 0.2:
                behave[n] = 'raise'
            elif r < 0.3:
                behave[n] = 'cancel-next'
            elif r < 0.4:
                behave[n] = 'add'
            elif r < 0.5:
                behave[n] = 'none'
            add(n)
            n += 1
        elif k == 2 and model:
            cb = rng.choice(model)[0]
            cb.cancel()
            c.expect(cb.cancelled and not cb, 'cancel')
        elif k == 3:
            c.eq(g.has_cancelled_callbacks, any(m[0].cancelled for m in model), 'has-cancelled')
            if rng.random() < 0.3:
                g.remove_cancelled()
                model[:] = [m for m in model if not m[0].cancelled]
                c.expect(not g.has_cancelled_callbacks, 'has-cancelled')
        else:
            args = tuple(range(rng.randrange(3)))
            kwargs = {'z': 1} if rng.random() < 0.3 else {}
            # the model
            model[:] = [m for m in model if not m[0].cancelled]
            want_log, want_res, want_exc = [], [], None
            cancelled_now = set()
            keep = []
            todo = list(model)
            started = list(model)
            for m in started:
                i = m[2]
                if m[1]:
                    keep.append(('drop', m))
                if i in cancelled_now:
                    want_res.append(None)
                    continue
                want_log.append((i, args, kwargs))
                b = behave.get(i)
                if b == 'raise':
                    if swallow:
                        want_res.append(excs[i])
                    else:
                        want_exc = excs[i]
                        break
                elif b == 'cancel-next':
                    cancelled_now.add(i + 1)
                    want_res.append('r%s' % (i,))
                elif b == 'none':
                    want_res.append(None)
                else:
                    want_res.append('r%s' % (i,))
            log.clear()
            # an id added by a callback during the call would repeat: keep them unique
            try:
                res = g(*args, **kwargs)
                exc = None
            except Boom as e:
                res, exc = None, e
            for _, m in keep:
                model.remove(m)
            c.eq(log, want_log, 'called-in-order-with-arguments')
            c.expect(exc is want_exc, 'exception-passed', exc=exc, expected=want_exc)
            if want_exc is None:
                c.eq(res, want_res if gather else None, 'results')
            for i, b in list(behave.items()):
                if b == 'add' and any(x[0] == i for x in log):
                    behave.pop(i)
        c.rec(k, len(model))


@CHECK.scenario(quick=1500, thorough=50000)
def group_concurrent(c):
    """one shots fire exactly once, the others once per each call made after they were added"""
    rng = c.rng
    callers = rng.randrange(1, 4)
    calls = rng.randrange(1, 3)
    oneshots, normals, late = rng.randrange(1, 4), rng.randrange(0, 3), rng.randrange(0, 3)
    cancelled = rng.randrange(0, 2)
    raising = rng.random() < 0.2
    c.rec(callers, calls, oneshots, normals, late, cancelled, raising)

    def body(s):
        g = CallableGroup(swallow_exceptions=True)
        count = {}

        def make(i):
            def f(x):
                pause(1)
                count[i] = count.get(i, 0) + 1
                if raising:
                    raise Boom(i)
                return (i, x)
            return f
        for i in range(oneshots):
            g.add(make(('o', i)), one_shot=True)
        for i in range(normals):
            g.add(make(('n', i)))
        dead = []
        for i in range(cancelled):
            cb = g.add(make(('c', i)))
            cb.cancel()
            dead.append(cb)
        returned = []

        def caller():
            for _ in range(calls):
                returned.append(g('arg'))

        def adder(i):
            g.add(make(('l', i)), one_shot=bool(i % 2))
        c.go(*[caller] * callers, *[lambda i=i: adder(i) for i in range(late)])
        total = callers * calls
        for i in range(oneshots):
            c.eq(count.get(('o', i), 0), 1, 'one-shot-exactly-once')
        for i in range(normals):
            c.eq(count.get(('n', i), 0), total, 'called-each-time')
        for i in range(cancelled):
            c.eq(count.get(('c', i), 0), 0, 'cancelled-not-called')
        before = dict(count)
        g('arg')
        for i in range(late):
            n = count.get(('l', i), 0)
            if i % 2:
                c.eq(n, 1, 'one-shot-exactly-once')
            else:
                c.expect(1 <= n <= total + 1 and n == before.get(('l', i), 0) + 1, 'called-each-time', n=n)
        if not raising:
            got = [x for r in returned for x in r if x is not None]
            c.eq(sorted(x[0] for x in got), sorted(k for k, n in before.items() for _ in range(n)), 'results')
    c.sched(body, gran=rng.choice(['line', 'line', 'opcode']))


@CHECK.scenario(quick=600, thorough=15000)
def cancellable(c):
    rng = c.rng
    log = []
    a = CancellableCallback(lambda *x, **y: log.append((x, y)) or 'res')
    b = CancellableCallback(a.callback_fun)
    c.expect(a == a and a != b and hash(a) == hash(a) and len({a, b, a}) == 2, 'identity')
    c.expect(bool(a) and not a.cancelled, 'not-cancelled')
    for _ in range(rng.randrange(0, 4)):
        x = rng.randrange(5)
        c.eq(a(x, k=x), 'res', 'result')
        c.eq(log[-1], ((x,), {'k': x}), 'arguments')
    n = len(log)
    a.cancel()
    c.expect(not a and a.cancelled and bool(b) and not b.cancelled, 'cancelled')
    c.expect(a(1) is None and len(log) == n, 'cancelled-not-called')
    a.cancel()
    c.expect(b(2) == 'res' and len(log) == n + 1, 'only-that-one-cancelled')
    c.rec(n)


@CHECK.scenario(quick=1000, thorough=30000)
def no_often_than(c):
    rng = c.rng
    interval = rng.choice([0.5, 1, 3])
    calls, given = [], []
    dur = rng.choice([0, 0, 0.25, 2])
    start = rng.choice([0.0, 0.125, 1000.0])
    with c.virtual_time() as vt:
        vt.now = start

        def f(x, k=None):
            calls.append((vt.now, x))
            given.append(k)
            if dur:
                time.sleep(dur)
            if x == 'raise':
                raise Boom(x)
            return ('r', x)
        g = CallNoOftenThan(interval, f)
        ends = []
        for i in range(rng.randrange(3, 15)):
            x = 'raise' if rng.random() < 0.15 else i
            allowed = not ends or vt.now - ends[-1] >= interval - 1e-9
            n = len(calls)
            try:
                k = rng.choice([None, 1])
                r = g(x) if k is None else g(x, k=1)
                raised = False
            except Boom:
                r, raised = None, True
            if len(calls) > n:
                ends.append(vt.now)
                c.eq(given[-1], k, 'keyword-arguments')
            c.eq(len(calls) - n, 1 if allowed else 0, 'called-if-allowed', at=vt.now, ends=ends, interval=interval)
            c.eq(r, ('r', x) if allowed and x != 'raise' else None, 'result')
            c.eq(raised, allowed and x == 'raise', 'exception-passed')
            time.sleep(rng.choice([0, interval / 4, interval / 2, interval, interval * 1.5]))
            c.rec(i, len(calls), round(vt.now - start, 6))
        for (a, _), (b, _) in zip(calls, calls[1:]):
            c.expect(b - a >= interval - 1e-9, 'no-more-often', a=a, b=b)


def fresh_timer():
    """an independent copy of the module, as the background thread lives as long as the process does"""
    spec = importlib.util.spec_from_file_location('satella.coding.concurrent._copy_of_timer', timer_module.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.Timer


@CHECK.scenario(quick=800, thorough=20000)
def timers(c):
    rng = c.rng
    n = rng.randrange(1, 6)
    specs = []
    for i in range(n):
        specs.append(dict(at=rng.choice([0, 0, 0.5, 2, 5]), iv=rng.choice([0.2, 1, 1.5, '2s', 4.75, 0, 0]),
                          sep=rng.random() < 0.4, raises=rng.random() < 0.25,
                          cancel=rng.choice([None, None, None, 'early', 'late'])))
    if n > 1 and rng.random() < 0.4:        # the function of one cancels another
        a, b = rng.sample(range(n), 2)
        specs[a].update(sep=False, cancel=None)
        specs[b].update(cancel=('by', a))
        if rng.random() < 0.6:
            specs[b].update(at=specs[a]['at'], iv=specs[a]['iv'])
    c.rec(specs)
    Timer = fresh_timer()

    def body(s):
        fired = []
        idents = {}

        def fun(i, k=None):
            fired.append((i, s.now, k))
            idents.setdefault(specs[i]['sep'], set()).add(get_ident())
            for j, sp in enumerate(specs):
                if sp['cancel'] == ('by', i) and j in made:
                    made[j].cancel()
                    cancelled_at[j] = len(fired), s.now
            if specs[i]['raises'] and not specs[i]['sep']:
                raise Boom(i)
        asked = {}
        made, cancelled_at = {}, {}

        def starter(i, sp):
            time.sleep(sp['at'])
            kw = {'spawn_separate': True} if sp['sep'] else {}
            if rng.random() < 0.5:
                t = Timer(sp['iv'], fun, args=(i,), kwargs={'k': i}, **kw)
            else:
                t = Timer(sp['iv'], fun, (i, i), **kw)
            t0 = s.now
            t.start()
            asked[i] = (t0, s.now)
            made[i] = t
            if sp['cancel'] == 'early':
                t.cancel()
            elif sp['cancel'] == 'late':
                time.sleep(30)
                t.cancel()
        c.go(*[lambda i=i, sp=sp: starter(i, sp) for i, sp in enumerate(specs)])
        time.sleep(60)
        for i, sp in enumerate(specs):
            iv = 2 if sp['iv'] == '2s' else sp['iv']
            mine = [x for x in fired if x[0] == i]
            if sp['cancel'] == 'early':
                # cancelled right away, may have fired only if it was already due
                c.expect(len(mine) <= (1 if iv == 0 else 0), 'cancelled-timer-fired', spec=sp)
                continue
            if i in cancelled_at:
                # whatever has not begun before it was cancelled does not begin at all
                c.expect(len(mine) <= 1 and (sp['sep'] and all(x[1] <= cancelled_at[i][1] + 1 for x in mine) or mine == [x for x in fired[:cancelled_at[i][0]] if x[0] == i]), 'cancelled-timer-fired', spec=sp,
                         fired=mine, at=cancelled_at[i])
                c.count('cancelled by another')
                if not mine:
                    continue
            c.eq(len(mine), 1, 'fired-exactly-once', spec=sp)
            t = mine[0][1]
            c.expect(t >= asked[i][0] + iv - 1e-6, 'not-before-its-time', at=t, asked=asked[i], iv=iv)
            c.expect(t <= asked[i][1] + iv + 1.1, 'not-too-late', at=t, asked=asked[i], iv=iv)
            c.eq(mine[0][2], i, 'arguments')
        if True in idents and False in idents:
            c.expect(not idents[True] & idents[False], 'separate-thread')
        if False in idents:
            c.eq(len(idents[False]), 1, 'one-background-thread')
    c.sched(body, max_steps=150000, tick=1e-6)


@CHECK.scenario(quick=1, thorough=8)
def process_exits(c):
    """A timer that is still waiting does not keep the process alive"""
    code = ('import time\nfrom satella.coding.concurrent import Timer\nTimer(3600, print, ("x",)).start()\n'
            'Timer(0.01, print, ("fired",), spawn_separate=%s).start()\ntime.sleep(%s)\nprint("end")' % (c.rng.random() < 0.5, 1.5))
    kind, r = c.attempt(lambda: subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONPATH=REPO), capture_output=True, text=True,
                                               timeout=60))
    c.expect(kind == 'ok', 'process-exits', 'the process did not exit', error=repr(r))
    c.eq((r.returncode, r.stdout.split()), (0, ['fired', 'end']), 'process-exits')


@CHECK.scenario(quick=200, thorough=5000)
def two_at_once(c):
    """What is added to one group is not called by another"""
    rng = c.rng
    n = rng.randrange(1, 5)
    gather = rng.random() < 0.7

    def use(g):
        for i in range(n):
            g.add(lambda i=i: i)
    two_of_a_kind(c, [('group', lambda: CallableGroup(gather=gather), use, lambda g: (g(), len(g.callables) if hasattr(g, 'callables') else 0))])
