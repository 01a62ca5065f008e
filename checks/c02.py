"""C02: an atomic number behaves like a single number changed by atomic operations, and wakes its waiters up"""
import math
import operator
import threading
import time

from vlib.harness import Check
from checks.common import Clock, Incomparable, linearizable, not_locked_out, pause

from satella.coding.concurrent import AtomicNumber
from satella.exceptions import WouldWaitMore

CHECK = Check('C02', 'A case is one workload of operations on atomic numbers under one controlled schedule, or one '
                     'sequential operator history; distinct by operations, operands and thread switches; non-trivial '
                     'if at least two oracle evaluations took place',
              ['operands of arithmetic are plain numbers, == is also used between atomic numbers'])

INPLACE = {'+=': operator.iadd, '-=': operator.isub, '*=': operator.imul, '//=': operator.ifloordiv,
           '&=': operator.iand, '|=': operator.ior, '^=': operator.ixor, '<<=': operator.ilshift,
           '>>=': operator.irshift, '**=': operator.ipow, '/=': operator.itruediv}
BINARY = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '/': operator.truediv,
          '&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift,
          '**': operator.pow, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
          '==': operator.eq, '!=': operator.ne}
UNARY = {'int': int, 'float': float, 'bool': bool, 'abs': abs, 'neg': operator.neg, 'pos': operator.pos, 'str': str}
INT_INPLACE = ['+=', '-=', '*=', '//=', '&=', '|=', '^=', '<<=', '>>=']


def operand(rng, op):
    if op in ('<<=', '>>=', '<<', '>>'):
        return rng.randrange(0, 3)
    if op in ('**=', '**'):
        return rng.randrange(0, 3)
    if op in ('//=', '/=', '//', '/'):
        return rng.choice([1, 2, 3, -2, 0]) if rng.random() < 0.5 else rng.choice([1, 2])
    return rng.randrange(-4, 9)


def apply_plain(state, op):
    kind, name, x = op
    if kind == 'in':
        try:
            new = INPLACE[name](state, x)
        except Exception as e:  # noqa
            return state, type(e).__name__
        return new, 'self'
    try:
        if kind == 'un':
            return state, repr(UNARY[name](state))
        v = BINARY[name](state, x) if kind == 'bin' else BINARY[name](x, state)
    except Exception as e:  # noqa
        return state, type(e).__name__
    return state, repr(v)


def perform(a, op):
    kind, name, x = op
    try:
        if kind == 'in':
            r = INPLACE[name](a, x)
            return 'self' if r is a else 'not-self %r' % (r,)
        if kind == 'un':
            return repr(UNARY[name](a))
        return repr(BINARY[name](a, x) if kind == 'bin' else BINARY[name](x, a))
    except (ArithmeticError, TypeError, ValueError) as e:
        return type(e).__name__


def random_op(rng, inplace_only=False, names=None):
    k = rng.random()
    if inplace_only or k < 0.65:
        n = rng.choice(names or INT_INPLACE)
        return 'in', n, operand(rng, n)
    if k < 0.8:
        return 'un', rng.choice(['int', 'bool', 'abs', 'neg', 'pos', 'str', 'float']), None
    n = rng.choice(['+', '-', '*', '==', '<', '>=', '&', '|', '^', '!=', '>', '<='])
    return rng.choice(['bin', 'bin', 'rbin']), n, operand(rng, n)


@CHECK.scenario(quick=1500, thorough=60000)
def linearizability(c):
    rng = c.rng
    start = rng.randrange(-3, 10)
    focus = rng.choice(INT_INPLACE + ['**=', '/=']) if rng.random() < 0.5 else None
    names = [focus] + (['+='] if rng.random() < 0.5 else []) if focus else None
    plan = [[random_op(rng, names=names) for _ in range(rng.randrange(1, 4))] for _ in range(rng.randrange(2, 4))]
    c.rec(start, plan)
    hist = []
    clock = Clock()

    def body(s):
        a = AtomicNumber(start)

        def run(ops):
            for op in ops:
                t0 = clock()
                r = perform(a, op)
                hist.append((t0, clock(), op, r))
        c.go(*[lambda ops=ops: run(ops) for ops in plan])
        t0 = clock()
        hist.append((t0, clock(), ('un', 'int', None), repr(int(a))))
    c.sched(body, gran=rng.choice(['line', 'line', 'opcode']))
    c.expect(linearizable(hist, start, apply_plain), 'linearizability', history=hist, start=start)


@CHECK.scenario(quick=800, thorough=20000)
def sequential_equivalence(c):
    """anything a number does, except that in-place operations keep the object"""
    rng = c.rng
    start = rng.choice([0, 1, -1, 5, 2.5, -0.0, 10 ** 20, True, 7, 3, -17])
    a = AtomicNumber(start) if start or rng.random() < 0.5 or not isinstance(start, int) else AtomicNumber()
    model = start
    c.rec(start)
    for _ in range(rng.randrange(4, 25)):
        k = rng.random()
        if k < 0.45:
            n = rng.choice(list(INPLACE))
            op = ('in', n, operand(rng, n) if rng.random() < 0.8 else rng.choice([0.5, -1.5, 2]))
        elif k < 0.6:
            op = ('un', rng.choice(list(UNARY)), None)
        else:
            n = rng.choice(list(BINARY))
            kind = rng.choice(['bin', 'rbin'])
            x = operand(rng, n) if rng.random() < 0.8 else rng.choice([0.5, -1.5, 2])
            if kind == 'rbin' and n in ('<<', '>>', '**') and abs(model) > 60:
                continue
            op = (kind, n, x)
        if op[1] in ('**', '**=', '<<', '<<=') and abs(model) > 10 ** 12:
            continue
        if op[0] == 'un' and op[1] in ('float', 'int') and (abs(model) > 1e300 or model != model):
            continue
        new, want = apply_plain(model, op)
        got = perform(a, op)
        c.rec(op, want)
        c.eq(got, want, 'operator', op=op, value=model)
        if isinstance(new, complex) or (isinstance(new, float) and (new != new or math.isinf(new))):
            return
        model = new
        c.eq(float(a) if isinstance(model, float) else int(a), model, 'value-after', op=op)
    c.eq(a == model, True, 'equality')
    c.eq(model == a, True, 'equality')
    c.eq(a != model, False, 'equality')
    c.eq(repr(a), 'AtomicNumber(%s)' % (model,), 'repr')
    if isinstance(model, int) and abs(model) < 1000:
        c.eq(pow(a, 3, 7), pow(int(model), 3, 7), 'pow-with-modulo')
        e, m = rng.randrange(0, 6), rng.choice([-7, -2, 5, 12, 1, 0])
        got, want = c.attempt(lambda: pow(a, e, m)), c.attempt(lambda: pow(int(model), e, m))
        c.eq(got[0], want[0], 'pow-with-modulo', exponent=e, modulo=m, value=model)
        if want[0] == 'ok':
            c.eq(got[1], want[1], 'pow-with-modulo', exponent=e, modulo=m, value=model)
    c.raises(TypeError, lambda: hash(a), 'unhashable')


@CHECK.scenario(quick=900, thorough=40000)
def nobody_is_left_waiting(c):
    """wait_until_equal returns if the value settles at what was awaited"""
    rng = c.rng
    op = rng.choice(INT_INPLACE + ['/=', '**='])
    steps = rng.randrange(1, 4)
    waiters = rng.randrange(1, 4)
    timeout = rng.choice([None, None, 1000])
    delayed = rng.random() < 0.3
    start = rng.randrange(1, 6)
    ops = []
    v = start
    for i in range(steps):
        x = {'<<=': 1, '>>=': 1, '/=': 2, '//=': 2, '**=': 2}.get(op, rng.randrange(1, 5))
        ops.append(x)
        v = INPLACE[op](v, x)
    target = v
    c.rec(op, ops, waiters, timeout, start, target, delayed)

    def body(s):
        a = AtomicNumber(start)
        returned = []

        def waiter():
            a.wait_until_equal(target, timeout) if timeout is not None else a.wait_until_equal(target)
            c.expect(a == target or steps > 1, 'returned-with-wrong-value')
            returned.append(s.now)

        def updater():
            for x in ops:
                if delayed:
                    time.sleep(1)
                INPLACE[op](a, x)
        c.go(*[waiter] * waiters, updater)
        c.eq(len(returned), waiters, 'every-waiter-returns')
        c.expect(all(t < 100 for t in returned), 'woken-up-by-the-change', 'waiter returned only after its timeout',
                 at=returned)
    c.sched(body)


@CHECK.scenario(quick=700, thorough=20000)
def waiting_for_a_change(c):
    """wait() returns upon whatever change and throws only when its time is up"""
    rng = c.rng
    op = rng.choice(INT_INPLACE + ['/=', '**='])
    x = {'<<=': 1, '>>=': 1, '/=': 2, '//=': 2, '**=': 2}.get(op, 3)
    timeout = rng.choice([None, 5, 50, 0.5])
    throw = rng.random() < 0.5
    n = rng.randrange(1, 4)
    at = 2
    omit = rng.random() < 0.5
    c.rec(op, timeout, throw, n, omit)

    def body(s):
        a = AtomicNumber(6)
        res = []

        def waiter():
            t0 = s.now
            try:
                if timeout is None:
                    a.wait()
                else:
                    a.wait(timeout, throw_exception=throw) if not (throw and omit) else a.wait(timeout=timeout)
                res.append(('ok', s.now - t0))
            except WouldWaitMore:
                res.append(('timeout', s.now - t0))

        def updater():
            time.sleep(at)      # by that time everybody waits
            INPLACE[op](a, x)
        c.go(*[waiter] * n, updater)
        for kind, t in res:
            if timeout is None or timeout > at:
                c.eq(kind, 'ok', 'woken-up-by-the-change', op=op)
                c.expect(t < at + 0.5, 'woken-up-by-the-change', 'too late', op=op, t=t)
            else:
                c.eq(kind, 'timeout' if throw else 'ok', 'timeout')
                c.expect(timeout - 1e-6 <= t <= timeout + 0.5, 'timeout', t=t)
        c.eq(len(res), n, 'every-waiter-returns')
    c.sched(body)


@CHECK.scenario(quick=900, thorough=30000)
def timed_waits(c):
    """wait_until_equal with a timeout neither gives up early nor claims equality that never was"""
    rng = c.rng
    values = [rng.randrange(4) for _ in range(rng.randrange(1, 6))]
    delays = [rng.choice([0, 0.5, 1, 2]) for _ in values]
    waits = [(rng.randrange(4), rng.choice([0, 0.3, 1.2, 4, 40])) for _ in range(rng.randrange(1, 4))]
    c.rec(values, delays, waits)

    def body(s):
        a = AtomicNumber(0)
        hist = [(0.0, 0)]
        res = []

        def updater():
            for v, d in zip(values, delays):
                if d:
                    time.sleep(d)
                delta = v - hist[-1][1]
                with s.nopreempt():
                    hist.append((s.now, v))
                operator.iadd(a, delta)

        def waiter(target, timeout):
            t0, i0 = s.now, len(hist)
            try:
                a.wait_until_equal(target, timeout)
                ok = True
            except WouldWaitMore:
                ok = False
            res.append((target, timeout, t0, s.now, i0, len(hist), ok))
        c.go(updater, *[lambda w=w: waiter(*w) for w in waits])
        for target, timeout, t0, t1, i0, i1, ok in res:
            during = [v for t, v in hist[max(0, i0 - 2):i1]]
            if ok:
                c.expect(target in during, 'returned-without-equality', target=target, during=during)
            else:
                c.expect(t1 - t0 >= timeout - 1e-6, 'gave-up-too-early', waited=t1 - t0, timeout=timeout)
            c.expect(t1 - t0 <= timeout + 0.6, 'timeout-honored', waited=t1 - t0, timeout=timeout)
            # the value stayed equal to target for a while, within the wait, with nothing else to do: must be seen
            for (ta, v), (tb, _) in zip(hist, hist[1:] + [(1e9, None)]):
                if v == target and tb > ta and t0 < ta and ta < t0 + timeout - 0.01:
                    c.expect(ok and t1 <= ta + 1e-6, 'woken-up-by-the-change', target=target, history=hist, wait=(t0, t1))
    c.sched(body)


@CHECK.scenario(quick=500, thorough=10000)
def comparing_atomic_numbers(c):
    rng = c.rng
    n = rng.randrange(1, 4)
    c.rec(n)
    ops = [[(rng.randrange(n), rng.randrange(n)) for _ in range(3)] for _ in range(rng.randrange(1, 4))]
    writer = rng.random() < 0.5
    c.rec(ops, writer)

    def body(s):
        nums = [AtomicNumber(5) for _ in range(n)]

        def cmp(pairs):
            for i, j in pairs:
                r = nums[i] == nums[j]
                if i == j or not writer:
                    c.eq(r, True, 'equality')
                else:
                    c.expect(r in (True, False), 'equality')
                c.eq(nums[i] != nums[j], False, 'equality') if (i == j or not writer) else None

        def write():
            for a in nums:
                a += 1
                pause(1)
        c.go(*[lambda p=p: cmp(p) for p in ops], *([write] if writer else []))
        c.eq([int(a) for a in nums], [6 if writer else 5] * n, 'value-after')
    c.sched(body)


@CHECK.scenario(quick=60, thorough=1000)
def after_failures(c):
    """an operation with an operand it can do nothing with leaves the number as it was, and usable for everybody"""
    def make(s):
        n = AtomicNumber(5)

        def works():
            nonlocal n
            n += 1
            n -= 1
            assert n == 5 and int(n) == 5
        out = []
        for name in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'iadd', 'isub', 'imul', 'itruediv',
                     'ifloordiv', 'imod', 'ipow', 'and_', 'or_', 'xor', 'lshift', 'rshift', 'iand', 'ior', 'ixor', 'ilshift', 'irshift'):
            bad = c.rng.choice([Incomparable(), 'x', None, [], 0])
            if isinstance(bad, int) and name not in ('truediv', 'floordiv', 'mod', 'itruediv', 'ifloordiv', 'imod'):
                bad = Incomparable()
            op = getattr(operator, name)
            if name[0] == 'i' and hasattr(operator, name[1:]):
                fresh = AtomicNumber(5)

                def fails(op=op, bad=bad, fresh=fresh):
                    op(fresh, bad)

                def check(fresh=fresh):
                    assert fresh == 5
                    fresh.__iadd__(1)
                    assert fresh == 6
                if c.attempt(lambda: op(5, bad))[0] == 'exc':
                    out.append((fails, check, name))
            else:
                out.append((lambda op=op, bad=bad: op(n, bad), works, name))
        out.append((lambda: n.wait(timeout='x'), works, 'wait'))
        out.append((lambda: n.wait_until_equal(Incomparable(), timeout=1), works, 'wait_until_equal'))
        return out
    not_locked_out(c, make)
