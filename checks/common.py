"""Helpers shared by the checks: hostile values, section monitors, linearizability search"""
import collections
import time
import threading

from vlib.vsched import MANAGED, get_ident


class Boom(Exception):
    """an exception thrown by the workload's own callbacks"""


class BoomBase(BaseException):
    pass


def pause(n=1):
    for _ in range(n):
        time.sleep(0)


def not_locked_out(c, make):
    """
    Each step is (what fails, what has to work for another thread afterwards, name): nothing stays locked after a failure,
    whether it was to be expected or not. A thread that waits forever is a deadlock the scheduler reports
    """
    def body(s):
        steps = make(s)
        c.rng.shuffle(steps)
        for fails, works, name in steps:
            out = c.attempt(fails)
            c.count('failed:' + name if out[0] == 'exc' else 'did not fail:' + name)
            done = []
            c.go(lambda: done.append(c.attempt(works)))
            c.expect(done and done[0][0] == 'ok', 'usable-after-a-failure', step=name, outcome=repr(done))
    c.sched(body)


def two_of_a_kind(c, kinds):
    """
    What is done to one object is seen in no other of its kind, made earlier or later, and the same done to the other has the
    same outcome. Each kind is (name, make, use, look), where look tells the whole observable state and changes nothing
    """
    for name, make, use, look in c.rng.sample(kinds, min(len(kinds), 3)):
        c.rec(name)
        a, b = make(), make()
        empty = look(b)
        first = use(a)
        c.eq(look(b), empty, 'of-its-own', kind=name)
        used = look(a)
        c.eq(look(make()), empty, 'of-its-own', kind=name)
        c.eq(use(b), first, 'same-outcome', kind=name)
        c.eq(look(b), used, 'same-outcome', kind=name)
        c.eq(look(a), used, 'of-its-own', kind=name)
        c.count('kind:' + name)


class Unhashable:
    __hash__ = None


class Incomparable:
    def fails(self, *args):
        raise Boom('not to be compared')
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = fails
    __hash__ = object.__hash__


class Section:
    """Watches a critical section: at most one owner at a time"""

    def __init__(self, case, name='section', key='mutual-exclusion'):
        self.case = case
        self.name = name
        self.key = key
        self.owner = None
        self.depth = 0
        self.entries = 0
        self.counter = 0

    def enter(self):
        me = get_ident()
        self.case.events += 1
        if self.owner is not None and self.owner != me:
            self.case.fail(self.key, 'two threads inside of %s at the same time' % (self.name,))
        self.owner = me
        self.depth += 1
        self.entries += 1

    def leave(self):
        me = get_ident()
        self.case.events += 1
        if self.owner != me:
            self.case.fail(self.key, 'somebody else has entered %s while we were inside' % (self.name,))
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def work(self, rng):
        """a read-modify-write that will be torn if the exclusion does not hold"""
        self.enter()
        v = self.counter
        pause(rng.randrange(0, 3))
        if rng.random() < 0.2:
            time.sleep(0.01)
        self.counter = v + 1
        self.leave()


def linearizable(ops, initial, apply, budget=200000):
    """
    Wing & Gong search.  ops: list of (invoked, returned, op, result); apply(state, op) -> (state, result);
    states have to be hashable.  Pending operations have returned=None and result=None.
    """
    n = len(ops)
    seen = set()
    stack = [(frozenset(range(n)), initial)]
    while stack:
        rem, state = stack.pop()
        if (rem, state) in seen:
            continue
        seen.add((rem, state))
        budget -= 1
        if budget <= 0:
            return True     # inconclusive, never an alarm
        completed = [i for i in rem if ops[i][1] is not None]
        if not completed:
            return True
        horizon = min(ops[i][1] for i in completed)
        for i in rem:
            inv, ret, op, result = ops[i]
            if inv > horizon:
                continue
            new, got = apply(state, op)
            if ret is None or got == result:
                stack.append((rem - {i}, new))
    return False


class Clock:
    """logical time for histories, total order of invocations and returns"""

    def __init__(self):
        self.t = 0

    def __call__(self):
        self.t += 1
        return self.t


class Standin:
    """Replaces functions of a library, and whatever the modules given have imported of them by name, for a while"""

    def __init__(self, modules, library, **replacements):
        self.modules, self.library, self.replacements, self.undo = modules, library, replacements, []

    def set(self, where, name, value):
        self.undo.append((where, name, getattr(where, name)))
        setattr(where, name, value)

    def __enter__(self):
        originals = {id(getattr(self.library, n)): v for n, v in self.replacements.items()}
        keep = [getattr(self.library, n) for n in self.replacements]        # noqa
        for m in self.modules:
            for k, v in list(vars(m).items()):
                if id(v) in originals and callable(v):
                    self.set(m, k, originals[id(v)])
        for n, v in self.replacements.items():
            self.set(self.library, n, v)
        return self

    def __exit__(self, *a):
        while self.undo:
            setattr(*self.undo.pop())
        return False


class MyDict(dict):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


def disguise(rng, v, p=0.5, scalars=True, skip=()):
    """
    Something equal that is another object and, often, of a subclass of the type: whoever asks with `is`, or for the exact type, is found out
    """
    t = type(v)
    if t is dict:
        out = [(k, x if k in skip else disguise(rng, x, p, scalars, skip)) for k, x in v.items()]
        return dict(out) if rng.random() >= p else rng.choice([MyDict, collections.OrderedDict])(out)
    if t is list:
        out = [disguise(rng, x, p, scalars, skip) for x in v]
        return out if rng.random() >= p else MyList(out)
    if t is tuple:
        out = tuple(disguise(rng, x, p, scalars, skip) for x in v)
        return out if rng.random() >= p else MyTuple(out)
    if not scalars or rng.random() >= p:
        return fresh(v)
    for a, b in ((str, MyStr), (bytes, MyBytes), (int, MyInt), (float, MyFloat)):
        if t is a:
            return b(v)
    return v


def fresh(v):
    """an equal value that is another object, if there can be one"""
    if type(v) is str:
        return ''.join(list(v)) if len(v) > 1 else v
    if type(v) is int:
        return int(str(v))
    if type(v) is float:
        return float(repr(v))
    if type(v) is bytes:
        return bytes(bytearray(v))
    if type(v) is tuple:
        return tuple(list(v))
    return v
