"""C30: stack dumps, memory dumps, size accounting and deep comparison report exactly the state that was there"""
import collections
import gc
import io
import json
import os
import pickle
import signal
import sys
import threading
import zlib

from vlib.harness import Check
from checks.common import Boom, MyDict, Standin, disguise

import satella.instrumentation.memory.dump_frames_on as memdump
from satella.coding import assert_equal, Inequal, InequalityReason
from satella.instrumentation import (Traceback, GenerationPolicy, StackFrame, StoredVariableValue, frame_from_traceback,
                                     dump_frames_on, install_dump_frames_on)
from satella.instrumentation.memory import get_size, dump_memory_on, install_dump_memory_on
from satella.json import JSONEncoder

CHECK = Check('C30', 'A case is a random program state (call chain with locals, object graph, pair of values) that is dumped, sized or '
                     'compared; distinct by its parameters and outcomes; non-trivial if at least two oracle evaluations took place')


class Plain:
    def __init__(self, v=None):
        self.v = v

    def __eq__(self, other):
        return type(other) is Plain and self.v == other.v

    def __repr__(self):
        return 'Plain(%r)' % (self.v,)


REPR_FAILURES = [ValueError]


class BadRepr:
    def __repr__(self):
        raise REPR_FAILURES[0]('no repr today')

    def __eq__(self, other):
        return type(other) is BadRepr

    __hash__ = object.__hash__


class Unloadable:
    def __init__(self):
        self.a = 1

    def __setstate__(self, state):
        raise RuntimeError('cannot load')


class PickleBomb:
    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc

    def __repr__(self):
        return '<bomb>'


def random_value(rng, depth=0):
    kind = rng.randrange(9 if depth < 3 else 5)
    if kind == 0:
        return rng.randint(-10 ** rng.randrange(1, 30), 10 ** 6)
    if kind == 1:
        return ''.join(rng.choice('ab \u0105\u4e2d\n"') for _ in range(rng.randrange(0, 12)))
    if kind == 2:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(0, 12)))
    if kind == 3:
        return rng.choice([None, True, False, 1.5, -0.25, float('inf')])
    if kind == 4:
        return Plain(rng.randrange(100))
    if kind == 5:
        return [random_value(rng, depth + 1) for _ in range(rng.randrange(0, 4))]
    if kind == 6:
        return tuple(random_value(rng, depth + 1) for _ in range(rng.randrange(0, 4)))
    if kind == 7:
        return {rng.choice(['k', 'l', 3, (1, 2), None]): random_value(rng, depth + 1) for _ in range(rng.randrange(0, 4))}
    return 'x' * rng.randrange(50, 3000)


def unpicklable(rng):
    return rng.choice([lambda: 1, threading.Lock(), (i for i in range(3)), PickleBomb(KeyboardInterrupt('x')), PickleBomb(ValueError('q')),
                       PickleBomb(SystemExit(3)), PickleBomb(MemoryError()), PickleBomb(RecursionError())])


class Policy(GenerationPolicy):
    """Does not pickle integers, and marks representations"""

    def should_pickle(self, value):
        return super().should_pickle(value) and not isinstance(value, int)

    def process_repr(self, r):
        return '!' + super().process_repr(r)


def random_policy(rng):
    """-> (what to pass, expectation dict)"""
    if rng.random() < 0.25:
        return GenerationPolicy, {'pickle': True, 'at': 128 * 1024, 'limit': 128 * 1024, 'sub': False}
    sub = rng.random() < 0.3
    exp = {'pickle': rng.random() < 0.85, 'at': rng.choice([0, 20, 100, 128 * 1024]), 'limit': rng.choice([None, 0, 5, 60, 128 * 1024]), 'sub': sub}
    cls = Policy if sub else GenerationPolicy
    return cls(exp['pickle'], exp['at'], exp['limit'], rng.randrange(1, 10)), exp


def check_stored(c, stored, value, exp, key, loadable=True):
    try:
        r = repr(value)
    except Exception:  # noqa
        r = None
    if r is not None:
        if exp['limit'] is not None and len(r) > exp['limit']:
            r = r[:exp['limit']] + '...'
        if exp['sub']:
            r = '!' + r
        c.eq(stored.repr, r, key + '-repr', 'text representation of a stored variable')
    else:
        c.expect(isinstance(stored.repr, str) and stored.repr, key + '-bad-repr', 'a broken __repr__ left no text', repr=stored.repr)
    c.eq(stored.type_, repr(type(value)), key + '-type', 'type of a stored variable')
    should = exp['pickle'] and not (exp['sub'] and isinstance(value, int))
    if not should:
        c.eq(stored.pickle_type, None, key + '-not-pickled', 'policy forbade pickling, pickle type')
        c.raises(ValueError, stored.load_value, key + '-load-unpickled')
        return
    try:
        raw = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
    except BaseException:  # noqa
        c.eq(stored.pickle_type, 'failed', key + '-failed-pickle', 'pickle type of an unpicklable value')
        c.raises(ValueError, stored.load_value, key + '-load-failed')
        return
    if len(raw) > exp['at']:
        c.eq(stored.pickle_type, 'pickle/gzip', key + '-compressed', 'pickle type of a value above the compression threshold')
        kind, data = c.attempt(lambda: zlib.decompress(stored.pickle))
        c.expect(kind == 'ok', key + '-zlib', 'compressed pickle is not zlib data', exc=repr(data))
    else:
        c.eq(stored.pickle_type, 'pickle', key + '-plain', 'pickle type of a value below the compression threshold')
    if loadable:
        kind, got = c.attempt(stored.load_value)
        if not c.expect(kind == 'ok', key + '-load', 'stored value could not be loaded back', exc=object.__repr__(got)):
            return
        c.expect(got == value, key + '-value', 'stored value loaded back is different', type=type(value).__name__)
        c.eq(type(got), type(value), key + '-value-type', 'type of stored value loaded back')
    else:
        c.raises(ValueError, stored.load_value, key + '-load-unloadable')


def build_chain(rng, terminal):
    """A chain of functions in a namespace of its own. terminal: code run in the innermost frame"""
    depth = rng.randrange(1, 6)
    names = ['fn_%d_%s' % (i, rng.choice('abc')) for i in range(depth)]
    ns = {'__name__': 'chain_module', 'values': [], 'TERMINAL': terminal}
    src, locs = [], []
    for i, name in enumerate(names):
        values = {'%sv%d_%d' % (rng.choice(['', '', '_', '__']), i, j): random_value(rng) for j in range(rng.randrange(0, 4))}
        for k, v in values.items():
            if rng.random() < 0.1:
                values[k] = unpicklable(rng)
            elif rng.random() < 0.05:
                values[k] = BadRepr()
        ns['values'].append(values)
        locs.append(values)
        src.append('def %s(arg):' % name)
        for k in values:
            src.append('    %s = values[%d][%r]' % (k, i, k))
        src.append('    ' * 1 + '\n' * rng.randrange(0, 3))
        if i + 1 < depth:
            src.append('    return %s(arg)' % names[i + 1])
        else:
            src.append('    return TERMINAL()')
    code = '\n'.join(src)
    exec(compile(code, '/nonexistent/chain.py', 'exec'), ns)  # noqa
    lines = {}
    text = code.split('\n')
    for i, name in enumerate(names):
        want = 'return %s(arg)' % names[i + 1] if i + 1 < depth else 'return TERMINAL()'
        lines[name] = 1 + max(n for n, line in enumerate(text) if line.strip() == want)
    return names, ns, locs, lines


def check_chain(c, frames, names, locs, lines, ns_names, exp, argvalue, key):
    """frames: StackFrame list from the innermost chain function outwards"""
    for pos, frame in enumerate(frames):
        i = len(names) - 1 - pos
        c.eq(frame.name, names[i], key + '-frame-name', 'function of frame %d counted from the innermost' % pos)
        c.eq(frame.filename, '/nonexistent/chain.py', key + '-frame-file', 'file name of a frame')
        c.eq(frame.lineno, lines[names[i]], key + '-frame-line', 'line of a frame')
        want = dict(locs[i], arg=argvalue)
        c.eq(set(frame.locals), set(want), key + '-locals', 'names of locals in a frame')
        for k, v in want.items():
            if k in frame.locals:
                check_stored(c, frame.locals[k], v, exp, key + '-local')
        c.expect(set(ns_names) <= set(frame.globals), key + '-globals', 'globals missing from a frame', missing=sorted(set(ns_names) - set(frame.globals)))
        c.eq(set(frame.globals) - set(ns_names) - {'__builtins__'}, set(), key + '-extra-globals', 'globals not there in the module')


@CHECK.scenario(quick=40, thorough=300)
def exception_traceback(c):
    """Traceback() in an except block: the frames of the raise, innermost first, up to the outermost caller"""
    rng = c.rng
    policy, exp = random_policy(rng)
    c.rec('policy', exp)

    def terminal():
        raise KeyError('the-terminal-error')

    names, ns, locs, lines = build_chain(rng, terminal)
    arg = random_value(rng)
    catch_at = rng.randrange(len(names))
    entry = ns[names[catch_at]]
    tb = None
    try:
        entry(arg)
    except KeyError as e:
        bottom = frame_from_traceback(e.__traceback__)
        c.eq(bottom.f_code.co_name, 'terminal', 'bottom-frame', 'frame_from_traceback')
        tb = Traceback(policy=policy)
    c.eq(tb.frames[0].name, 'terminal', 'innermost-first', 'first frame')
    k = len(names) - catch_at
    chain = tb.frames[1:1 + k]
    check_chain(c, chain, names, locs, lines, ns, exp, arg, 'exc')
    outer = [f.name for f in tb.frames[1 + k:]]
    want = []
    f = sys._getframe()  # noqa
    while f:
        want.append(f.f_code.co_name)
        f = f.f_back
    c.eq(outer, want, 'outer-frames', 'frames of callers of the place that caught')
    c.expect('the-terminal-error' in tb.formatted_traceback, 'formatted-traceback', 'formatted traceback does not mention the exception')
    text = tb.pretty_format()
    text_lines = text.split('\n')
    for pos, frame in enumerate(chain):
        c.expect('%s at %s:%s' % (frame.name, frame.filename, frame.lineno) in text, 'pretty-frame', 'frame absent from pretty print', frame=frame.name)
        for k2, v in frame.locals.items():
            c.expect(k2 in text and v.repr in text, 'pretty-local', 'local absent from pretty print', local=k2)
            c.expect(('*** %s: %s' % (k2, v.repr)).split('\n')[0] in text_lines, 'pretty-local-line', 'line of a local absent from pretty print', local=k2)
        c.expect(frame.name in str(tb), 'str-frame', 'frame absent from str()')
    c.count('frames', len(tb.frames))


@CHECK.scenario(quick=30, thorough=250)
def given_frame(c):
    """Traceback(frame) starts at that frame, also one of another thread"""
    rng = c.rng
    policy, exp = random_policy(rng)
    arg = random_value(rng)
    c.rec('given', exp, repr(arg))
    if rng.random() < 0.5:
        grabbed = []

        def terminal():
            grabbed.append(Traceback(sys._getframe(1), policy))  # noqa

        names, ns, locs, lines = build_chain(rng, terminal)
        ns[names[0]](arg)
        tb = grabbed[0]
    else:
        ready, leave = threading.Event(), threading.Event()

        def terminal():
            ready.set()
            leave.wait(20)

        names, ns, locs, lines = build_chain(rng, terminal)
        thr = threading.Thread(target=ns[names[0]], args=(arg,))
        thr.start()
        ready.wait(20)
        frame = sys._current_frames()[thr.ident]  # noqa
        while frame.f_code.co_filename != '/nonexistent/chain.py':
            frame = frame.f_back
        tb = Traceback(frame, policy)
        leave.set()
        thr.join(20)
    check_chain(c, tb.frames[:len(names)], names, locs, lines, ns, exp, arg, 'given')
    c.expect(len(tb.frames) > len(names), 'callers-missing', 'callers of the chain missing')


@CHECK.scenario(quick=40, thorough=300)
def round_trips(c):
    """Traceback survives pickling and JSON"""
    rng = c.rng
    policy, exp = random_policy(rng)

    def terminal():
        raise KeyError('the-terminal-error')

    names, ns, locs, lines = build_chain(rng, terminal)
    arg = random_value(rng)
    try:
        ns[names[0]](arg)
    except KeyError:
        tb = Traceback(policy=policy)
    tb.frames = tb.frames[:1 + len(names)]          # the frames of the harness itself are of no interest
    way = rng.randrange(5)
    c.rec('way', way, exp, names)
    if way == 0:
        back = Traceback.from_pickle(tb.pickle())
    elif way == 1:
        bio = io.BytesIO()
        tb.pickle_to(bio)
        bio.seek(0)
        back = Traceback.from_pickle(bio)
    elif way == 4:
        bio = io.BytesIO()
        first = Traceback(sys._getframe(), GenerationPolicy(enable_pickling=False))   # noqa
        first.frames = first.frames[:1]
        start = bio.write(b'x' * rng.randrange(3))
        for written in rng.choice([(first, tb), (tb, first), (tb, tb)]):
            written.pickle_to(bio)
        bio.seek(start)
        read = [Traceback.from_pickle(bio), Traceback.from_pickle(bio)]
        c.eq(bio.read(), b'', 'read-one-after-another', 'what is left after loading two tracebacks')
        back = read[0] if read[0] == tb else read[1]
    elif way == 2:
        back = Traceback.from_json(json.loads(json.dumps(tb.to_json())))
    else:
        back = Traceback.from_json(json.loads(JSONEncoder().encode(tb)))
    c.expect(back == tb, 'round-trip-equal', 'traceback changed in a round trip', way=way)
    # a difference anywhere makes them different
    changed = pickle.loads(pickle.dumps(tb))
    where = rng.randrange(len(changed.frames))
    frame = changed.frames[where]
    what = rng.choice(['name', 'filename', 'lineno', 'locals', 'globals', 'frames', 'fewer', 'one local'])
    some = StoredVariableValue('the-other', GenerationPolicy())
    if what in ('name', 'filename'):
        setattr(frame, what, getattr(frame, what) + '2')
    elif what == 'lineno':
        frame.lineno += rng.choice([-1, 1])
    elif what in ('locals', 'globals'):
        getattr(frame, what)['added-one'] = some
    elif what == 'frames':
        changed.frames.append(frame)
    elif what == 'fewer':
        del changed.frames[where]
    else:
        where = 1 + rng.randrange(len(names))
        changed.frames[where].locals['arg'] = some
    c.expect(changed != tb and (what in ('frames', 'fewer') or changed.frames[where] != tb.frames[where]), 'difference-unseen',
             'tracebacks that differ are equal', what=what)
    c.eq(back.pretty_format(), tb.pretty_format(), 'round-trip-pretty', 'pretty print after a round trip')
    c.eq(str(back), str(tb), 'round-trip-str', 'str() after a round trip')
    c.eq(back.formatted_traceback, tb.formatted_traceback, 'round-trip-formatted', 'formatted traceback after a round trip')
    check_chain(c, back.frames[1:], names, locs, lines, ns, exp, arg, 'back')
    for other in (b'', pickle.dumps([1])):
        kind, e = c.attempt(lambda: Traceback.from_pickle(other))
        c.expect(kind == 'exc', 'from-pickle-alien', 'from_pickle took something that is not a traceback')
    c.raises(ValueError, lambda: Traceback.from_pickle(pickle.dumps({'a': 1})), 'from-pickle-type')


@CHECK.scenario(quick=60, thorough=600)
def stored_values(c):
    """StoredVariableValue keeps what can be kept, under any policy"""
    rng = c.rng
    for _ in range(8):
        policy, exp = random_policy(rng)
        policy = policy() if isinstance(policy, type) else policy
        loadable = True
        roll = rng.random()
        if roll < 0.2:
            value = unpicklable(rng)
        elif roll < 0.3:
            value = BadRepr()
            loadable = None
        elif roll < 0.4:
            value, loadable = Unloadable(), False
        else:
            value = random_value(rng)
        stored = StoredVariableValue(value, policy)
        c.rec('stored', exp, type(value).__name__, loadable)
        back = rng.choice([lambda: stored, lambda: pickle.loads(pickle.dumps(stored)),
                           lambda: StoredVariableValue.from_json(json.loads(json.dumps(stored.to_json())))])()
        if loadable is None:
            c.expect(isinstance(back.repr, str) and back.repr, 'broken-repr', 'no text for an object with a broken __repr__')
            continue
        check_stored(c, back, value, exp, 'stored', loadable)
        c.expect(back == stored, 'stored-equal', 'stored value changed in a round trip')
        c.eq((back.pickle_type, back.pickle or None), (stored.pickle_type, stored.pickle or None), 'stored-pickle', 'pickle of a stored value after a round trip')
        c.eq(str(back), back.repr, 'stored-str', 'str of a stored value')
        c.expect(back.repr in repr(back) and back.type_ in repr(back), 'stored-repr-text', 'repr() of a stored value', text=repr(back))
    shown = rng.choice(['', 'same', '5'])
    kinds = [type('Kind%d' % i, (), {'__repr__': lambda self: shown}) for i in range(2)]
    no_pickles = GenerationPolicy(enable_pickling=False)
    c.expect(StoredVariableValue(kinds[0](), no_pickles) != StoredVariableValue(kinds[1](), no_pickles), 'different-type-equal',
             'values of different types, shown the same, are equal')
    c.expect(StoredVariableValue(kinds[0](), no_pickles) == StoredVariableValue(kinds[0](), no_pickles), 'same-type-unequal', 'same type and text, unequal')
    level = rng.choice([-1, 0, 10, 1.5, '6', None, 100])
    c.raises(Exception, lambda: GenerationPolicy(compression_level=level), 'compression-level')


@CHECK.scenario(quick=15, thorough=100)
def hostile_frames(c):
    """Representations with side effects on the frame being dumped do not abort the dump"""
    rng = c.rng
    ns = {'__name__': 'hostile'}

    class Grower:
        def __init__(self):
            self.n = 0

        def __repr__(self):
            self.n += 1
            ns['grown_%d_%d' % (id(self), self.n)] = self.n
            if rng.random() < 0.3:
                ns.pop('victim', None)
            return 'grower'

    for i in range(rng.randrange(1, 5)):
        ns['grower%d' % i] = Grower()
    ns['victim'] = 1
    ns['grab'] = lambda: Traceback(sys._getframe(1), GenerationPolicy(enable_pickling=False))  # noqa
    mine = Grower()
    ns['mine'] = mine
    exec('def hostile(a, b):\n    c_ = mine\n    d_ = 5\n    return grab()\n', ns)  # noqa
    c.rec('hostile', sorted(ns)[:12])
    kind, tb = c.attempt(lambda: ns['hostile'](mine, BadRepr()))
    if not c.expect(kind == 'ok', 'hostile-dump', 'dump aborted by a __repr__ with a side effect', exc=repr(tb)):
        return
    c.eq(set(tb.frames[0].locals), {'a', 'b', 'c_', 'd_'}, 'hostile-locals', 'locals of the frame')
    c.eq(tb.frames[0].locals['d_'].repr, '5', 'hostile-local', 'local variable')
    c.expect(all('grower%d' % i in tb.frames[0].globals for i in range(1)), 'hostile-globals', 'globals of the frame')


class Worker(threading.Thread):
    def __init__(self, name, value):
        super().__init__(daemon=True)
        self.ready, self.leave = threading.Event(), threading.Event()
        self.value = value
        ns = {'ready': self.ready, 'leave': self.leave}
        exec('def %s(marker_local):\n    ready.set()\n    leave.wait(20)\n' % name, ns)  # noqa
        self.fn = ns[name]

    def run(self):
        self.fn(self.value)


@CHECK.scenario(quick=10, thorough=60)
def all_threads(c):
    """dump_frames_on shows every thread, at a call or upon a signal"""
    rng = c.rng
    workers = [Worker('worker_fn_%d' % i, 'marker-%d-%d' % (i, rng.randrange(10 ** 6))) for i in range(rng.randrange(1, 4))]
    for w in workers:
        w.start()
    for w in workers:
        w.ready.wait(20)
    out = io.StringIO()
    use_signal = rng.random() < 0.6 and threading.current_thread() is threading.main_thread()
    c.rec('signal', use_signal, [w.value for w in workers])
    try:
        if use_signal:
            old = signal.getsignal(signal.SIGUSR1)
            install_dump_frames_on(signal.SIGUSR1, out)
            try:
                os.kill(os.getpid(), signal.SIGUSR1)
                for _ in range(1000):
                    if 'End of stack' in out.getvalue():
                        break
                    threading.Event().wait(0.005)
            finally:
                signal.signal(signal.SIGUSR1, old)
        else:
            dump_frames_on(output=out)
    finally:
        for w in workers:
            w.leave.set()
        for w in workers:
            w.join(20)
    text = out.getvalue()
    for i, w in enumerate(workers):
        c.expect('worker_fn_%d at' % i in text, 'thread-missing', 'frame of a thread missing from the dump', i=i)
        c.expect('*** marker_local: %r' % w.value in text, 'thread-local-missing', 'local of a thread missing from the dump', i=i)
        c.expect('For stack frame %s' % w.ident in text, 'thread-ident', 'thread identity missing from the dump')
    c.expect('all_threads at' in text, 'own-thread-missing', 'frame of the dumping thread missing')
    c.expect(text.rstrip().endswith('End of stack frame dump'), 'dump-end', 'dump was not finished')


class BadSize:
    def __sizeof__(self):
        raise TypeError('no size')


class Sized:
    def __init__(self, n):
        self.n = n

    def __sizeof__(self):
        return self.n

    def __repr__(self):
        return 'Sized#%d' % id(self)


@CHECK.scenario(quick=40, thorough=300)
def memory_dump(c):
    """dump_memory_on lists each object once and sums sizes by type, worst first"""
    rng = c.rng
    objs = []
    REPR_FAILURES[0] = rng.choice([ValueError, RuntimeError, AttributeError, Boom])
    for _ in range(rng.randrange(1, 30)):
        objs.append(rng.choice([lambda: Sized(rng.randrange(10 ** 5)), lambda: [1] * rng.randrange(50), lambda: {'a': rng.randrange(9)},
                                lambda: Plain(3), BadSize, BadRepr])())
    c.rec('objects', [type(o).__name__ for o in objs])
    out = io.StringIO()
    with Standin([memdump], gc, get_objects=lambda *a, **kw: list(objs)):
        if rng.random() < 0.3 and threading.current_thread() is threading.main_thread():
            oldh = signal.getsignal(signal.SIGUSR2)
            install_dump_memory_on(signal.SIGUSR2, out)
            try:
                os.kill(os.getpid(), signal.SIGUSR2)
                threading.Event().wait(0.001)
                kind, e = 'ok', None
            except Exception as e2:  # noqa
                kind, e = 'exc', e2
            finally:
                signal.signal(signal.SIGUSR2, oldh)
        else:
            kind, e = c.attempt(lambda: dump_memory_on(out))
    if not c.expect(kind == 'ok', 'dump-aborted', 'memory dump was aborted by an object in memory', exc=repr(e)):
        return
    text = out.getvalue()
    sizes, number = collections.Counter(), collections.Counter()
    for o in objs:
        try:
            s = sys.getsizeof(o)
        except TypeError:
            s = 0
        sizes[type(o)] += s
        number[type(o)] += 1
        if isinstance(o, Sized):
            c.eq(text.count('object %r type' % o), 1, 'object-listed', 'times an object is listed')
            c.expect('%r type %s size %s bytes' % (o, type(o), s) in text, 'object-size', 'size of an object')
    c.eq(text.count('\nobject ') + text.startswith('object '), len(objs), 'objects-listed', 'objects listed')
    head, _, tail = text.partition('Memory usage scores')
    got = [line for line in tail.split('\n') if line.endswith(' instances')]
    c.eq(sorted(got), sorted('%s: %s bytes %s instances' % (t, sizes[t], number[t]) for t in sizes), 'type-totals', 'totals by type')
    order = [int(line.split(': ')[1].split(' ')[0]) for line in got]
    c.eq(order, sorted(order, reverse=True), 'totals-order', 'totals are ordered from the biggest')


class Node:
    def __init__(self):
        self.refs = []


def ref_size(obj):
    seen, todo, total = {}, [obj], 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        total += sys.getsizeof(o)
        if isinstance(o, dict):
            todo += list(o.keys()) + list(o.values())
        elif hasattr(o, '__dict__'):
            todo.append(o.__dict__)
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            todo += list(o)
    return total


@CHECK.scenario(quick=80, thorough=800)
def sizes(c):
    """get_size counts every reachable object exactly once, also in cycles and shared structures"""
    rng = c.rng
    pool = ['s%d' % rng.randrange(10 ** 9) * rng.randrange(1, 20), rng.randrange(10 ** 40), b'bytes' * rng.randrange(1, 9), bytearray(9), None, 1.5]
    for _ in range(rng.randrange(1, 15)):
        k = rng.randrange(6)
        kids = [rng.choice(pool) for _ in range(rng.randrange(0, 5))]
        if k == 0:
            pool.append(kids)
        elif k == 1:
            pool.append(tuple(kids))
        elif k == 2:
            pool.append(rng.choice([dict, dict, MyDict, collections.OrderedDict])({i if rng.random() < 0.5 else 'key%d' % i: v for i, v in enumerate(kids)}))
        elif k == 3:
            n = Node()
            n.refs.extend(kids)
            pool.append(n)
        elif k == 4:
            pool.append({v for v in kids if isinstance(v, (str, int, float, bytes, type(None)))})
        else:
            pool.append(collections.deque(kids))
    lists = [p for p in pool if isinstance(p, list)] + [p.refs for p in pool if isinstance(p, Node)]
    dicts = [p for p in pool if isinstance(p, dict)]
    cyc = 0
    for lst in lists:
        if rng.random() < 0.5:
            lst.append(rng.choice(pool))
            cyc += 1
    for d in dicts:
        if rng.random() < 0.5:
            d['cyc'] = rng.choice(pool)
            cyc += 1
    for _ in range(3):
        obj = rng.choice(pool[-6:])
        c.rec('size', type(obj).__name__, ref_size(obj))
        c.eq(get_size(obj), ref_size(obj), 'size', 'size of a graph of objects', type=type(obj).__name__, mutations=cyc)
    c.eq(get_size([pool[0]] * 5), ref_size([pool[0]] * 5), 'shared-size', 'size of a list with one object many times')


class Opaque:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Opaque) and self.n == other.n

    __hash__ = None


def first_difference(a, b):
    """Reference for deep comparison -> None or (obj1, obj2, reason)"""
    ne, ln, kn = InequalityReason.NOT_EQUAL, InequalityReason.LENGTH_MISMATCH, InequalityReason.KEY_NOT_FOUND
    for kinds in ((set, frozenset), (list, tuple), (dict,)):
        if isinstance(a, kinds):
            if not isinstance(b, kinds):
                return a, b, ne
            if len(a) != len(b):
                return a, b, ln
            if kinds[0] is set:
                return None if a == b else (a, b, ne)
            if kinds[0] is list:
                for x, y in zip(a, b):
                    d = first_difference(x, y)
                    if d is not None:
                        return d
                return None
            for k in a:
                if k not in b:
                    return k, None, kn
                d = first_difference(a[k], b[k])
                if d is not None:
                    return d
            return None
    return None if a == b else (a, b, ne)


def cmp_value(rng, depth=0):
    kind = rng.randrange(11 if depth < 3 else 6)
    if kind == 0:
        return rng.choice([rng.randrange(4), 1000, -7000])
    if kind == 1:
        return rng.choice(['a', 'b', '', 'a longer text'])
    if kind == 2:
        return rng.choice([b'a', bytearray(b'a'), None, True, 1.0, 2.75, b'some bytes'])
    if kind == 3:
        return Opaque(rng.randrange(3))
    if kind == 4:
        return rng.choice([set, frozenset])(rng.randrange(4) for _ in range(rng.randrange(3)))
    if kind == 5:
        return object
    if kind in (6, 7, 8):
        return rng.choice([list, tuple])(cmp_value(rng, depth + 1) for _ in range(rng.randrange(4)))
    return {rng.choice(['k', 'l', 'm', 3]): cmp_value(rng, depth + 1) for _ in range(rng.randrange(4))}


def mutate(rng, v, depth=0):
    """An equal or almost equal copy"""
    if rng.random() < 0.08:
        return cmp_value(rng, depth)
    if isinstance(v, (list, tuple)):
        items = [mutate(rng, x, depth + 1) for x in v]
        if rng.random() < 0.05:
            items.append(1)
        if rng.random() < 0.05 and items:
            items.pop()
        return rng.choice([list, tuple])(items)
    if isinstance(v, dict):
        items = [(k, mutate(rng, x, depth + 1)) for k, x in v.items()]
        rng.shuffle(items)
        if rng.random() < 0.05:
            items.append(('new', 1))
        if rng.random() < 0.06 and items:
            items[0] = ('renamed', items[0][1])
        return dict(items)
    if isinstance(v, (set, frozenset)):
        return rng.choice([set, frozenset])(v)
    return v


@CHECK.scenario(quick=150, thorough=2000)
def deep_compare(c):
    """assert_equal raises exactly when the structures differ, naming the first difference"""
    rng = c.rng
    for _ in range(6):
        a = cmp_value(rng)
        b = mutate(rng, a) if rng.random() < 0.8 else cmp_value(rng)
        if rng.random() < 0.4:
            a, b = disguise(rng, a), disguise(rng, b)
        want = first_difference(a, b)
        kind, e = c.attempt(lambda: assert_equal(a, b))
        c.rec('compared', type(a).__name__, type(b).__name__, want and int(want[2]), kind)
        if want is None:
            c.expect(kind == 'ok', 'false-difference', 'equal structures reported as different', a=repr(a), b=repr(b), exc=repr(e))
        else:
            if not c.expect(kind == 'exc' and isinstance(e, Inequal), 'missed-difference', 'different structures not reported with Inequal',
                            a=repr(a), b=repr(b), outcome=repr(e)):
                continue
            c.eq(e.reason, want[2], 'difference-reason', 'reason of inequality', a=repr(a), b=repr(b))
            c.expect(e.obj1 is want[0] or e.obj1 == want[0], 'difference-first', 'first object that was not equal', shown=repr(e.obj1), wanted=repr(want[0]))
            c.expect(e.obj2 is want[1] or e.obj2 == want[1], 'difference-second', 'second object that was not equal', shown=repr(e.obj2), wanted=repr(want[1]))
            c.count('differences')


if __name__ == '__main__':
    CHECK.main()
