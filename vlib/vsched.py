"""
Schedule-controlled execution of the real code.

Must be imported (and ``install()``-ed) before satella is imported.  It replaces the lock, clock and
thread-start primitives with wrappers that behave exactly like the originals outside of a session, and
that inside of a session (``Session.run(body)``) hand control over to a seeded scheduler:

* exactly one managed thread runs at a time, every source line of /repo/satella and every operation on a
  lock, condition, event, semaphore, queue, clock or thread is a point at which the scheduler may preempt,
* time is virtual: it moves only when nobody can run, to the nearest deadline,
* "everybody is blocked and nobody has a deadline" is reported as a deadlock, deterministically, and not by
  means of a wall-clock timeout; a step budget turns a livelock into a verdict as well.

Nothing in here looks at how the code under test is written.
"""
import _thread
import gc
import sys
import threading
import time
import queue
import os

REPO_PREFIX = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'satella') + os.sep

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_monotonic = time.monotonic
_real_time = time.time
_real_sleep = time.sleep
_real_perf = time.perf_counter
get_ident = _thread.get_ident

MANAGED = {}        # ident -> MThread
POISONED = False    # has any session been torn down?
VT = None           # active sequential virtual clock (see VirtualTime)


class Abort(BaseException):
    """raised inside managed threads to unwind them at the end of a session"""


class HangError(Exception):
    pass


class MThread:
    __slots__ = ('sched', 'tid', 'baton', 'state', 'waiting_on', 'deadline', 'timed_out', 'prio', 'name',
                 'nopreempt', 'consecutive')

    def __init__(self, sched, tid):
        self.sched = sched
        self.tid = tid
        self.baton = _real_allocate()
        self.baton.acquire()
        self.state = 'ready'
        self.waiting_on = None
        self.deadline = None
        self.timed_out = False
        self.prio = sched.rng.random()
        self.nopreempt = 0


class VLock:
    """threading.Lock that knows about the scheduler"""
    __slots__ = ('_l', '__weakref__')

    def __init__(self):
        self._l = _real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        mt = MANAGED.get(get_ident())
        if mt is None:
            if VT is not None and blocking and timeout is not None and timeout >= 0:
                # sequential virtual time: nobody else can release this, so wait virtually
                if self._l.acquire(False):
                    return True
                VT.advance(timeout)
                return self._l.acquire(False)
            if POISONED and blocking and timeout == -1:
                # a session was torn down, so this may have been left locked by somebody who is no more (think of finalizers)
                if self._l.acquire(True, 1.0):
                    return True
                raise HangError('lock was left locked by a thread of an aborted session')
            return self._l.acquire(blocking, timeout)
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout is not None and timeout < 0 and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")
        s = mt.sched
        s.point(mt)
        deadline = None
        while True:
            if self._l.acquire(False):
                return True
            if not blocking or timeout == 0:
                return False
            if deadline is None and timeout > 0:
                deadline = s.now + timeout
            if s.block(mt, self, deadline):
                return self._l.acquire(False)

    def release(self):
        self._l.release()
        mt = MANAGED.get(get_ident())
        if mt is not None:
            s = mt.sched
            s.wake(self)
            s.point(mt)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()


def _monotonic():
    mt = MANAGED.get(get_ident())
    if mt is not None:
        mt.sched.now += mt.sched.tick
        return 1000.0 + mt.sched.now
    if VT is not None:
        return VT.read()
    return _real_monotonic()


def _time():
    mt = MANAGED.get(get_ident())
    if mt is not None:
        return _wall(mt.sched.now)
    if VT is not None:
        return _wall(VT.read() - 1000.0)
    return _real_time()


def _wall(now):
    """the wall clock gets set, forwards and backwards, all the time, which is nothing to what is measured with the monotonic one"""
    return 1600000000.0 + now + (int(now * 3) * 7919 % 11 - 5) * 777


def _sleep(secs):
    mt = MANAGED.get(get_ident())
    if mt is not None:
        if secs < 0:
            raise ValueError('sleep length must be non-negative')
        if secs == 0:
            mt.sched.point(mt)
        else:
            mt.sched.block(mt, None, mt.sched.now + secs)
        return
    if VT is not None:
        if secs < 0:
            raise ValueError('sleep length must be non-negative')
        VT.sleeps.append(secs)
        VT.advance(secs)
        return
    return _real_sleep(secs)


class VirtualTime:
    """sequential virtual clock: with VirtualTime() as vt: ... vt.advance(2)"""

    def __init__(self, start=1000.0, tick=0.0):
        self.now = start
        self.tick = tick
        self.sleeps = []
        self.reads = 0

    def read(self):
        self.reads += 1
        self.now += self.tick
        return self.now

    def advance(self, dt):
        self.now += dt

    def __enter__(self):
        global VT
        self.prev = VT
        VT = self
        return self

    def __exit__(self, *a):
        global VT
        VT = self.prev
        return False


class Outcome:
    """What the session observed"""

    def __init__(self):
        self.deadlock = None
        self.steplimit = False
        self.wallhang = False
        self.exc = None
        self.steps = 0
        self.switches = 0
        self.sig = 0
        self.value = None
        self.threads = 0
        self.thread_excs = []

    @property
    def stuck(self):
        return bool(self.deadlock) or self.steplimit or self.wallhang


class Session:
    WALL = 90.0

    def __init__(self, rng, max_steps=60000, gran='line', strategy=None, jumps=0.0, tick=0.0):
        self.rng = rng
        self.tick = tick        # how much does the clock move each time that it is read
        self.jumps = jumps      # probability that, at a scheduling point, the clock jumps to the nearest deadline
        self.max_steps = max_steps
        self.gran = gran
        self.threads = []
        self.now = 0.0
        self.steps = 0
        self.aborting = False
        self.done_lock = _real_allocate()
        self.done_lock.acquire()
        self.out = Outcome()
        self.trace = []
        self.strategy = strategy or rng.choice(('random', 'random', 'pct', 'pct', 'pct'))
        if self.strategy == 'random':
            self.p = rng.choice((0.01, 0.05, 0.15, 0.4))
            self.changes = ()
        else:
            self.p = 0
            horizon = rng.choice((30, 100, 300, 1000))
            d = rng.choice((1, 2, 3, 4))
            self.changes = set(rng.randrange(1, horizon) for _ in range(d))
        self.run_len = 0
        self.current = None
        self.ties = rng.random() < 0.5     # do those with the same deadline wake up together?

    # ---- scheduling -------------------------------------------------------------------------
    def runnable(self):
        return [t for t in self.threads if t.state == 'ready']

    def choose(self, mt, must_leave=False):
        r = self.runnable()
        if not r:
            return None
        if self.strategy == 'random':
            if not must_leave and mt.state == 'ready' and self.rng.random() >= self.p \
                    and self.run_len < 3000:
                return mt
            return r[self.rng.randrange(len(r))] if len(r) > 1 else r[0]
        if self.steps in self.changes or self.run_len >= 3000:
            mt.prio = min(t.prio for t in self.threads) - 1.0
            self.run_len = 0
        return max(r, key=lambda t: t.prio)

    def point(self, mt):
        if self.aborting:
            if mt.state != 'done':
                raise Abort()
            return
        if mt.nopreempt:
            return
        self.steps += 1
        self.run_len += 1
        if self.steps > self.max_steps:
            self.out.steplimit = True
            self.start_abort()
            raise Abort()
        if self.jumps and self.rng.random() < self.jumps:
            self.expire_one()
        nxt = self.choose(mt)
        if nxt is not mt and nxt is not None:
            self.switch(mt, nxt)

    def expire_one(self):
        """move the clock to the nearest deadline. Returns the thread that has got woken up, or None"""
        timed = [t for t in self.threads if t.state == 'blocked' and t.deadline is not None]
        if not timed:
            return None
        dl = min(t.deadline for t in timed)
        self.now = max(self.now, dl)
        if self.ties:
            # everyone whose time has come gets to run, in an order up to the strategy
            cands = [t for t in timed if t.deadline <= self.now]
        else:
            cands = [t for t in timed if t.deadline == dl]
        nxt = cands[self.rng.randrange(len(cands))]
        for t in (cands if self.ties else (nxt,)):
            t.state = 'ready'
            t.timed_out = True
            t.waiting_on = None
            t.deadline = None
        return nxt

    def block(self, mt, on, deadline):
        """Block the thread. Returns True if it was woken up by timeout"""
        if self.aborting:
            raise Abort()
        self.steps += 1
        if self.steps > self.max_steps:
            self.out.steplimit = True
            self.start_abort()
            raise Abort()
        mt.state = 'blocked'
        mt.waiting_on = on
        mt.deadline = deadline
        mt.timed_out = False
        self.dispatch(mt)
        return mt.timed_out

    def dispatch(self, mt):
        """mt cannot run. Find somebody who can"""
        nxt = self.choose(mt, True)
        if nxt is None:
            nxt = self.expire_one()
            if nxt is None:
                alive = [t for t in self.threads if t.state != 'done']
                if not alive:
                    self.done_lock.release()
                    return
                self.out.deadlock = [(t.tid, type(t.waiting_on).__name__) for t in alive]
                self.start_abort()
                if mt.state == 'done':
                    return
                raise Abort()
        if nxt is mt:
            return
        self.switch(mt, nxt)

    def switch(self, mt, nxt):
        self.out.switches += 1
        self.run_len = 0
        self.trace.append((self.steps, nxt.tid))
        self.current = nxt
        nxt.baton.release()
        if mt.state != 'done':
            mt.baton.acquire()
            if self.aborting:
                raise Abort()

    def wake(self, on):
        for t in self.threads:
            if t.state == 'blocked' and t.waiting_on is on:
                t.state = 'ready'
                t.waiting_on = None
                t.deadline = None

    def start_abort(self):
        global POISONED
        POISONED = True
        self.aborting = True
        me = MANAGED.get(get_ident())
        for t in self.threads:
            if t is not me and t.state != 'done':
                t.state = 'aborting'
        # threads are unwound one after another, chained by finish()
        if me is None or me.state == 'done':
            self.unwind_next()

    def unwind_next(self):
        for t in self.threads:
            if t.state == 'aborting':
                t.state = 'unwinding'
                t.baton.release()
                return
        if all(t.state == 'done' for t in self.threads):
            try:
                self.done_lock.release()
            except RuntimeError:
                pass

    # ---- threads ----------------------------------------------------------------------------
    def spawn(self, f, args):
        mt = MThread(self, len(self.threads))
        self.threads.append(mt)
        started = _real_allocate()
        started.acquire()

        def runner():
            MANAGED[get_ident()] = mt
            started.release()
            mt.baton.acquire()
            try:
                if not self.aborting:
                    f(*args)
            except Abort:
                pass
            except BaseException as e:  # noqa
                self.out.thread_excs.append(e)
            finally:
                self.finish(mt)

        _real_start(runner, ())
        started.acquire()
        return mt

    def finish(self, mt):
        mt.state = 'done'
        MANAGED.pop(get_ident(), None)
        if self.aborting:
            self.unwind_next()
            return
        self.wake(mt)
        if mt.tid == 0:
            # scenario is finished; whatever remains is unwound
            self.start_abort()
            return
        self.dispatch(mt)

    def run(self, body):
        global CURRENT
        out = self.out

        def main():
            try:
                out.value = body(self)
            except Abort:
                pass
            except BaseException as e:  # noqa
                out.exc = e

        gc_was = gc.isenabled()
        gc.disable()
        _mon_on(self.gran)
        try:
            mt = self.spawn(main, ())
            self.current = mt
            mt.baton.release()
            if not self.done_lock.acquire(True, self.WALL):
                out.wallhang = True
        finally:
            _mon_off()
            if gc_was:
                gc.enable()
        out.steps = self.steps
        out.threads = len(self.threads)
        out.sig = hash(tuple(self.trace))
        return out

    def nopreempt(self):
        return _NoPreempt(self)


class _NoPreempt:
    """critical section of the monitor itself: its bookkeeping is atomic with regard to the scheduler"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.mt = MANAGED[get_ident()]
        self.mt.nopreempt += 1

    def __exit__(self, *a):
        self.mt.nopreempt -= 1
        return False


# ---- preemption inside of satella -------------------------------------------------------------
TOOL = 4
_mon_ready = False


def _on_line(code, line):
    if not code.co_filename.startswith(REPO_PREFIX):
        return sys.monitoring.DISABLE
    mt = MANAGED.get(get_ident())
    if mt is not None:
        mt.sched.point(mt)


def _on_instr(code, off):
    if not code.co_filename.startswith(REPO_PREFIX):
        return sys.monitoring.DISABLE
    mt = MANAGED.get(get_ident())
    if mt is not None:
        mt.sched.point(mt)


def _mon_on(gran):
    global _mon_ready
    m = sys.monitoring
    if not _mon_ready:
        m.use_tool_id(TOOL, 'vsched')
        m.register_callback(TOOL, m.events.LINE, _on_line)
        m.register_callback(TOOL, m.events.INSTRUCTION, _on_instr)
        _mon_ready = True
    m.set_events(TOOL, m.events.INSTRUCTION if gran == 'opcode' else
                 (m.events.LINE if gran == 'line' else 0))


def _mon_off():
    sys.monitoring.set_events(TOOL, 0)


# ---- installation -------------------------------------------------------------------------------
_orig_join = threading.Thread.join
_orig_is_alive = threading.Thread.is_alive
_installed = False


def _start_new_thread(f, args=(), kwargs=None):
    mt = MANAGED.get(get_ident())
    if mt is None:
        return _real_start(f, args) if kwargs is None else _real_start(f, args, kwargs)
    mt.sched.spawn(f, args)
    return 0


def _bootstrap_patch():
    orig = threading.Thread._bootstrap

    def _bootstrap(self):
        mt = MANAGED.get(get_ident())
        if mt is not None:
            self._vmt = mt
        return orig(self)
    threading.Thread._bootstrap = _bootstrap


def _join(self, timeout=None):
    mt = MANAGED.get(get_ident())
    target = getattr(self, '_vmt', None)
    if mt is None or target is None:
        return _orig_join(self, timeout)
    if target is mt:
        raise RuntimeError("cannot join current thread")
    s = mt.sched
    s.point(mt)
    deadline = None if timeout is None else s.now + max(timeout, 0)
    while target.state != 'done':
        if timeout is not None and timeout <= 0:
            return
        if s.block(mt, target, deadline):
            return
    _orig_join(self)


def _is_alive(self):
    target = getattr(self, '_vmt', None)
    if target is None:
        return _orig_is_alive(self)
    return target.state != 'done'


def install():
    global _installed
    if _installed:
        return
    _installed = True
    if 'satella' in sys.modules:
        raise RuntimeError('install() has to precede importing satella')
    threading.Lock = VLock
    threading._allocate_lock = VLock
    threading.RLock = threading._PyRLock
    threading._start_new_thread = _start_new_thread
    _bootstrap_patch()
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
    threading._time = _monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _monotonic
    time.monotonic = _monotonic
    time.time = _time
    time.sleep = _sleep
    import concurrent.futures.thread as cft
    import concurrent.futures._base as cfb
    cft._global_shutdown_lock = VLock()
    cfb.time.monotonic = _monotonic
