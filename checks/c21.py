"""C21: a PID file lock is held by at most one live process, and never stays locked by a dead one"""
import mmap
import os
import signal
import struct
import sys
import time
from unittest import mock

from vlib.harness import Check
from checks.common import Boom

from satella.exceptions import ResourceLocked
import satella.os.pidlock as PL
from satella.os import PIDFileLock

CHECK = Check('C21', 'A case is one set of processes that compete for one lock file, delayed and killed at random lines of the '
                     'lock code, or one history of one process upon a lock file of some contents; distinct by seeds, delays, '
                     'crash points and results; non-trivial if at least two oracle evaluations took place')

FILE = os.path.realpath(PL.__file__)


class Cells:
    """counters shared by processes; 0 = holder, 1 = violations, 2 = who, 3.. = free"""

    def __init__(self, n=16):
        self.m = mmap.mmap(-1, 8 * n)

    def __getitem__(self, i):
        return struct.unpack_from('q', self.m, 8 * i)[0]

    def __setitem__(self, i, v):
        struct.pack_into('q', self.m, 8 * i, v)


def trace_lines(on_line):
    def local(frame, event, arg):
        if event == 'line':
            on_line()
        return local

    def tracer(frame, event, arg):
        if os.path.realpath(frame.f_code.co_filename) == FILE:
            return local
        return None
    sys.settrace(tracer)


def child(fn):
    pid = os.fork()
    if pid:
        return pid
    try:
        signal.alarm(120)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        fn()
    except BaseException:
        import traceback
        traceback.print_exc()
        os._exit(77)
    os._exit(0)


def reap(pids, deadline):
    """-> {pid: status}; as processes that are not waited for look alive"""
    out = {}
    while len(out) < len(pids):
        for p in pids:
            if p not in out:
                q, st = os.waitpid(p, os.WNOHANG)
                if q:
                    out[p] = st
        if time.monotonic() > deadline:
            for p in pids:
                if p not in out:
                    os.kill(p, 9)
                    os.waitpid(p, 0)
            break
        time.sleep(0.0005)
    return out


@CHECK.scenario(quick=24, thorough=1500)
def exclusion(c):
    rng = c.rng
    d = c.tmpdir()
    cells = Cells()
    n = rng.randrange(2, 5)
    rounds = rng.randrange(2, 7)
    start = rng.choice(['none', 'none', 'stale', 'stale', 'empty', 'garbage'])
    path = os.path.join(d, 'x.pid')
    if start != 'none':
        with open(path, 'w') as f:
            f.write({'stale': '4194305\n', 'empty': '', 'garbage': 'hello'}[start])
    prob, longest = rng.choice([(0.5, 0.002), (0.2, 0.005), (0.1, 0.01), (0.9, 0.0005)])
    crash = rng.random() < 0.5
    c.rec(n, rounds, start, prob, crash)
    seeds = [rng.randrange(2 ** 60) for _ in range(n)]

    def compete(i):
        import random
        r = random.Random(seeds[i])
        budget = [r.randrange(5, 200) if crash and r.random() < 0.7 else -1]
        active = [True]

        def on_line():
            if not active[0]:
                return
            if budget[0] > 0:
                budget[0] -= 1
                if not budget[0]:
                    cells[8 + i] = 1
                    os._exit(9)
            if r.random() < prob:
                time.sleep(r.random() * longest)
        trace_lines(on_line)
        me = os.getpid()
        done = 0
        tries = 0
        while done < rounds and tries < 400:
            tries += 1
            lock = PIDFileLock('x.pid', d)
            try:
                lock.acquire()
            except ResourceLocked as e:
                if e.pid == me or not e.is_alive:
                    cells[1] = 3
                time.sleep(0.0005 + r.random() * 0.003)
                continue
            if cells[0]:
                cells[1] = 1
                cells[2] = me
            cells[0] = me
            time.sleep(r.random() * 0.003)
            if cells[0] != me:
                cells[1] = 2
            cells[0] = 0
            cells[4 + i] += 1
            lock.release()
            done += 1

    pids = [child(lambda i=i: compete(i)) for i in range(n)]
    st = reap(pids, time.monotonic() + 90)
    got = sum(cells[4 + i] for i in range(n))
    c.count('acquisitions', got)
    c.count('crashes', sum(cells[8 + i] for i in range(n)))
    c.rec([cells[4 + i] for i in range(n)], [cells[8 + i] for i in range(n)])
    c.eq(cells[1], 0, 'held-by-two', start=start)
    c.eq(len(st), n, 'stuck', start=start)
    for i, p in enumerate(pids):
        code = os.waitstatus_to_exitcode(st.get(p, 0))
        c.expect(code == 0 or code == 9 and cells[8 + i], 'competitor-failed', code=code)
    lock = PIDFileLock('x.pid', d)
    lock.acquire()
    with open(path) as f:
        c.eq(f.read().strip(), str(os.getpid()), 'contents')
    lock.release()
    c.expect(not os.path.exists(path), 'release-removes')


@CHECK.scenario(quick=40, thorough=400)
def crash_points(c):
    """a process killed at any line of acquiring or releasing blocks nobody"""
    rng = c.rng
    d = c.tmpdir()
    path = os.path.join(d, 'x.pid')
    at = 1 + c.index % 40
    start = rng.choice([None, '4194305\n', ''])
    if start is not None:
        with open(path, 'w') as f:
            f.write(start)
    cells = Cells()

    def victim():
        left = [at]

        def on_line():
            left[0] -= 1
            if not left[0]:
                cells[3] = 1
                os.kill(os.getpid(), 9)
        lock = PIDFileLock('x.pid', d)
        trace_lines(on_line)
        lock.acquire()
        cells[0] = 1
        lock.release()
        cells[0] = 2
    p = child(victim)
    st = reap([p], time.monotonic() + 60)
    c.rec(at, start, cells[3], cells[0])
    c.eq(len(st), 1, 'stuck')
    c.count('crashes', cells[3])
    lock = PIDFileLock('x.pid', d)
    try:
        lock.acquire()
    except Exception as e:
        c.fail('blocked-by-the-dead', repr(e), at=at, start=start)
    with open(path) as f:
        c.eq(f.read().strip(), str(os.getpid()), 'contents')
    lock.release()
    c.expect(not os.path.exists(path), 'release-removes')
    c.expect(cells[3] or cells[0] == 2, 'victim')


@CHECK.scenario(quick=60, thorough=3000)
def histories(c):
    rng = c.rng
    d = c.tmpdir()
    path = os.path.join(d, 'sub.pid')
    held = None
    locks = [PIDFileLock('sub.pid', d), PIDFileLock('sub.pid', base_dir=d), PIDFileLock(path)]
    alive = None
    for _ in range(rng.randrange(2, 10)):
        i = rng.randrange(3)
        lk = locks[i]
        op = rng.randrange(6)
        c.rec(op, i)
        if op <= 1:
            if held is not None:
                try:
                    lk.acquire()
                except ResourceLocked as e:
                    c.eq(e.pid, os.getpid(), 'holder-pid')
                    c.expect(e.is_alive is True, 'holder-alive')
                else:
                    c.fail('held-by-two')
            else:
                lk.acquire()
                held = i
        elif op == 2:
            if held == i:
                lk.release()
                held = None
            else:
                c.raises(RuntimeError, lk.release, 'release-unheld')
        elif op == 3 and held is None:
            data = rng.choice(['', 'xyz', '4194305', '4194306\n', '  4194305 \n', '-5', '99999999999999', '\0\0'])
            with open(path, 'w') as f:
                f.write(data)
            lk.acquire()
            held = i
        elif op == 4 and held is None:
            holder = os.getppid()
            with open(path, 'w') as f:
                f.write('%d\n' % holder)
            try:
                lk.acquire()
            except ResourceLocked as e:
                c.eq(e.pid, holder, 'holder-pid')
            else:
                c.fail('held-by-two')
            c.raises(RuntimeError, lk.release, 'release-unheld')
            with open(path) as f:
                c.eq(f.read().strip(), str(holder), 'holder-unchanged')
            os.unlink(path)
            # a holder of any number a process can have
            holder = rng.choice([2, 99999, 1234567, 4194303, 10 ** 9])
            with open(path, 'w') as f:
                f.write(rng.choice(['%d\n', '%d', ' %d \n']) % holder)
            real = PL.psutil.process_iter
            fake = mock.Mock(pid=holder)
            fake.info = {'pid': holder}
            with mock.patch.object(PL.psutil, 'process_iter', lambda *a, **k: [fake] + list(real(*a, **k))), \
                    mock.patch.object(PL.psutil, 'pids', lambda: [holder, os.getpid()]), \
                    mock.patch.object(PL.psutil, 'pid_exists', lambda p: p in (holder, os.getpid())), \
                    mock.patch.object(PL.psutil, 'Process', lambda p=None: fake):
                try:
                    lk.acquire()
                except ResourceLocked as e:
                    c.eq(e.pid, holder, 'holder-pid')
                    c.expect(e.is_alive is True, 'holder-alive')
                else:
                    c.fail('held-by-two', holder=holder)
            os.unlink(path)
        elif op == 5 and held is None:
            fail = rng.random() < 0.5
            try:
                with lk:
                    with open(path) as f:
                        c.eq(f.read().strip(), str(os.getpid()), 'contents')
                    if fail:
                        raise Boom()
                c.expect(not fail, 'swallowed')
            except Boom:
                c.expect(fail, 'raised')
        if held is None:
            c.expect(not os.path.exists(path), 'leftover', op=op)
        else:
            with open(path) as f:
                c.eq(f.read().strip(), str(os.getpid()), 'contents')
    bad = PIDFileLock('a.pid', os.path.join(d, 'none'))
    c.raises(OSError, bad.acquire, 'no-directory')
    c.raises(RuntimeError, bad.release, 'release-unheld')
    if held is not None:
        locks[held].release()
    c.eq(os.listdir(d), [], 'leftovers')


@CHECK.scenario(quick=60, thorough=3000)
def faults(c):
    """a call to the system fails in the middle of acquiring or releasing"""
    rng = c.rng
    d = c.tmpdir()
    path = os.path.join(d, 'x.pid')
    lk, other = PIDFileLock('x.pid', d), PIDFileLock('x.pid', d)
    start = rng.choice(['none', 'none', 'stale', 'empty', 'garbage'])
    if start != 'none':
        with open(path, 'w') as f:
            f.write({'stale': '4194305\n', 'empty': '', 'garbage': 'hello'}[start])
    fds = len(os.listdir('/proc/self/fd'))
    for _ in range(rng.randrange(1, 5)):
        what, when = rng.choice([('open', 'acquire'), ('read', 'acquire'), ('ftruncate', 'acquire'), ('write', 'acquire'), ('stat', 'acquire'),
                                 ('unlink', 'release'), ('unlink', 'exit')])
        fired = []
        real = getattr(os, what)

        def failing(*a, **kw):
            if not fired:
                fired.append(1)
                raise OSError(5, 'planted')
            return real(*a, **kw)
        c.rec(start, what, when)
        if when == 'acquire':
            with mock.patch.object(PL.os, what, failing):
                got = c.attempt(lk.acquire)
            if not fired:
                pass
            elif got[0] == 'exc':
                c.expect(isinstance(got[1], OSError) and got[1].errno == 5, 'failure-told', got_=repr(got))
                c.raises(RuntimeError, lk.release, 'failed-acquire-is-not-held', what=what)
                c.eq(c.attempt(other.acquire)[0], 'ok', 'not-stuck-after-failure', what=what)
                other.release()
            if got[0] == 'ok':
                lk.release()
        else:
            got = None
            if when == 'release':
                lk.acquire()
                with mock.patch.object(PL.os, what, failing):
                    got = c.attempt(lk.release)
            else:
                with mock.patch.object(PL.os, what, failing):
                    got = c.attempt(lambda: lk.__enter__() and None)
                    got = c.attempt(lambda: lk.__exit__(None, None, None))
            if fired:
                c.expect(got[0] == 'exc' and isinstance(got[1], OSError), 'failure-told', got_=repr(got))
                with open(path) as f:
                    c.eq(f.read().strip(), str(os.getpid()), 'held-until-released')
                c.raises(ResourceLocked, other.acquire, 'held-until-released')
                c.eq(c.attempt(lk.release), ('ok', None), 'release-again')
        c.expect(not os.path.exists(path), 'release-removes', what=what)
        c.count('planted failures', len(fired))
    c.eq(len(os.listdir('/proc/self/fd')), fds, 'descriptors')
