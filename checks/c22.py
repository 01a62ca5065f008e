"""C22: process, signal and daemon helpers: all of the output, the right exit, nothing else disturbed"""
import os
import select
import signal
import stat
import subprocess
import sys
import time
import warnings
from unittest import mock

from vlib.harness import Check
from checks.c21 import Cells, child, reap

import satella.os as O
from satella.exceptions import ProcessFailed
from satella.processes import call_and_return_stdout, read_nowait

warnings.simplefilter('ignore')

CHECK = Check('C22', 'A case is one process called with some amount of output, exit code and timeout, one process that waits for '
                     'signals, daemonizes or kills itself, or one search path; distinct by parameters and results; non-trivial '
                     'if at least two oracle evaluations took place')

PY = ('import sys, time\n'
      'n = int(sys.argv[1]); piece = sys.argv[2].encode(); out = sys.stdout.buffer\n'
      'data = (piece * (n // len(piece) + 1))\n'
      'step = int(sys.argv[3])\n'
      'for i in range(0, len(data), step):\n'
      '    out.write(data[i:i + step])\n'
      '    out.flush()\n'
      'sys.exit(int(sys.argv[4]))\n')


@CHECK.scenario(quick=24, thorough=1200)
def calls(c):
    rng = c.rng
    n = rng.choice([0, 1, 100, 2047, 2048, 2049, 65535, 65536, 70000, 200000])
    piece = rng.choice(['x', 'abc\n', 'zażółć', '\U0001f600z'])
    step = rng.choice([10 ** 9, 4096, 1000, 65536])
    code = rng.choice([0, 0, 1, 7])
    want = piece.encode() * (n // len(piece.encode()) + 1)
    args = [sys.executable, '-I', '-S', '-c', PY, str(n), piece, str(step), str(code)]
    enc = rng.choice([None, 'utf-8'])
    timeout = rng.choice([None, 60, '1m', 60.0])
    expected = rng.choice([None, None, 0, 7])
    c.rec(n, piece, step, code, enc, timeout, expected)
    kw = {}
    if enc:
        kw['encoding'] = enc
    if timeout is not None:
        kw['timeout'] = timeout
    if expected is not None:
        kw['expected_return_code'] = expected
    res = want.decode('utf-8') if enc else want
    if expected is not None and expected != code:
        try:
            call_and_return_stdout(args, **kw)
        except ProcessFailed as e:
            c.eq(e.rc, code, 'return-code')
            c.expect(e.stdout_so_far == res, 'output-of-the-failed')
        else:
            c.fail('wrong-return-code-accepted', code=code, expected=expected)
    else:
        got = call_and_return_stdout(args, **kw)
        c.expect(got == res, 'output', length=len(got), wanted=len(res))
    c.events += 1


@CHECK.scenario(quick=4, thorough=60)
def timeouts(c):
    rng = c.rng
    d = c.tmpdir()
    p = os.path.join(d, 'pid')
    t = rng.choice([0.1, 0.3, '0.2s', 0])
    c.rec(t, rng.random())
    before = time.monotonic()
    c.raises(TimeoutError, lambda: call_and_return_stdout(
        ['/bin/sh', '-c', '%secho $$ > %s; echo out; exec sleep 60' % (
            "trap '' TERM INT HUP; " if rng.random() < 0.5 else '', p)], timeout=t), 'timeout')
    took = time.monotonic() - before
    c.expect((0.09 if t else 0) < took < 20, 'timeout-duration', took=took)
    for _ in range(100):
        if os.path.exists(p):
            with open(p) as f:
                pid = f.read().strip()
            if pid:
                c.expect(not os.path.exists('/proc/' + pid), 'process-left-running', pid=pid)
                break
        break
    # the reader of somebody else's process
    lst = []
    n = rng.choice([0, 5, 100000])
    proc = subprocess.Popen([sys.executable, '-I', '-S', '-c', PY, str(n), 'q', '777', '0'], stdout=subprocess.PIPE)
    fut = read_nowait(proc, lst)
    c.eq(proc.wait(timeout=60), 0, 'reader-process')
    fut.result(timeout=60)
    c.eq(len(b''.join(lst)), n + 1, 'reader-output')
    proc.stdout.close()


@CHECK.scenario(quick=12, thorough=300)
def signals(c):
    rng = c.rng
    extra = rng.sample([signal.SIGUSR1, signal.SIGHUP], rng.randrange(3))
    sent = rng.choice([signal.SIGTERM, signal.SIGINT] + extra)
    rounds = rng.randrange(1, 3)
    noise = rng.random() < 0.5
    c.rec(extra, sent, rounds, noise)
    cells = Cells()

    def body():
        class Custom(BaseException):
            pass

        def on_usr2(a, b):
            cells[5] += 1
        hs = {}
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGUSR1, signal.SIGHUP):
            def h(a, b, s=s):
                cells[6] += 1
            signal.signal(s, h)
            hs[s] = h
        signal.signal(signal.SIGUSR2, on_usr2)
        for r in range(rounds):
            cells[0] = r + 1
            if extra or rng.random() < 0.5:
                O.hang_until_sig(extra, sleep_interval=0.01)
            else:
                O.hang_until_sig(sleep_interval=0.01)
            for s, h in hs.items():
                if signal.getsignal(s) is not h:
                    cells[7] = int(s)
            cells[1] = r + 1
    p = child(body)
    dead = None

    def wait(cond):
        end = time.monotonic() + 30
        while not cond() and time.monotonic() < end:
            time.sleep(0.001)
        return cond()
    try:
        for r in range(rounds):
            if not wait(lambda: cells[0] == r + 1):
                c.fail('never-hung')
            time.sleep(0.03)
            if noise:
                os.kill(p, signal.SIGUSR2)
                wait(lambda: cells[5] > r)
                time.sleep(0.03)
            c.eq(cells[1], r, 'returned-without-a-signal', noise=noise)
            missed = cells[6]
            os.kill(p, sent)
            wait(lambda: cells[1] == r + 1 or cells[6] > missed)
            while cells[1] != r + 1 and cells[6] > missed:      # it came before it was waited for
                missed = cells[6]
                time.sleep(0.2)
                os.kill(p, sent)
                wait(lambda: cells[1] == r + 1 or cells[6] > missed)
            c.expect(wait(lambda: cells[1] == r + 1), 'not-released', sent=int(sent), extra=[int(x) for x in extra])
        st = reap([p], time.monotonic() + 30)
        dead = True
        c.eq(st, {p: 0}, 'exit')
        c.eq(cells[7], 0, 'handlers-restored')
    finally:
        if not dead:
            os.kill(p, 9)
            os.waitpid(p, 0)


@CHECK.scenario(quick=40, thorough=1500)
def signal_points(c):
    """a signal sent at a chosen line of the waiting: either the previous handler gets it, or the waiting ends because of it"""
    rng = c.rng
    extra = rng.sample([signal.SIGUSR1, signal.SIGHUP], rng.randrange(3))
    sent = rng.choice([signal.SIGTERM, signal.SIGINT] + extra)
    where = rng.randrange(1, 24)
    before = rng.random() < 0.4     # it has been waited successfully once already
    c.rec(extra, sent, where, before)
    cells = Cells()

    def body():
        hs = {}
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGUSR1, signal.SIGHUP):
            def h(a, b):
                cells[6] += 1
            signal.signal(s, h)
            hs[s] = h
        source = sys.modules[O.hang_until_sig.__module__].__file__
        fire = [1 if before else where]

        def line(frame, event, arg):
            if event == 'line' and fire[0] > 0:
                fire[0] -= 1
                if not fire[0]:
                    cells[5] = frame.f_lineno
                    os.kill(os.getpid(), sent)
            return line

        def call(frame, event, arg):
            if frame.f_code.co_filename == source:
                return line(frame, event, arg)
        if before:
            fire[0] = 14        # within the loop
            sys.settrace(call)
            O.hang_until_sig(extra, sleep_interval=0.005)
            fire[0] = where
            cells[1] = 1
        sys.settrace(call)
        O.hang_until_sig(extra, sleep_interval=0.005)
        sys.settrace(None)
        for s, h in hs.items():
            if signal.getsignal(s) is not h:
                cells[7] = int(s)
        cells[1] = 2
    p = child(body)
    dead = None
    try:
        end = time.monotonic() + 30
        went_by = 0
        while cells[1] != 2 and time.monotonic() < end:
            time.sleep(0.002)
            if cells[6] > went_by:              # that one was somebody else's, one more is due
                went_by = cells[6]
                time.sleep(0.05)
                if cells[1] != 2:
                    c.count('gone by')
                    os.kill(p, sent)
        c.eq(cells[1], 2, 'signal-forgotten', 'the signal was taken, but the waiting goes on', line=cells[5], sent=int(sent))
        st = reap([p], time.monotonic() + 30)
        dead = True
        c.eq(st, {p: 0}, 'exit')
        c.eq(cells[7], 0, 'handlers-restored')
        c.rec(cells[5])
    finally:
        if not dead:
            os.kill(p, 9)
            os.waitpid(p, 0)


@CHECK.scenario(quick=16, thorough=300)
def daemons(c):
    """the daemon runs in a process forked for it; what would change accounts is replaced by stand-ins that record"""
    rng = c.rng
    r, w = os.pipe()
    uid = rng.choice([None, 1234, 'someuser'])
    gid = rng.choice([None, 4321, 'somegroup'])
    redirect = rng.random() < 0.7
    c.rec(uid, gid, redirect)
    old_sid, old_pid = os.getsid(0), os.getpid()

    def body():
        log = []

        def seteuid(x):
            log.append(('uid', x))

        def setegid(x):
            if any(k == 'uid' for k, _ in log):
                raise PermissionError('no longer privileged')
            log.append(('gid', x))
        first = os.getpid()
        os.umask(0o22)
        pw = mock.Mock(pw_uid=77, pw_gid=1)
        gr = mock.Mock(gr_gid=88, spec=['gr_gid', 'gr_name'])
        try:
            with mock.patch('os.seteuid', seteuid), mock.patch('os.setegid', setegid), \
                    mock.patch('pwd.getpwnam', lambda n: {'someuser': pw}[n]), \
                    mock.patch('grp.getgrnam', lambda n: {'somegroup': gr}[n]):
                kw = {}
                if uid is not None:
                    kw['uid'] = uid
                if gid is not None:
                    kw['gid'] = gid
                O.daemonize(exit_via=lambda: os._exit(0), redirect_std_to_devnull=redirect, **kw)
            if redirect:
                sys.stdout.write(b'x')
                sys.stderr.write(b'x')
                nul = sys.stdin.read() == b'' and all(os.path.realpath(f.name) == '/dev/null'
                                                      for f in (sys.stdin, sys.stdout, sys.stderr))
            else:
                nul = all(f.closed for f in (sys.stdin, sys.stdout, sys.stderr))
            end = time.monotonic() + 20
            while os.getppid() in (first, old_pid) and time.monotonic() < end:
                time.sleep(0.001)
            out = repr(dict(pid=os.getpid() not in (first, old_pid), sid=os.getsid(0) not in (old_sid, os.getpid()),
                            cwd=os.getcwd(), umask=os.umask(0), log=log, nul=nul,
                            orphan=os.getppid() not in (first, old_pid)))
        except BaseException as e:
            out = repr({'failed': repr(e)})
        os.write(w, out.encode())
        os._exit(0)
    p = child(body)
    os.close(w)
    st = reap([p], time.monotonic() + 60)
    data = b''
    end = time.monotonic() + 60
    while time.monotonic() < end:
        if select.select([r], [], [], 1)[0]:
            x = os.read(r, 65536)
            if not x:
                break
            data += x
    os.close(r)
    c.eq(st, {p: 0}, 'parent-exits')
    want_log = []
    if gid is not None:
        want_log.append(('gid', gid if gid != 'somegroup' else 88))
    if uid is not None:
        want_log.append(('uid', uid if uid != 'someuser' else 77))
    c.eq(eval(data.decode()), dict(pid=True, sid=True, cwd='/', umask=0, log=want_log, nul=True, orphan=True), 'daemon')
    c.events += 1


@CHECK.scenario(quick=16, thorough=300)
def deaths(c):
    """suicide() kills the process, its group only if it leads it; all happens in a group made for it"""
    rng = c.rng
    whole = rng.random() < 0.6
    leads = rng.random() < 0.5
    c.rec(whole, leads, rng.random())
    cells = Cells()

    def die():
        if whole and rng.random() < 0.5:
            O.suicide()
        else:
            O.suicide(whole)
        cells[4] = 1

    def leader():
        os.setsid()
        q = os.fork()
        if not q:
            cells[1] = os.getpid()
            if not leads:
                die()
            signal.alarm(30)
            while True:
                time.sleep(1)
        while not cells[1]:
            time.sleep(0.001)
        if leads:
            die()
        os.waitpid(q, 0)
        cells[2] = 1
        os._exit(0)
    p = child(leader)
    st = reap([p], time.monotonic() + 60)
    q = cells[1]

    def gone():
        try:
            with open('/proc/%d/stat' % q) as f:
                return f.read().rsplit(')', 1)[1].split()[0] in 'ZX'
        except OSError:
            return True
    end = time.monotonic() + (10 if not leads or whole else 0.05)
    while not gone() and time.monotonic() < end:
        time.sleep(0.002)
    is_gone = gone()
    if not is_gone:
        try:
            os.kill(q, 9)
        except OSError:
            pass
    code = os.waitstatus_to_exitcode(st.get(p, 0))
    if leads:
        c.eq(code, -9, 'dies')
        c.eq(is_gone, whole, 'group', whole=whole)
    else:
        c.eq(code, 0, 'others-live')
        c.eq(cells[2], 1, 'others-live')
        c.expect(is_gone, 'dies')
    c.eq(cells[4], 0, 'lives-on')
    for e in (0, 1, 1000):
        with mock.patch('os.geteuid', lambda: e), mock.patch('os.getuid', lambda: 5 - e):
            c.eq(O.is_running_as_root(), e == 0, 'root')


@CHECK.scenario(quick=300, thorough=10000)
def search(c):
    rng = c.rng
    d = c.tmpdir()
    dirs = []
    want = []
    name = rng.choice(['prog', 'p.x'])
    for i in range(rng.randrange(0, 5)):
        p = os.path.join(d, 'd%d' % i)
        dirs.append(p)
        k = rng.randrange(7)
        c.rec(k)
        f = os.path.join(p, name)
        if k == 0:
            continue        # no such directory
        if k == 1:
            with open(p, 'w'):      # not a directory
                pass
            continue
        os.mkdir(p)
        with open(os.path.join(p, name + '2'), 'w'):
            pass
        os.chmod(os.path.join(p, name + '2'), 0o755)
        if k == 2:
            continue
        if k == 3:
            os.mkdir(f)
        elif k == 4:
            os.symlink(os.path.join(d, 'nowhere'), f)
        else:
            mode = rng.choice([0o755, 0o700, 0o644, 0o100, 0o600, 0o010, 0o001, 0o654, 0o645, 0o666])
            if k == 6:
                t = os.path.join(p, 'target')
                with open(t, 'w'):
                    pass
                os.chmod(t, mode)
                os.symlink(t, f)
            else:
                with open(f, 'w'):
                    pass
                os.chmod(f, mode)
            if mode & 0o111:
                want.append(f)
            c.rec(mode)
    with mock.patch.dict(os.environ, {'PATH': ':'.join(dirs)}):
        c.eq(list(O.whereis(name)), want, 'whereis')
        c.eq(list(O.whereis('pro')), [], 'whereis')
    with mock.patch.dict(os.environ):
        os.environ.pop('PATH')
        c.eq(list(O.whereis('zz-none')), [], 'whereis')
    for p in dirs:
        c.eq(sorted(O.safe_listdir(p)), sorted(os.listdir(p)) if os.path.isdir(p) else [], 'safe-listdir')


@CHECK.scenario(quick=16, thorough=500)
def call_options(c):
    """Everything else is passed on to Popen"""
    rng = c.rng
    d = os.path.realpath(c.tmpdir())
    how = rng.randrange(5)
    word = rng.choice(['some', 'zażółć', 'two words'])
    c.rec(how, word)
    if how == 0:
        out = call_and_return_stdout("printf '%s' '" + word + "'", shell=True)
        c.eq(out, word.encode('utf-8'), 'shell', 'output of a shell command')
    elif how == 1:
        out = call_and_return_stdout(['pwd'], encoding=rng.choice(['utf-8', 'latin-1', 'ascii']), cwd=d)
        c.eq(out.strip(), d, 'cwd', 'working directory')
    elif how == 2:
        out = call_and_return_stdout(['/bin/sh', '-c', 'printf "%s" "$VARIABLE"'], env=dict(os.environ, VARIABLE=word), encoding='utf-8',
                                     timeout=60)
        c.eq(out, word, 'env', 'environment')
    elif how == 3:
        enc = rng.choice(['utf-16-le', 'latin-1', 'utf-8'])
        text = 'zółw'.replace('ł', 'é') * rng.choice([1, 700, 3000])
        p = os.path.join(d, 'f')
        with open(p, 'wb') as f:
            f.write(text.encode(enc))
        c.expect(call_and_return_stdout(['cat', p], encoding=enc) == text, 'encoding', 'text decoded differently')
        with open(p, 'rb') as f:
            c.expect(call_and_return_stdout(['cat'], 60, enc, 0, stdin=f) == text, 'stdin', 'text decoded differently')
    else:
        out = call_and_return_stdout(['/bin/sh', '-c', 'echo a; echo b >&2'], stderr=subprocess.STDOUT)
        c.eq(out, b'a\nb\n', 'stderr', 'output with errors')
