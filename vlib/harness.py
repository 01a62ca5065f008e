"""
Common machinery of the checks: seeded cases, monitors' verdicts, parallel workers, evidence, replays.

A check registers scenarios.  A scenario is a function of a Case; it drives the real code from /repo and lets
oracles (Case.expect & co) judge what was observed.  Every case is derived from (VERIF_SEED, scenario, index),
so that a violation can be replayed.
"""
import hashlib
import itertools
import json
import logging
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time as _time_mod
import traceback
import warnings

from . import vsched

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
_now = vsched._real_monotonic

CASE_LIMIT = 100        # seconds of wall clock for a single case that normally takes milliseconds


class Violated(Exception):
    """An oracle refuted the property"""


class CaseTimeout(BaseException):
    pass


# how many times more cases the quick checks of what takes little time go through
QUICK_BOOST = {'C08': 2, 'C12': 2, 'C13': 3, 'C14': 2, 'C15': 3, 'C16': 6, 'C17': 5, 'C18': 5, 'C19': 15, 'C20': 3, 'C23': 10, 'C24': 10,
               'C25': 5, 'C26': 10, 'C27': 12, 'C28': 4, 'C29': 4, 'C30': 8, 'C32': 5, 'C33': 6, 'C35': 12}


def _short(x, n=400):
    try:
        r = repr(x)
    except BaseException as e:  # noqa
        r = '<unrepresentable %s: %s>' % (type(x).__name__, type(e).__name__)
    return r if len(r) <= n else r[:n] + '...'


class Case:
    def __init__(self, prop, scenario, index, seed, tier):
        self.prop = prop
        self.scenario = scenario
        self.index = index
        self.seed = seed
        self.tier = tier
        self.rng = random.Random('%s|%s|%s|%s' % (prop, scenario, seed, index))
        self.violations = []        # (key, message)
        self.log = []
        self.events = 0
        self.sig = hashlib.blake2b(digest_size=8)
        self.sessions = 0
        self.switches = 0
        self.steps = 0
        self.interleavings = set()
        self.counters = {}
        self.tmp = None
        self.thread_errors = []

    # -- recording ------------------------------------------------------------------------------
    def rec(self, *items):
        """record what was done/observed - makes up the identity of this case and the replay's trace"""
        r = _short(items, 300)
        self.sig.update(r.encode('utf8', 'replace'))
        if len(self.log) < 400:
            self.log.append(r)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    # -- oracles --------------------------------------------------------------------------------
    def fail(self, key, message='', **details):
        msg = '%s: %s %s' % (key, message, ' '.join('%s=%s' % (k, _short(v)) for k, v in details.items()))
        self.violations.append((key, msg))
        raise Violated(msg)

    def expect(self, cond, key, message="", **details):
        self.events += 1
        if not cond:
            self.fail(key, message, **details)
        return True

    def eq(self, got, want, key, message='', **details):
        self.events += 1
        try:
            same = bool(got == want)
        except Exception as e:  # noqa
            self.fail(key, 'comparison failed with %r' % (e,), got=got, want=want, **details)
        if not same:
            self.fail(key, message, got=got, want=want, **details)

    def same(self, got, want, key, message='', **details):
        """equal and of the same type, recursively for builtin containers"""
        self.events += 1
        if not deep_same(got, want):
            self.fail(key, message, got=got, want=want, **details)

    def raises(self, exc, fn, key, message='', **details):
        self.events += 1
        try:
            v = fn()
        except exc as e:
            return e
        except Violated:
            raise
        except Exception as e:  # noqa
            self.fail(key, 'raised %r instead of %s. %s' % (e, exc, message), **details)
        self.fail(key, 'returned %s instead of raising %s. %s' % (_short(v), exc, message), **details)

    def attempt(self, fn):
        """('ok', value) or ('exc', exception)"""
        try:
            return 'ok', fn()
        except Violated:
            raise
        except Exception as e:  # noqa
            return 'exc', e

    # -- environment ------------------------------------------------------------------------------
    def tmpdir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='case', dir=SCRATCH)
        return self.tmp

    def virtual_time(self, **kw):
        return vsched.VirtualTime(**kw)

    def sched(self, body, gran='line', max_steps=60000, allow_stuck=False, strategy=None, jumps=0.0, tick=0.0):
        """
        Run body(session) under the controlled scheduler and return the outcome
        """
        rng = random.Random(self.rng.random())
        s = vsched.Session(rng, max_steps=max_steps, gran=gran, strategy=strategy, jumps=jumps, tick=tick)
        self.session = s
        out = s.run(body)
        self.sessions += 1
        self.switches += out.switches
        self.steps += out.steps
        self.interleavings.add(out.sig)
        self.sig.update(str(out.sig).encode())
        if self.violations:
            raise Violated(self.violations[0][1])
        if self.thread_errors:
            name, e, tb = self.thread_errors[0]
            self.fail('unexpected-exception', 'thread %s: %r\n%s' % (name, e, tb))
        if out.exc is not None:
            raise out.exc
        if out.wallhang:
            self.fail('hang', 'a thread never reached a scheduling point for %s seconds' % (s.WALL,))
        if out.stuck and not allow_stuck:
            self.events += 1
            if out.deadlock:
                self.fail('deadlock', 'every thread is blocked forever', blocked=out.deadlock)
            else:
                self.fail('livelock', 'no progress within step budget', steps=out.steps)
        self.events += 1
        return out

    def go(self, *fns, join=True):
        """start threads running fns (inside of a session), capturing their failures"""
        import threading
        ts = []
        for i, fn in enumerate(fns):
            def run(fn=fn, i=i):
                try:
                    fn()
                except Violated:
                    pass
                except vsched.Abort:
                    raise
                except BaseException as e:  # noqa
                    self.thread_errors.append((i, e, traceback.format_exc()))
            t = threading.Thread(target=run, daemon=True)
            ts.append(t)
        for t in ts:
            t.start()
        if join:
            for t in ts:
                t.join()
        return ts


def deep_same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(deep_same, a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not deep_same(a[k], b[k]):
                return False
        return True
    try:
        return bool(a == b)
    except Exception:  # noqa
        return a is b


class Check:
    def __init__(self, prop, rule, assumptions=(), level='exploration'):
        self.prop = prop
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.scenarios = {}

    def scenario(self, quick, thorough=None, min_events=2, sched=False):
        def outer(fn):
            self.scenarios[fn.__name__] = (fn, quick, thorough if thorough is not None else quick * 20, min_events)
            return fn
        return outer


SCRATCH = None


def load_known(prop):
    """known findings of this property: {(scenario, key): description}"""
    path = os.path.join(VERIF, 'known_findings.json')
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f)['findings']:
                if e['property'] == prop:
                    out[(e['scenario'], e['key'])] = e['what']
    return out


def run_case(check, name, index, seed, tier):
    fn = check.scenarios[name][0]
    c = Case(check.prop, name, index, seed, tier)

    def on_alarm(*a):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        fn(c)
    except Violated:
        pass
    except CaseTimeout:
        c.violations.append(('hang', 'hang: case did not finish within %s s, a healthy one takes milliseconds\n%s' % (
            CASE_LIMIT, traceback.format_exc())))
    except MemoryError:
        c.violations.append(('memory', 'memory: case exhausted memory\n' + traceback.format_exc()))
    except BaseException as e:  # noqa
        c.violations.append(('unexpected-exception', 'unexpected-exception: %r\n%s' % (e, traceback.format_exc())))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if c.tmp is not None:
            shutil.rmtree(c.tmp, ignore_errors=True)
    return c


def worker(check, tier, seed, k, n, outpath, only=None):
    global SCRATCH
    SCRATCH = os.path.dirname(outpath)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    known = load_known(check.prop)
    cov = None
    if os.environ.get('VERIF_COV'):
        from vlib import linecov as cov
    current = os.open(outpath + '.cur', os.O_CREAT | os.O_WRONLY)
    res = {'scen': {}, 'violation': None, 'known': {}, 'samples': [], 'counters': {}}
    sigs = set()
    inter = set()
    tot = dict(cases=0, events=0, nontrivial=0, sessions=0, switches=0, steps=0)
    names = list(check.scenarios)
    scale = float(os.environ.get('VERIF_SCALE', 3 * QUICK_BOOST.get(check.prop, 1) if tier == 'quick' else 1))
    for name in names:
        if only and name not in only:
            continue
        fn, quick, thorough, min_events = check.scenarios[name]
        total = quick if tier == 'quick' else thorough
        total = max(1, int(total * scale))
        st = dict(cases=0, events=0, sessions=0, switches=0, wall=0.0)
        t0 = _now()
        if cov:
            cov.scenario(name)
        for i in range(k, total, n):
            os.pwrite(current, ('%-60s%10d' % (name, i)).encode(), 0)
            c = run_case(check, name, i, seed, tier)
            st['cases'] += 1
            st['events'] += c.events
            st['sessions'] += c.sessions
            st['switches'] += c.switches
            tot['cases'] += 1
            tot['events'] += c.events
            tot['sessions'] += c.sessions
            tot['switches'] += c.switches
            tot['steps'] += c.steps
            for kk, v in c.counters.items():
                res['counters'][kk] = res['counters'].get(kk, 0) + v
            inter |= c.interleavings
            if c.events >= min_events:
                sigs.add(name[:8] + c.sig.hexdigest())
            if i == k and k == 0:
                res['samples'].append({'scenario': name, 'index': i, 'trace': c.log[:12], 'oracle_events': c.events,
                                       'schedules': c.sessions})
            if c.violations:
                key, msg = c.violations[0]
                if (name, key) in known:
                    res['known'][name + '|' + key] = known[(name, key)]
                else:
                    res['violation'] = dict(property=check.prop, scenario=name, index=i, seed=seed, tier=tier,
                                            hashseed=os.environ.get('PYTHONHASHSEED'), key=key, message=msg,
                                            trace=c.log[-80:])
                    break
        st['wall'] = round(_now() - t0, 2)
        res['scen'][name] = st
        if res['violation']:
            break
    res['tot'] = tot
    res['sigs'] = sorted(sigs)
    res['inter'] = len(inter)
    with open(outpath + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(outpath + '.tmp', outpath)
    if cov:
        cov.dump()
    sys.stdout.flush()
    os._exit(0)


def main(check, argv):
    tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    args = list(argv)
    wk = None
    replay = None
    verbose = False
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--seed':
            seed = int(args.pop(0))
        elif a == '--only':
            only = args.pop(0).split(',')
        elif a == '--worker':
            wk = (int(args.pop(0)), int(args.pop(0)), args.pop(0))
        elif a == '--replay':
            replay = args.pop(0)
        elif a == '-v':
            verbose = True
        else:
            raise SystemExit('unknown argument %s' % (a,))
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    sys.unraisablehook = lambda *a: None
    import threading
    threading.excepthook = lambda *a: None
    if wk is not None:
        return worker(check, tier, seed, wk[0], wk[1], wk[2], only)
    if replay is not None:
        return do_replay(check, replay)

    t0 = _now()
    n = int(os.environ.get('VERIF_WORKERS', '8'))
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % (check.prop,))
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['TMPDIR'] = scratch
    procs = []
    limit = 420 if tier == 'quick' else 3 * 3600
    again = set()
    try:
        def start(k):
            env['PYTHONHASHSEED'] = str(k)
            out = os.path.join(scratch, 'w%d.json' % (k,))
            cmd = [sys.executable, '-X', 'faulthandler', os.path.join(VERIF, 'vlib', 'main.py'), check.prop, tier, '--seed', str(seed),
                   '--worker', str(k), str(n), out]
            if only:
                cmd += ['--only', ','.join(only)]
            return k, out, subprocess.Popen(cmd, env=env, cwd=scratch, stdin=subprocess.DEVNULL,
                                            stdout=None if verbose else subprocess.DEVNULL,
                                            stderr=open(os.path.join(scratch, 'w%d.err' % (k,)), 'wb'))

        def gone(k, out, key, msg):
            """a worker that hung or died, which no healthy one ever does, together with the case that it was in"""
            try:
                with open(out + '.cur') as f:
                    text = f.read()
            except OSError:
                return None
            if not text.strip():
                return None     # it has not begun, so that is not a matter of the code under test
            return dict(property=check.prop, scenario=text[:60].strip(), index=int(text[60:]), seed=seed, tier=tier, hashseed=str(k), key=key,
                        message='%s: %s' % (key, msg), trace=[])

        for k in range(n):
            procs.append(start(k))
        violation = None
        results = []
        broken = []
        pending = list(procs)
        while pending:
            _time_mod_sleep(0.05)
            for item in list(pending):
                k, out, p = item
                rc = p.poll()
                if rc is None:
                    if _now() - t0 > limit:
                        p.kill()
                        p.wait()
                        violation = violation or gone(k, out, 'hang', 'worker did not finish in %s s' % (limit,))
                        if violation is None:
                            broken.append('worker %s exceeded its time' % (k,))
                        pending.remove(item)
                    continue
                pending.remove(item)
                if os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                    results.append(r)
                    if r['violation'] and violation is None:
                        violation = r['violation']
                elif k not in again:
                    again.add(k)        # once may be a matter of the machine
                    item = start(k)
                    procs.append(item)
                    pending.append(item)
                else:
                    with open(os.path.join(scratch, 'w%d.err' % (k,)), errors='replace') as f:
                        text = f.read()[-3000:]
                    violation = violation or gone(k, out, 'death', 'process of the worker died twice, code %s: %s' % (rc, text))
                    if violation is None:
                        broken.append('worker %s died rc=%s: %s' % (k, rc, text))
            if violation is not None:
                for k, out, p in pending:
                    p.kill()
                for k, out, p in pending:
                    p.wait()
                pending = []
    finally:
        for k, out, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)
    return conclude(check, tier, seed, results, violation, broken, _now() - t0, only, verbose)


def _time_mod_sleep(x):
    vsched._real_sleep(x)


def conclude(check, tier, seed, results, violation, broken, wall, only, verbose):
    tot = {}
    scen = {}
    counters = {}
    known = {}
    samples = []
    sigs = set()
    inter = 0
    for r in results:
        for k, v in r['tot'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['scen'].items():
            d = scen.setdefault(k, {})
            for kk, vv in v.items():
                d[kk] = max(d.get(kk, 0), vv) if kk == 'wall' else d.get(kk, 0) + vv
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        known.update(r['known'])
        samples += r['samples']
        sigs.update(r['sigs'])
        inter += r['inter']
    cov = {
        'evaluations': tot.get('cases', 0),
        'distinct_nontrivial': len(sigs),
        'rule': check.rule,
        'samples': samples[:12] or ['no case was completed'],
        'oracle_evaluations': tot.get('events', 0),
        'per_scenario': scen,
    }
    if tot.get('sessions'):
        cov['controlled_schedules'] = tot['sessions']
        cov['distinct_interleavings'] = inter
        cov['thread_switches'] = tot['switches']
        cov['scheduling_points'] = tot['steps']
    if counters:
        cov['observed'] = counters
    if broken:
        cov['broken_workers'] = broken
    ev = dict(property=check.prop, tier=tier, seed=seed, level=check.level, coverage=cov,
              assumptions=check.assumptions, wall_s=round(wall, 2), violations=1 if violation else 0)
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, '%s.json' % (check.prop,)), 'w') as f:
        json.dump(ev, f, indent=1)
    if verbose:
        for k, v in scen.items():
            print('  %-34s %s' % (k, v))
        print('  counters', counters)
    for k, v in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (check.prop, v, k))
    if violation is not None:
        rp = os.path.join(evdir, 'replay-%s.json' % (check.prop,))
        with open(rp, 'w') as f:
            json.dump(violation, f, indent=1)
        print('%s scenario=%s case=%s' % (check.prop, violation['scenario'], violation['index']))
        print(violation['message'][:3000])
        for t in violation['trace'][-15:]:
            print('    ', t)
        print('VIOLATION property=%s replay=%s' % (check.prop, rp))
        return 1
    if broken:
        print('INCONCLUSIVE %s: %s' % (check.prop, '\n'.join(broken)))
        return 3
    want = only or list(check.scenarios)
    silent = [s for s in want if scen.get(s, {}).get('events', 0) == 0]
    if silent:
        print('INCONCLUSIVE %s: monitors never reached in %s' % (check.prop, silent))
        return 3
    print('HELD %s tier=%s seed=%s: %d cases, %d oracle evaluations, %d distinct non-trivial, %d schedules, %.1f s' % (
        check.prop, tier, seed, tot.get('cases', 0), tot.get('events', 0), len(sigs), tot.get('sessions', 0), wall))
    return 0


def do_replay(check, path):
    global SCRATCH
    with open(path) as f:
        v = json.load(f)
    if os.environ.get('PYTHONHASHSEED') != v['hashseed']:
        os.environ['PYTHONHASHSEED'] = v['hashseed']
        os.execv(sys.executable, [sys.executable] + sys.argv)
    SCRATCH = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        os.chdir(SCRATCH)
        c = run_case(check, v['scenario'], v['index'], v['seed'], v['tier'])
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    for x in c.log:
        print('   ', x)
    if c.violations:
        print(c.violations[0][1])
        print('VIOLATION property=%s replay=%s' % (check.prop, path))
        return 1
    print('replay: did not reproduce')
    return 0
