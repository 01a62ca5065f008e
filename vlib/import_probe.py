"""Run in a fresh interpreter: imports modules in the order given on stdin, prints a single line of JSON on what came of it"""
import importlib
import importlib.abc
import json
import os
import random
import signal
import socket
import sys
import threading


class Blocker(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.names:
            raise ImportError('%s is not installed' % name)
        return None


def state():
    import decimal
    import gc
    import logging
    import tempfile
    return {
        'threads': sorted(t.name for t in threading.enumerate()),
        'cwd': os.getcwd(),
        'environment': dict(os.environ),
        'umask': (lambda m: (os.umask(m), m)[1])(os.umask(0o77)),
        'signals': {int(s): repr(signal.getsignal(s)) for s in signal.valid_signals()},
        'random': hash(random.getstate()),
        'recursion': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'socket timeout': socket.getdefaulttimeout(),
        'path': list(sys.path),
        'root handlers': repr(logging.getLogger().handlers),
        'root level': logging.getLogger().level,
        'gc': (gc.isenabled(), gc.get_threshold()),
        'precision': decimal.getcontext().prec,
        'tracing': (repr(sys.gettrace()), repr(sys.getprofile())),
        'stdout': id(sys.stdout), 'stderr': id(sys.stderr), 'stdin': id(sys.stdin),
        'open': id(open), 'print': id(print),
        'thread class': id(threading.Thread), 'thread hook': id(threading.excepthook),
    }


def main():
    sys.path.insert(0, sys.argv[1])
    job = json.load(sys.stdin)
    if job['blocked']:
        sys.meta_path.insert(0, Blocker(job['blocked']))
    for lib in ('psutil', 'requests', 'yaml', 'ujson', 'toml', 'opentracing', 'cassandra', 'cassandra.cluster', 'pkg_resources',
                'concurrent.futures', 'multiprocessing', 'ctypes'):
        try:        # what these do to the process is not our matter
            importlib.import_module(lib)
        except ImportError:
            pass
    before = state()
    failed, missing, doubled, exports, names = {}, [], [], {}, 0
    for name in job['order']:
        try:
            m = importlib.import_module(name)
        except BaseException as e:      # noqa
            failed[name] = repr(e)[:300]
            continue
        if m is not sys.modules.get(name):
            missing.append((name, 'itself'))
        found = {}
        listed = getattr(m, '__all__', None)
        if listed is not None:
            if len(set(listed)) != len(listed):
                doubled.append((name, sorted(n for n in set(listed) if list(listed).count(n) > 1)))
            for n in listed:
                names += 1
                try:
                    o = getattr(m, n)
                except AttributeError:
                    missing.append((name, n))
                    continue
                found[n] = [type(o).__name__, getattr(o, '__module__', None) if isinstance(getattr(o, '__module__', None), str) else None,
                            getattr(o, '__qualname__', None) if isinstance(getattr(o, '__qualname__', None), str) else None]
            try:
                exec('from %s import *' % name, {})
            except AttributeError as e:
                missing.append((name, str(e)))
        exports[name] = found
    after = state()
    changed = sorted(k for k in before if before[k] != after[k])
    sys.stdout.write(json.dumps({'failed': failed, 'missing': missing, 'doubled': doubled, 'exports': exports, 'names': names, 'changed': changed}) + '\n')


main()
