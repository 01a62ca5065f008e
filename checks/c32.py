"""C32: pooled connections, transactions, lazily loaded objects and imported packages are never mixed up, leaked or left half-done"""
import gc
import importlib
import itertools
import logging
import os
import sys
import threading
import time
import warnings
from functools import partial

from vlib.harness import Check
from checks.common import Boom, BoomBase, pause

from satella.coding.resources import CPManager
from satella.dao import Loadable, must_be_loaded
from satella.db import transaction
from satella.imports import import_class, import_from

CHECK = Check('C32', 'A case is a random history of borrowing connections in a few threads, of transactions with faults, of lazy loads, or a '
                     'random package tree; distinct by its parameters and outcomes; non-trivial if at least two oracle evaluations took place')


class Conn:
    __slots__ = ('no', 'made_by', '__weakref__')

    def __init__(self, no, made_by=None):
        self.no, self.made_by = no, made_by


class Pool:
    """Monitor of a pool's connections, by number of a connection, as identities are reused"""

    def __init__(self, c, max_number, max_cycle, rng, fail_create=0.0):
        self.c, self.rng, self.fail_create = c, rng, fail_create
        self.numbers = itertools.count()
        self.owner, self.taken, self.failed, self.dead, self.idle_since = {}, {}, set(), set(), {}
        self.max_cycle = max_cycle
        pool = self

        class M(CPManager):
            def create_connection(self):
                pause(2)
                if rng.random() < pool.fail_create:
                    raise Boom('cannot connect')
                conn = Conn(next(pool.numbers), pool)
                pool.owner[conn.no] = None
                pool.taken[conn.no] = 0
                return conn

            def teardown_connection(self, connection):
                no = connection.no
                c.expect(no not in pool.dead, 'torn-down-twice', 'connection torn down again', no=no)
                c.expect(pool.owner[no] is None, 'torn-down-in-use', 'connection torn down while in use', no=no)
                pool.dead.add(no)
                pause(2)

        self.m = M(max_number, max_cycle)

    def acquire(self, who):
        conn = self.m.acquire_connection()
        no = conn.no
        c = self.c
        c.expect(self.owner[no] is None, 'shared', 'connection given to two at once', no=no, owner=self.owner[no], who=who)
        self.owner[no] = who
        c.expect(no not in self.dead, 'dead-connection', 'connection given after it was torn down', no=no)
        c.expect(no not in self.failed, 'failed-connection', 'connection given after it was reported as failed', no=no)
        self.taken[no] += 1
        c.expect(self.taken[no] <= self.max_cycle, 'cycles', 'connection taken more times than allowed', times=self.taken[no], limit=self.max_cycle)
        return conn

    def release(self, conn, failed=False):
        if failed:
            self.failed.add(conn.no)
            self.m.fail_connection(conn)
        pause(1)
        self.owner[conn.no] = None
        self.m.release_connection(conn)

    def alive(self):
        return set(self.owner) - self.dead


@CHECK.scenario(quick=500, thorough=15000)
def pooled(c):
    """Threads borrowing, failing and returning connections, with invalidation in between, then closing"""
    rng = c.rng
    limit, cycle = rng.randrange(1, 4), rng.randrange(1, 5)
    nthreads = rng.randrange(2, 4)
    fail_create = rng.choice([0, 0, 0.2])
    invalidating = rng.random() < 0.5
    plans = [[(rng.randrange(1, 3), rng.random() < 0.25) for _ in range(rng.randrange(1, 4))] for _ in range(nthreads)]
    c.rec(limit, cycle, plans, fail_create, invalidating)
    gran = 'opcode' if rng.random() < 0.3 else 'line'

    def body(s):
        pool = Pool(c, limit, cycle, rng, fail_create)
        errors = []

        def user(i):
            def fn():
                for number, fails in plans[i]:
                    mine = []
                    for _ in range(number):
                        try:
                            mine.append(pool.acquire(i))
                        except Boom:
                            errors.append(i)
                    pause(3)
                    for conn in mine:
                        pool.release(conn, fails)
                    del mine
                    conn = None
            return fn

        def invalidator():
            for _ in range(2):
                pause(5)
                pool.m.invalidate()

        fns = [user(i) for i in range(nthreads)]
        if invalidating:
            fns.append(invalidator)
        c.go(*fns)
        c.expect(fail_create or not errors, 'acquire-failed', 'acquisition failed')
        idle = pool.alive()
        c.expect(len(idle) <= limit, 'idle-limit', 'more connections kept than the limit', idle=len(idle), limit=limit)
        for no in idle:
            c.expect(no not in pool.failed, 'failed-kept', 'failed connection is kept', no=no)
            c.expect(pool.taken[no] < cycle, 'exhausted-kept', 'connection that had all of its cycles is kept', no=no)
        # what is idle can be had before new ones are made
        pool.fail_create = 0
        made = len(pool.owner)
        for _ in range(len(idle)):
            conn = pool.acquire('main')
            c.expect(conn.no in idle, 'idle-unused', 'new connection made despite of an idle one')
            idle.discard(conn.no)
        c.eq(len(pool.owner), made, 'idle-unused', 'connections made')
        for no in [no for no, o in pool.owner.items() if o == 'main']:
            pool.owner[no] = None

        c.count('connections', made)

    c.sched(body, gran=gran)


@CHECK.scenario(quick=300, thorough=6000)
def pool_sequences(c):
    """A single user's sequence of operations, with the limit changed at runtime, against a reference of what is torn down and when"""
    rng = c.rng
    limit, cycle = rng.randrange(1, 4), rng.randrange(1, 5)
    pool = Pool(c, limit, cycle, rng)
    held, idle = [], set()
    ops = []
    for _ in range(rng.randrange(3, 25)):
        op = rng.choice(['take', 'take', 'give', 'give', 'give-failed', 'invalidate', 'limit'])
        if op == 'take':
            conn = pool.acquire('me')
            if idle:
                c.expect(conn.no in idle, 'idle-unused', 'new connection made despite of an idle one', ops=ops)
            idle.discard(conn.no)
            held.append(conn)
            ops.append(('take', conn.no))
            del conn
        elif op in ('give', 'give-failed') and held:
            conn = held.pop(rng.randrange(len(held)))
            no = conn.no
            gone = op == 'give-failed' or pool.taken[no] >= cycle or len(idle) >= limit
            ops.append((op, no))
            pool.release(conn, op == 'give-failed')
            del conn
            c.eq(no in pool.dead, gone, 'teardown-on-release', 'whether released connection is torn down', ops=ops, limit=limit, cycle=cycle)
            if not gone:
                idle.add(no)
        elif op == 'invalidate':
            pool.m.invalidate()
            ops.append(op)
            for no in idle:
                c.expect(no in pool.dead, 'invalidate', 'idle connection survived invalidation', no=no)
            idle.clear()
            for conn in held:
                c.expect(conn.no not in pool.dead, 'invalidate-held', 'connection in use torn down', no=conn.no)
            conn = None
        elif op == 'limit' and rng.random() < 0.5:
            limit = rng.randrange(1, 5)
            pool.m.max_number = limit
            ops.append((op, limit))
    c.rec(ops)
    keep = rng.randrange(len(held) + 1) if rng.random() < 0.5 else 0         # these are returned only after the pool is closed
    while len(held) > keep:
        conn = held.pop()
        pool.release(conn)
        del conn
    for _ in range(rng.randrange(1, 3)):
        pool.m.close()
    c.eq(sorted(pool.alive()), sorted(x.no for x in held), 'close-idle', 'connections alive after closing')
    while held:
        conn = held.pop()
        no = conn.no
        pool.release(conn, rng.random() < 0.2)
        c.expect(no in pool.dead, 'returned-after-close', 'connection returned to a closed pool is left open', no=no)
        del conn
        c.raises(RuntimeError, pool.m.acquire_connection, 'closed-acquire')
    c.eq(sorted(pool.alive()), [], 'close', 'connections alive after closing')
    c.raises(RuntimeError, pool.m.acquire_connection, 'closed-acquire')


@CHECK.scenario(quick=60, thorough=600)
def pool_teardown_failing(c):
    """A failing teardown goes to the caller and harms neither the limit of cycles nor connections that follow"""
    rng = c.rng
    cycle = rng.randrange(2, 5)
    made, torn, taken = [], [], {}

    class M(CPManager):
        def create_connection(self):
            conn = Conn(len(made))
            made.append(conn.no)
            taken[conn.no] = 0
            return conn

        def teardown_connection(self, connection):
            torn.append(connection.no)
            if rng.random() < 0.5:
                raise Boom('teardown')

    m = M(2, cycle)
    c.rec(cycle)
    for _ in range(30):
        conn = m.acquire_connection()
        taken[conn.no] += 1
        c.expect(conn.no not in torn, 'torn-given', 'connection given after a teardown')
        fails = rng.random() < 0.2
        c.rec(conn.no, fails)
        if fails:
            m.fail_connection(conn)
        no = conn.no
        kind, e = c.attempt(lambda: m.release_connection(conn))
        c.expect(kind == 'ok' or isinstance(e, Boom), 'teardown-exception', 'unexpected exception', exc=repr(e))
        del conn, e
        c.eq(no in torn, fails or taken[no] >= cycle, 'torn-early-or-late', 'whether torn down at a return', taken=taken[no], cycle=cycle, failed=fails)
        if rng.random() < 0.1:
            kind, e = c.attempt(m.invalidate)
            c.expect(kind == 'ok' or isinstance(e, Boom), 'teardown-exception', 'unexpected exception', exc=repr(e))
            del e
    c.eq(len(torn), len(set(torn)), 'torn-once', 'teardowns')


# --------------------------------------------------------------------------------------------------- transactions


class Fault(Exception):
    pass


class DB:
    def __init__(self, log, faults, rng):
        self.log, self.faults, self.rng = log, faults, rng
        self.ncur = 0

    def _do(self, what):
        self.log.append(what)
        if what in self.faults:
            raise Fault(what)

    def cursor(self):
        self._do('cursor')
        db = self

        class Cursor:
            closed = False

            def execute(self, q):
                if self.closed:
                    raise Fault('cursor is closed already')
                db._do('execute')

            def close(self):
                self.closed = True
                db._do('cursor.close')
        return Cursor()

    def commit(self):
        self._do('commit')

    def rollback(self):
        self._do('rollback')

    def close(self):
        self._do('close')


class Logged:
    """what satella.db logs goes to the handler only"""
    def __init__(self, handler):
        self.handler, self.logger = handler, logging.getLogger('satella.db')

    def __enter__(self):
        self.logger.addHandler(self.handler)
        self.saved, self.logger.propagate = self.logger.propagate, False
        self.disabled = logging.root.manager.disable
        logging.disable(logging.NOTSET)

    def __exit__(self, *args):
        self.logger.removeHandler(self.handler)
        self.logger.propagate = self.saved
        logging.disable(self.disabled)


class Getter:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self):
        return self.fn()

    def method(self):
        return self.fn()


@CHECK.scenario(quick=150, thorough=2000)
def transactions(c):
    """commit xor rollback, exactly as the block ended, the cursor always closed, with faults at any step"""
    rng = c.rng
    faults = set(rng.sample(['cursor', 'execute', 'commit', 'rollback', 'cursor.close', 'close'], rng.choice([0, 0, 1, 1, 2])))
    log = []
    db = DB(log, faults, rng)
    calls = []

    def get():
        calls.append(1)
        return db

    source = rng.choice(['conn', 'function', 'lambda', 'partial', 'method', 'object'])
    arg = {'conn': db, 'function': get, 'lambda': lambda: get(), 'partial': partial(get), 'method': Getter(get).method, 'object': Getter(get)}[source]
    close = rng.random() < 0.5
    kw = {'close_the_connection_after': close, 'log_exception': rng.random() < 0.5}
    raised = rng.choice([None, None, Boom, KeyError, BoomBase])
    c.rec(sorted(faults), source, close, raised and raised.__name__)
    tr = transaction(arg, **kw)
    records = []
    handler = logging.Handler()
    handler.emit = records.append
    used = []
    rounds = 1 if close or faults else rng.randrange(1, 3)
    for _ in range(rounds):
        del log[:]
        executed = False
        exc, original = None, None
        try:
            with Logged(handler), tr as cur:
                used.append(cur)
                cur.execute('x')
                executed = True
                if raised is not None:
                    original = raised('inside')
                    raise original
        except (Exception, BoomBase) as e:  # noqa
            exc = e
        if source == 'conn':
            c.eq(len(calls), 0, 'getter', 'getter calls')
        else:
            c.eq(len(calls), 1, 'getter', 'connections obtained from the getter')
        c.expect(len({id(u) for u in used}) == len(used), 'cursor-reused', 'closed cursor given again')
        if 'cursor' in faults:
            c.eq(log, ['cursor'], 'no-cursor', 'operations with no cursor')
            c.expect(isinstance(exc, Fault), 'no-cursor', 'exception', exc=repr(exc))
            return
        failed_inside = raised is not None or 'execute' in faults
        want_op, other = ('rollback', 'commit') if failed_inside else ('commit', 'rollback')
        c.eq(log.count(want_op), 1, 'ended', 'number of ' + want_op, log=log)
        if want_op == 'rollback':
            c.expect('commit' not in log, 'commit-and-rollback', 'failed transaction was committed', log=log)
        elif 'commit' not in faults:
            c.expect('rollback' not in log, 'commit-and-rollback', 'transaction rolled back', log=log)
        if 'rollback' not in faults:
            c.eq(len(records), 1 if failed_inside and kw['log_exception'] else 0, 'exception-logged', 'log entries on the exception', log_exception=kw['log_exception'])
            c.expect(all(r.levelno == logging.ERROR and r.exc_info[1] is not None and (original is None or r.exc_info[1] is original) for r in records), 'exception-logged',
                     'log entry without the exception')
        del records[:]
        c.eq(log.count('cursor.close'), 1, 'cursor-closed', 'number of times that the cursor is closed', log=log, faults=faults)
        c.eq(log.count('close'), 1 if close else 0, 'connection-closed', 'number of times that the connection is closed', log=log, faults=faults)
        c.expect(log.index(want_op) < log.index('cursor.close'), 'order', 'cursor closed too early', log=log)
        if close:
            c.expect(log[-1] == 'close', 'order', 'connection closed too early', log=log)
        cleanup_faults = faults & ({want_op, 'cursor.close'} | ({'close'} if close else set()))
        if cleanup_faults:
            c.expect(isinstance(exc, Fault), 'fault-lost', 'exception of the database lost', exc=repr(exc), faults=faults)
        elif raised is not None and 'execute' not in faults:
            c.expect(exc is original, 'exception', 'exception of the block lost', exc=repr(exc))
        elif 'execute' in faults:
            c.expect(isinstance(exc, Fault), 'exception', 'exception of the block lost', exc=repr(exc))
        else:
            c.eq(exc, None, 'exception', 'exception')
            c.expect(executed, 'executed', 'block not executed')


@CHECK.scenario(quick=100, thorough=1000)
def lazy_loading(c):
    """A method of a lazily loaded object runs only after a refresh, done once, and a failed refresh is retried"""
    rng = c.rng
    log = []
    failing = [rng.random() < 0.4 for _ in range(6)]
    lazy = rng.random() < 0.7
    c.rec(failing, lazy)

    class Row(Loadable):
        def __init__(self, ident, load_lazy=False):
            self.ident = ident
            self.value = None
            super().__init__(load_lazy=load_lazy)

        def refresh(self, load_from=None):
            log.append('refresh')
            if load_from is None and failing and failing.pop(0):
                raise Boom('db')
            self.value = 5 if load_from is None else load_from
            super().refresh(load_from=load_from)

        @property
        @must_be_loaded
        def prop(self):
            log.append('prop')
            return self.value, self._loaded

        @must_be_loaded
        def method(self, a, *args, b=3, **kw):
            """doc of method"""
            log.append('method')
            if a == 'raise':
                raise KeyError('inside')
            return self.value, self._loaded, a, args, b, kw

    will_fail = not lazy and failing[0]
    kind, row = c.attempt(lambda: Row(1, load_lazy=lazy))
    c.eq(kind, 'exc' if will_fail else 'ok', 'construct', 'construction')
    if will_fail:
        c.eq(log, ['refresh'], 'construct', 'calls')
        return
    c.eq(log, [] if lazy else ['refresh'], 'construct', 'database hit by the constructor')
    c.eq((Row.method.__name__, Row.method.__doc__), ('method', 'doc of method'), 'metadata', 'name and documentation')
    loaded, value = not lazy, 5
    for _ in range(rng.randrange(2, 8)):
        del log[:]
        op = rng.choice(['method', 'prop', 'raise', 'explicit'])
        if op == 'explicit':
            value = rng.randrange(100)
            row.refresh(load_from=value)
            loaded = True
            continue
        fails = not loaded and bool(failing) and failing[0]
        arg = 'raise' if op == 'raise' else 'x'
        kind, got = c.attempt((lambda: row.prop) if op == 'prop' else (lambda: row.method(arg, 1, 2, b=4, z=5)))
        name = 'prop' if op == 'prop' else 'method'
        if fails:
            c.expect(kind == 'exc' and isinstance(got, Boom), 'failed-refresh', 'exception of a failed refresh lost', got_=repr(got))
            c.eq(log, ['refresh'], 'failed-refresh', 'method executed on an object that is not loaded')
            continue
        c.eq(log, [name] if loaded else ['refresh', name], 'refresh', 'calls')
        loaded = True
        if op == 'raise':
            c.expect(kind == 'exc' and isinstance(got, KeyError), 'method-exception', 'exception of a method', got_=repr(got))
        else:
            c.eq(got, (value, True) if op == 'prop' else (value, True, 'x', (1, 2), 4, {'z': 5}), 'method-result', 'result of a method')


# --------------------------------------------------------------------------------------------------- imports

TREES = itertools.count()


class Tree:
    """A package on disk with a reference of what is to be imported"""

    def __init__(self, rng, folder, name, opts, depth=0, top=True):
        self.rng, self.name = rng, name
        os.makedirs(folder)
        self.has_all = True if top else rng.random() < 0.7
        self.own = []               # names that __all__ has from the beginning
        self.modules, self.packages = {}, {}
        lines = []
        if not top:
            for i in range(rng.randrange(0, 2)):
                n = 'own_%s_%d' % (name, i)
                lines.append('%s = %r' % (n, n))
                self.own.append(n)
        else:
            lines.append('from satella.imports import import_from')
        if not self.has_all:
            self.own = []
        if self.has_all:
            lines.append('__all__ = %r' % (self.own,))
        if top:
            lines.append('def do_import(**kw):\n    import_from(__path__, __name__, __all__, globals(), **kw)')
        with open(os.path.join(folder, '__init__.py'), 'w') as f:
            f.write('\n'.join(lines) + '\n')
        for i in range(rng.randrange(0, 4)):
            m = rng.choice(['mod_%s_%d', '_hidden_%s_%d']) % (name, i) if rng.random() < 0.3 else 'mod_%s_%d' % (name, i)
            items = ['item_%s_%s_%d' % (name, i, k) for k in range(rng.randrange(0, 3))]
            items += ['_under_%s_%d' % (name, i)] if rng.random() < 0.3 else []
            declares = rng.random() < 0.7
            with open(os.path.join(folder, m + '.py'), 'w') as f:
                for item in items:
                    f.write('%s = %r\n' % (item, item))
                if declares:
                    f.write('__all__ = %r\n' % (items,))
            self.modules[m] = (items, declares)
        if depth < 2:
            for i in range(rng.randrange(0, 3)):
                # names that happen to be those of packages in the standard library as well
                p = rng.choice(['pkg_%s_%d' % (name, i), 'pkg_%s_%d' % (name, i), '_pkg_%s_%d' % (name, i), 'json', 'email', 'tests', 'logging'])
                if p not in self.packages:
                    self.packages[p] = Tree(rng, os.path.join(folder, p), p, opts, depth + 1, False)

    def expect(self, opts):
        """-> (set of names that should be in __all__ and in the namespace, {package: (names or None, ...)})"""
        names, subs = set(self.own), {}
        for m, (items, declares) in self.modules.items():
            if opts['skip_single_underscores'] and m.startswith('_'):
                continue
            if opts['skip_not_having_all'] and not declares:
                continue
            names |= {i for i in items if not (opts['skip_single_underscores'] and i.startswith('_'))}
        if opts['recursive']:
            for p, tree in self.packages.items():
                if opts['skip_single_underscores'] and p.startswith('_'):
                    continue
                if opts['skip_not_having_all'] and not tree.has_all:
                    continue
                names.add(p)
                subs[p] = tree
        return names, subs


def verify_tree(c, module, tree, opts, path):
    names, subs = tree.expect(opts)
    if tree.has_all or opts['create_all']:
        got = set(module.__all__)
        dunder = {n for n in got if n.startswith('__')}
        c.eq(got - dunder if not opts['skip_single_underscores'] else got, names, 'all', '__all__ of ' + path, opts=opts)
        c.eq(len(module.__all__), len(set(module.__all__)), 'all-twice', 'names in __all__ repeat')
    for n in names:
        if n in subs:
            c.expect(getattr(module, n, None) is sys.modules[path + '.' + n], 'subpackage', 'subpackage in the namespace', name=n, path=path)
        else:
            c.eq(getattr(module, n, None), n, 'item', 'item in the namespace of ' + path)
    for p, sub in subs.items():
        verify_tree(c, sys.modules[path + '.' + p], sub, opts, path + '.' + p)


@CHECK.scenario(quick=40, thorough=300)
def importing(c):
    """import_from brings in exactly what the tree of packages declares, whatever else of the same name can be imported"""
    rng = c.rng
    tmp = c.tmpdir()
    name = 'vtree_%d_%d' % (os.getpid(), next(TREES))
    opts = {'recursive': rng.random() < 0.8, 'create_all': rng.random() < 0.7, 'skip_single_underscores': rng.random() < 0.7,
            'skip_not_having_all': rng.random() < 0.4}
    tree = Tree(rng, os.path.join(tmp, name), name, opts)
    c.rec(sorted(opts.items()), sorted(tree.packages), sorted(tree.modules))
    sys.path.insert(0, tmp)
    importlib.invalidate_caches()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            module = importlib.import_module(name)
            for _ in range(rng.randrange(1, 3)):
                kind, e = c.attempt(lambda: module.do_import(**opts))
                c.expect(kind == 'ok', 'import-failed', 'import failed', exc=repr(e), packages=sorted(tree.packages))
        c.eq(module.__name__, name, 'own-name', 'name of the module')
        verify_tree(c, module, tree, opts, name)
        mods = [m for m in tree.modules if tree.modules[m][0]]
        if mods:
            m = rng.choice(mods)
            item = tree.modules[m][0][0]
            c.eq(import_class('%s.%s.%s' % (name, m, item)), item, 'import-class', 'imported by path')
            c.raises(ImportError, lambda: import_class('%s.%s.absent' % (name, m)), 'import-class-absent')
        c.raises(ImportError, lambda: import_class('%s.absent_module.thing' % name), 'import-class-no-module')
    finally:
        sys.path.remove(tmp)
        for k in [k for k in sys.modules if k == name or k.startswith(name + '.')]:
            del sys.modules[k]


@CHECK.scenario(quick=30, thorough=200)
def importing_missing(c):
    """A module whose __all__ tells lies fails the import, or not, as asked"""
    rng = c.rng
    tmp = c.tmpdir()
    name = 'vliar_%d_%d' % (os.getpid(), next(TREES))
    folder = os.path.join(tmp, name)
    os.makedirs(folder)
    with open(os.path.join(folder, '__init__.py'), 'w') as f:
        f.write('from satella.imports import import_from\n__all__ = []\n'
                'def do_import(**kw):\n    import_from(__path__, __name__, __all__, globals(), **kw)\n')
    n = rng.randrange(1, 4)
    names = ['x%d' % i for i in range(n)] + ['liar']
    rng.shuffle(names)
    depth = rng.randrange(3)            # the liar is in a package so deep
    for i in range(depth):
        folder = os.path.join(folder, 'sub%d' % i)
        os.makedirs(folder)
        with open(os.path.join(folder, '__init__.py'), 'w') as f:
            f.write('__all__ = []\n')
    with open(os.path.join(folder, 'm.py'), 'w') as f:
        f.write(''.join('x%d = %r\n' % (i, 'x%d' % i) for i in range(n)) + '__all__ = %r\n' % (names,))
    strict = rng.random() < 0.5
    c.rec(names, strict)
    sys.path.insert(0, tmp)
    importlib.invalidate_caches()
    try:
        module = importlib.import_module(name)
        kind, e = c.attempt(lambda: module.do_import(fail_on_attributerror=strict))
        if strict:
            c.expect(kind == 'exc' and isinstance(e, AttributeError), 'liar-unnoticed', 'missing name was not reported', exc=repr(e))
        else:
            c.eq(kind, 'ok', 'liar-tolerated', 'outcome')
            for i in range(depth):
                c.eq(list(module.__all__), ['sub%d' % i], 'liar-all', 'names in __all__ of packages above')
                module = getattr(module, 'sub%d' % i)
            c.eq(set(module.__all__), {'x%d' % i for i in range(n)}, 'liar-all', 'names in __all__')
    finally:
        sys.path.remove(tmp)
        for k in [k for k in sys.modules if k == name or k.startswith(name + '.')]:
            del sys.modules[k]


@CHECK.scenario(quick=200, thorough=5000)
def some_pools(c):
    """Pools side by side give out only their own connections, each within its own limits"""
    rng = c.rng
    pools = [Pool(c, rng.randrange(1, 3), rng.randrange(1, 4), rng) for _ in range(rng.randrange(2, 4))]
    held = []
    for step in range(rng.randrange(3, 20)):
        i = rng.randrange(len(pools))
        op = rng.choice(['acquire', 'acquire', 'release', 'release', 'invalidate'])
        c.rec(op, i)
        if op == 'acquire':
            conn = pools[i].m.acquire_connection()
            c.expect(conn.no in pools[i].owner and conn.made_by is pools[i], 'of-its-own', 'connection of another pool', pool=i)
            held.append((i, conn))
        elif op == 'release' and held:
            j, conn = held.pop(rng.randrange(len(held)))
            pools[j].m.release_connection(conn)
        elif op == 'invalidate':
            pools[i].m.invalidate()
            c.eq(len(pools[i].alive()), len([1 for j, _ in held if j == i]), 'of-its-own', 'connections left by invalidate', pool=i)
    i = rng.randrange(len(pools))
    others = [p for j, p in enumerate(pools) if j != i]
    alive = [p.alive() for p in others]
    pools[i].m.close()
    c.eq([p.alive() for p in others], alive, 'of-its-own', 'closing one pool closed connections of another')
    for p in others:
        p.m.acquire_connection()
    c.raises(RuntimeError, pools[i].m.acquire_connection, 'closed')


if __name__ == '__main__':
    CHECK.main()
