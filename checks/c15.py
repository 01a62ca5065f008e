"""C15: a synchronized time series never loses, repeats nor reorders entries between memory, database and server"""
import bisect
import math

from vlib.harness import Check
from checks.common import Boom, pause

from satella.coding.structures import DBStorage, SyncableDroppable

CHECK = Check('C15', 'A case is one history of arriving data, syncs, evictions, database failures and restarts of one series, '
                     'by one thread or by several under one controlled schedule; distinct by operations, results and thread '
                     'switches; non-trivial if at least two oracle evaluations took place')


class It:
    """an iterator that has to be closed exactly once"""

    def __init__(self, db, it):
        self.db = db
        self.it = it
        self.closed = False
        db.open += 1

    def __iter__(self):
        return self

    def __next__(self):
        if self.closed:
            raise AssertionError('iterating upon a closed iterator')
        return next(self.it)

    def close(self):
        if not self.closed:
            self.closed = True
            self.db.open -= 1


class DB(DBStorage):
    def __init__(self, rng, plain=False):
        self.rng = rng
        self.data = {}
        self.start = self.stop = self.synced = None
        self.open = 0
        self.plain = plain
        self.fail_after = None
        self.slow = False
        self.twice = []

    def lag(self):
        if self.slow:
            pause(self.rng.randrange(0, 3))

    def put(self, key, value):
        self.lag()
        if self.fail_after is not None:
            if self.fail_after == 0:
                raise Boom('put')
            self.fail_after -= 1
        if key in self.data:
            self.twice.append(key)
        self.data[key] = value

    def iterate(self, starting_key):
        self.lag()

        def gen():
            keys = sorted(self.data)
            i = 0 if starting_key is None else bisect.bisect_left(keys, starting_key)
            for k in keys[i:]:
                if k in self.data:
                    yield k, self.data[k]
        return iter(list(gen())) if self.plain else It(self, gen())

    def on_change_start_entry(self, v):
        self.start = v

    def on_change_stop_entry(self, v):
        self.stop = v

    def on_change_synced_up_to(self, v):
        self.synced = v

    def delete(self, key):
        del self.data[key]


@CHECK.scenario(quick=5000, thorough=200000)
def history(c):
    rng = c.rng
    mem, disk = rng.choice([(5, 20), (10, 30), (100, 1000), (3, 4)])
    db = DB(rng, plain=rng.random() < 0.3)
    sd = SyncableDroppable(db, None, None, None, mem, disk)
    model = []          # all that is retained
    t = rng.choice([0, 1, 50, -20])
    synced = None
    c.rec(mem, disk, t)

    def verify():
        memory = list(sd.data_in_memory)
        both = sorted(db.data.items()) + memory
        c.eq(both, model, 'nothing-lost-nor-repeated', memory=memory)
        c.eq((sd.start_entry, sd.stop_entry), (model[0][0], model[-1][0]) if model else (None, None), 'span')
        c.eq((db.start, db.stop, db.synced), (sd.start_entry, sd.stop_entry, sd.synced_up_to), 'storage-is-told')
        c.eq(sd.first_key_in_memory, memory[0][0] if memory else None, 'first-in-memory')
        c.eq(db.open, 0, 'iterators-closed')

    for _ in range(rng.randrange(3, 25)):
        op = rng.randrange(11)
        c.rec(op)
        if op <= 2:
            for _ in range(rng.randrange(1, 4)):
                v = rng.randrange(100)
                sd.on_new_data(t, v)
                model.append((t, v))
                t += rng.choice([1, 1, 2, 5, 12])
        elif op == 3:
            if model:
                bad = model[-1][0] - rng.randrange(0, 3)
                c.raises(ValueError, lambda: sd.on_new_data(bad, 1), 'out-of-order')
        elif op == 4:
            fail = rng.random() < 0.3 and sd.data_in_memory
            if fail:
                db.fail_after = rng.randrange(len(sd.data_in_memory))
                c.raises(Boom, sd.sync_to_db, 'failure-reported')
                db.fail_after = None
            else:
                sd.sync_to_db()
                c.eq(sd.data_in_memory, [], 'sync-to-db')
        elif op == 5:
            if rng.random() < 0.2:
                db.fail_after = rng.randrange(3)
                c.attempt(sd.cleanup_keep_in_memory)
                db.fail_after = None
            else:
                had = [k for k, _ in sd.data_in_memory]
                sd.cleanup_keep_in_memory()
                if model:
                    cutoff = model[-1][0] - mem
                    keys = [k for k, _ in sd.data_in_memory]
                    c.eq([k for k in keys if k != cutoff], [k for k in had if k > cutoff], 'keeps-span-in-memory')
        elif op == 6:
            sd.cleanup_keep_in_db()
            if model:
                cutoff = model[-1][0] - disk
                model[:] = [e for e in model if e[0] >= cutoff]
        elif op == 7:
            a, b = rng.randrange(-25, t + 3), rng.randrange(-25, t + 3)
            c.eq(list(sd.get_archive(a, b)), [e for e in model if a <= e[0] <= b], 'archive', a=a, b=b,
                 memory=list(sd.data_in_memory))
            c.eq(list(sd.get_archive(-100, t + 100)), model, 'archive')
            g = sd.get_archive(-100, t)
            next(g, None)
            g.close()
        elif op == 8:
            n = rng.choice([None, None, 1, 2, 3, 100, math.inf])
            due = [e for e in model if synced is None or e[0] > synced]
            if due:
                got = list(sd.on_sync_request() if n is None else sd.on_sync_request(n))
                c.eq(got, due[:len(due) if n in (None, math.inf) else n], 'sync-request', synced=synced, n=n,
                     memory=list(sd.data_in_memory))
                if rng.random() < 0.7:
                    k = rng.choice(got)[0]
                    sd.on_synced_up_to(k)
                    synced = k
                    c.eq(sd.synced_up_to, k, 'synced-up-to')
            else:
                c.raises(ValueError, sd.on_sync_request, 'nothing-to-sync')
        elif op == 9:
            if model:
                c.eq(sd.get_latest_value(), model[-1], 'latest')
            else:
                c.raises(ValueError, sd.get_latest_value, 'latest')
        elif rng.random() < 0.5:
            # a clean restart
            sd.sync_to_db()
            sd = SyncableDroppable(db, db.start, db.stop, db.synced, mem, disk)
            c.eq((sd.start_entry, sd.stop_entry, sd.synced_up_to), (db.start, db.stop, db.synced), 'restart')
        verify()
    # all that is left goes to the server in order, whatever the batches
    sent = []
    while True:
        try:
            batch = list(sd.on_sync_request(rng.randrange(1, 4)))
        except ValueError:
            break
        c.expect(batch, 'sync-progress')
        sent += batch
        sd.on_synced_up_to(batch[-1][0])
        if rng.random() < 0.3:
            sd.sync_to_db()
    c.eq(sent, [e for e in model if synced is None or e[0] > synced], 'server-gets-everything-in-order')
    c.eq(db.twice, [], 'stored-once')


@CHECK.scenario(quick=1500, thorough=40000)
def concurrent(c):
    rng = c.rng
    n = rng.randrange(2, 7)
    ops = [[rng.choice(['sync_to_db', 'cleanup_keep_in_memory', 'cleanup_keep_in_db', 'request', 'latest'])
            for _ in range(rng.randrange(1, 4))] for _ in range(rng.randrange(1, 3))]
    c.rec(n, ops)

    def body(s):
        db = DB(rng)
        db.slow = rng.random() < 0.7
        sd = SyncableDroppable(db, None, None, None, rng.choice([1, 3, 50]), 1000)
        sd.on_new_data(0, 'v0')
        arrived = [(0, 'v0')]

        def producer():
            for i in range(1, n):
                sd.on_new_data(i, 'v%s' % i)
                pause(rng.randrange(2))
                arrived.append((i, 'v%s' % i))

        def worker(todo):
            for o in todo:
                if o == 'request':
                    before = list(arrived)
                    got = list(sd.on_sync_request())
                    c.eq(got[:len(before)], before, 'sync-request')
                    c.eq(got, [(i, 'v%s' % i) for i in range(len(got))], 'sync-request')
                elif o == 'latest':
                    pass
                else:
                    getattr(sd, o)()
        c.go(producer, *[lambda t=t: worker(t) for t in ops])
        want = [(i, 'v%s' % i) for i in range(n)]
        c.eq(sorted(db.data.items()) + list(sd.data_in_memory), want, 'nothing-lost-nor-repeated')
        c.eq(list(sd.get_archive(0, n)), want, 'archive')
        c.eq(list(sd.on_sync_request()), want, 'sync-request')
        c.eq(sd.get_latest_value(), want[-1], 'latest')
        c.eq((sd.start_entry, sd.stop_entry, db.start, db.stop), (0, n - 1, 0, n - 1), 'span')
        c.expect(not db.twice, 'stored-once', twice=db.twice)
        c.eq(db.open, 0, 'iterators-closed')
    c.sched(body, gran=rng.choice(['line', 'opcode']))
