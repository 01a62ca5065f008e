"""C27: a metrified thread pool runs each task exactly once, as parallel as allowed, and accounts for all of them"""
import gc
import threading
import time
from concurrent.futures import CancelledError
from concurrent.futures.thread import BrokenThreadPool

from vlib.harness import Check
from checks.common import Boom, BoomBase, pause

import satella.coding
from satella.instrumentation.metrics import AggregateMetric, getMetric
from satella.instrumentation.metrics.structures import MetrifiedThreadPoolExecutor

CHECK = Check('C27', 'A case is one schedule of a pool of random size being given random tasks, cancelled, shut down or abandoned; '
                     'distinct by parameters and thread switches; non-trivial if at least two oracle evaluations took place')


def values(m):
    out = {}
    for md in m.to_metric_data().values:
        out[md.name.split('.', 1)[-1] if '.' in md.name else 'value'] = md.value
    return out


@CHECK.scenario(quick=40, thorough=1500)
def tasks(c):
    rng = c.rng
    getMetric('').reset()
    workers = rng.randrange(1, 4)
    plan = [(rng.choice([0, 0, 1, 2.5]), rng.choice(['ok', 'ok', 'ok', 'boom', 'base'])) for _ in range(rng.randrange(1, 9))]
    cancelled = rng.random() < 0.4
    submitters = rng.choice([1, 1, 2])
    c.rec('plan', workers, plan, cancelled, submitters)

    def body(s):
        waiting, executing = getMetric('w', 'summary', last_calls=100), getMetric('e', 'summary', last_calls=100)
        second = getMetric('e2', 'histogram')
        queue = getMetric('q', 'callable')
        ex = MetrifiedThreadPoolExecutor(workers, time_spent_waiting=waiting, time_spent_executing=AggregateMetric(executing, second),
                                         waiting_tasks=queue)
        runs, active, peak = {}, [0], [0]
        guard = threading.Lock()

        def task(i, d, how, *, extra):
            with guard:
                runs[i] = runs.get(i, 0) + 1
                active[0] += 1
                peak[0] = max(peak[0], active[0])
            try:
                if d:
                    time.sleep(d)
                pause(rng.randrange(2))
                if how == 'boom':
                    raise Boom(i)
                if how == 'base':
                    raise BoomBase(i)
                return i, extra
            finally:
                with guard:
                    active[0] -= 1
        futs = {}

        def submitter(k):
            for i, (d, how) in enumerate(plan):
                if i % submitters == k:
                    futs[i] = ex.submit(task, i, d, how, extra='x')
        c.go(*[lambda k=k: submitter(k) for k in range(submitters)])
        qlen = ex.get_queue_length()
        c.expect(0 <= qlen <= len(plan), 'queue-length', 'impossible length of the queue', length=qlen)
        gone = set()
        if cancelled:
            for i in rng.sample(list(futs), len(futs) // 2):
                if futs[i].cancel():
                    gone.add(i)
        for i, f in futs.items():
            d, how = plan[i]
            try:
                r = f.result()
            except CancelledError:
                c.expect(i in gone, 'task-cancelled', 'a task was cancelled by nobody')
            except (Boom, BoomBase) as e:
                c.expect(how != 'ok' and e.args == (i,), 'task-failed', 'a wrong failure', how=how)
            else:
                c.expect(how == 'ok' and r == (i, 'x'), 'task-result', 'a wrong result', result=r)
        ex.shutdown()
        c.eq(runs, {i: 1 for i in futs if i not in gone}, 'task-runs', 'tasks have to be run exactly once', plan=plan, gone=gone)
        c.expect(peak[0] <= workers, 'too-parallel', 'more tasks run at once than there are workers', peak=peak[0])
        c.raises(RuntimeError, lambda: ex.submit(task, 0, 0, 'ok', extra=1), 'submit-after-shutdown')
        w, e, h = values(waiting), values(executing), values(second)
        done = len(plan) - len(gone)
        c.expect(done <= e['count'] <= len(plan) and done <= w['count'] <= len(plan) and h['count'] == e['count'], 'metrics-count',
                 'a number of tasks accounted for is wrong', executing=e, waiting=w, histogram=h, tasks=len(plan), cancelled=len(gone))
        spent = sum(d for i, (d, how) in enumerate(plan) if i not in gone)
        c.expect(spent - 1e-6 <= e['sum'] <= spent + 0.5, 'metrics-time', 'wrong time of execution', reported=e['sum'], spent=spent)
        c.expect(w['sum'] >= 0, 'metrics-waiting', 'negative time of waiting')
        if workers == 1 and submitters == 1 and not gone:
            # with a single worker each task waits for all that come before it
            want = sum(sum(d for d, _ in plan[:i]) for i in range(len(plan)))
            c.expect(abs(w['sum'] - want) < 0.5, 'metrics-waiting-time', 'wrong time of waiting', reported=w['sum'], expected=want, plan=plan)
    c.sched(body)
    getMetric('').reset()


@CHECK.scenario(quick=40, thorough=1200)
def parallelism(c):
    """Tasks that wait for one another finish as long as there are as many workers as tasks, whatever was run before"""
    rng = c.rng
    workers = rng.randrange(2, 5)
    rounds = [rng.randrange(1, workers + 1) for _ in range(rng.randrange(1, 5))]
    prefix = rng.choice(['', 'my-pool'])
    c.rec('rounds', workers, rounds)

    def body(s):
        ex = MetrifiedThreadPoolExecutor(workers, prefix)
        seen = set()
        for n in rounds:
            bar = threading.Barrier(n)

            def task(i, bar=bar):
                seen.add(threading.current_thread().name)
                bar.wait()
                return i
            futs = [ex.submit(task, i) for i in range(n)]
            c.eq([f.result() for f in futs], list(range(n)), 'parallel', 'wrong results')
        c.expect(len(seen) <= workers, 'workers', 'too many workers', workers=workers, seen=sorted(seen))
        if prefix:
            c.expect(all(x.startswith(prefix) for x in seen), 'thread-name', 'names of threads ignore the prefix', seen=sorted(seen))
        ex.shutdown()
    c.sched(body)


@CHECK.scenario(quick=40, thorough=1200)
def initializers(c):
    """An initializer is run once by each worker before its tasks; a failing one breaks the pool and fails what was pending"""
    rng = c.rng
    workers, n = rng.randrange(1, 4), rng.randrange(1, 6)
    fails = rng.random() < 0.5
    boom = rng.choice([Boom, BoomBase])

    def body(s):
        inits = []

        def init(a, b):
            inits.append((threading.current_thread().name, a, b))
            pause(rng.randrange(3))
            if fails:
                raise boom()
        ex = MetrifiedThreadPoolExecutor(workers, initializer=init, initargs=(1, 2))
        ready = []

        def task(i):
            ready.append(threading.current_thread().name in [x[0] for x in inits])
            pause(1)
            return i
        futs, refused = [], 0
        for i in range(n):
            try:
                futs.append(ex.submit(task, i))
            except BrokenThreadPool:
                refused += 1
        c.expect(not refused or fails, 'refused', 'a healthy pool refused a task')
        for i, f in enumerate(futs):
            try:
                r = f.result()
            except BrokenThreadPool:
                c.expect(fails, 'broken', 'a healthy pool is broken')
            else:
                c.expect(not fails and r == i, 'ran', 'a task was run by an uninitialized worker')
        c.expect(all(ready), 'init-before', 'a task was run before its worker was initialized')
        names = [x[0] for x in inits]
        c.expect(len(set(names)) == len(names) and all(x[1:] == (1, 2) for x in inits), 'init-once', 'wrong calls of the initializer', calls=inits)
        if fails:
            c.raises(BrokenThreadPool, lambda: ex.submit(task, 0), 'broken-submit')
        ex.shutdown()
    c.sched(body)


@CHECK.scenario(quick=40, thorough=1000)
def abandoned(c):
    """A pool that nobody refers to any more still finishes what it was given"""
    rng = c.rng
    workers, n = rng.randrange(1, 3), rng.randrange(1, 6)
    how = rng.choice(['dropped', 'shutdown-nowait', 'cancel-futures', 'with'])
    ran = []

    def body(s):
        def task(i):
            time.sleep(1)
            ran.append(i)
            return i

        def start():
            ex = MetrifiedThreadPoolExecutor(workers)
            futs = [ex.submit(task, i) for i in range(n)]
            if how == 'shutdown-nowait':
                ex.shutdown(wait=False)
            elif how == 'cancel-futures':
                ex.shutdown(wait=True, cancel_futures=True)
            elif how == 'with':
                with ex:
                    pass
                c.eq(sorted(ran), list(range(n)), 'with', 'leaving the section has to wait for tasks')
            return futs, list(ex._threads)
        futs, threads = start()
        gc.collect()
        done = 0
        for i, f in enumerate(futs):
            if how == 'cancel-futures' and f.cancelled():
                c.count('cancelled')
                continue
            c.eq(f.result(), i, 'abandoned', 'wrong result', how=how)
            done += 1
        c.eq(sorted(ran), [i for i, f in enumerate(futs) if not f.cancelled()], 'abandoned-runs', 'wrong tasks were run', how=how)
        for t in threads:
            t.join()
            c.expect(not t.is_alive(), 'abandoned-threads', 'a worker has not finished')
    c.sched(body)
