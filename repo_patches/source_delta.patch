From c47dcb486969f61415048100e4e49bc6a327d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:51 +0000
Subject: [PATCH 001/228] fix: LockedDataset clears its locked flag before
 releasing the lock

Otherwise a thread that acquired the lock in between had its flag cleared by the previous holder, and
got ResourceNotLocked while holding the lock.
---
 satella/coding/concurrent/locked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 36b4807..32c92be 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -93,8 +93,8 @@ class LockedDataset:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        _get_internal(self).lock.release()
         _get_internal(self).locked = False
+        _get_internal(self).lock.release()
         return False
 
 
-- 
2.43.0


From f1234c738fe9d0c26c526b9c545a6c43a1d85fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 002/228] fix: LockedDataset acquisition arguments apply to a
 single acquisition

mds(blocking=False) used to store its arguments in the dataset, so they leaked both to concurrent
acquisitions by other threads and to all later 'with mds'.
---
 satella/coding/concurrent/locked_dataset.py | 37 +++++++++++++++------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 32c92be..21528c7 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -36,12 +36,11 @@ class LockedDataset:
     """
 
     class InternalDataset:
-        __slots__ = ('lock', 'locked', 'args')
+        __slots__ = ('lock', 'locked')
 
         def __init__(self):
             self.lock = threading.Lock()
             self.locked = False
-            self.args = ()
 
     def __init__(self):
         self.__internal = LockedDataset.InternalDataset()  # type: LockedDataset.InternalDataset
@@ -81,16 +80,10 @@ class LockedDataset:
         return super(LockedDataset, self).__setattr__(key, value)
 
     def __call__(self, blocking: bool = True, timeout: float = -1):
-        _get_internal(self).args = blocking, timeout
-        return self
+        return _Acquisition(self, blocking, timeout)
 
     def __enter__(self):
-        args = _get_internal(self).args
-
-        if not _get_internal(self).lock.acquire(*args):
-            raise WouldWaitMore('Resource is still locked')
-        _get_internal(self).locked = True
-        return self
+        return _acquire(self)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         _get_internal(self).locked = False
@@ -98,5 +91,29 @@ class LockedDataset:
         return False
 
 
+def _acquire(self, *args):
+    if not _get_internal(self).lock.acquire(*args):
+        raise WouldWaitMore('Resource is still locked')
+    _get_internal(self).locked = True
+    return self
+
+
+class _Acquisition:
+    """
+    A context manager that enters a dataset with arguments given just for this acquisition
+    """
+    __slots__ = 'dataset', 'args'
+
+    def __init__(self, dataset: LockedDataset, *args):
+        self.dataset = dataset
+        self.args = args
+
+    def __enter__(self):
+        return _acquire(self.dataset, *self.args)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        return self.dataset.__exit__(exc_type, exc_val, exc_tb)
+
+
 def _get_internal(self):
     return super(LockedDataset, self).__getattribute__('_LockedDataset__internal')
-- 
2.43.0


From b635d73252f633b2b5316b4922b0f7a1aeabd00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 003/228] fix: IDAllocator honors top_limit when start_at is
 not zero

The bound is relative to start_at, but was compared with the absolute top_limit, so that allocate_int
issued ids past the limit (or refused ids below it, for a negative start_at). A top_limit of 0 was
taken for no limit at all.
---
 satella/coding/concurrent/id_allocator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/id_allocator.py b/satella/coding/concurrent/id_allocator.py
index b702615..a2ce340 100644
--- a/satella/coding/concurrent/id_allocator.py
+++ b/satella/coding/concurrent/id_allocator.py
@@ -71,13 +71,12 @@ class IDAllocator(Monitor):
         self.start_at = start_at
         self.ints_allocated = set()
         self.free_ints = set()
-        self.top_limit = top_limit or math.inf
+        self.top_limit = math.inf if top_limit is None else top_limit
         self.bound = 0
 
     def _extend_the_bound_to(self, x: int) -> int:
         """Return how many integers added"""
-        if x > self.top_limit:
-            x = self.top_limit
+        x = min(x, self.top_limit - self.start_at)
         how_many = 0
         for i in range(self.bound, x):
             self.free_ints.add(i)
-- 
2.43.0


From eee38b2b7fb4138744d21fa67a4568ead16ee2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 004/228] fix: PeekableQueue does not lose wakeups

The queue was checked and then waited upon without holding a common lock, so an element put in between
never woke the getter up, and a peek() that was woken up consumed a notification meant for a get().
---
 satella/coding/concurrent/queue.py | 47 ++++++------------------------
 1 file changed, 9 insertions(+), 38 deletions(-)

diff --git a/satella/coding/concurrent/queue.py b/satella/coding/concurrent/queue.py
index 8df1a49..85c92c5 100644
--- a/satella/coding/concurrent/queue.py
+++ b/satella/coding/concurrent/queue.py
@@ -18,8 +18,8 @@ class PeekableQueue(tp.Generic[T]):
     def __init__(self):
         super().__init__()
         self.queue = collections.deque()
-        self.lock = threading.Lock()
-        self.inserted_condition = Condition()
+        self.lock = threading.RLock()
+        self.inserted_condition = Condition(self.lock)
 
     def put(self, item: T) -> None:
         """
@@ -44,47 +44,18 @@ class PeekableQueue(tp.Generic[T]):
                 self.queue.append(item)
         self.inserted_condition.notify(items_count)
 
-    def __get_timeout_none(self, item_getter):
-        while True:
-            self.lock.release()
-            self.inserted_condition.wait()
-            self.lock.acquire()
-            if len(self.queue):
-                try:
-                    return item_getter(self.queue)
-                finally:
-                    self.lock.release()
-
-    def __get_timeout(self, item_getter, timeout):
-        with measure(timeout=timeout) as measurement:
-            while not measurement.timeouted:
-                self.lock.release()
-                # raises WouldWaitMore
-                self.inserted_condition.wait(timeout=measurement.time_remaining)
-                self.lock.acquire()
-                if len(self.queue):
-                    try:
-                        return item_getter(self.queue)
-                    finally:
-                        self.lock.release()
-            else:
-                self.lock.release()
-                raise Empty('queue is empty')
-
     @rethrow_as(WouldWaitMore, Empty)
     def __get(self, timeout, item_getter) -> T:
-        self.lock.acquire()
-        if len(self.queue):
-            # Fast path
+        with measure(timeout=timeout) as measurement, self.lock:
+            while not self.queue:
+                # raises WouldWaitMore
+                self.inserted_condition.wait(timeout=measurement.time_remaining)
             try:
                 return item_getter(self.queue)
             finally:
-                self.lock.release()
-        else:
-            if timeout is None:
-                return self.__get_timeout_none(item_getter)
-            else:
-                return self.__get_timeout(item_getter, timeout)
+                if self.queue:
+                    # there's still something left for the other waiters
+                    self.inserted_condition.notify()
 
     def get(self, timeout: tp.Optional[float] = None) -> T:
         """
-- 
2.43.0


From c45288ce0eb632c2dbda6ef163d286ce0057aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 005/228] fix: every in-place operation on AtomicNumber wakes
 up its waiters

&=, |=, ^=, <<=, >>= and **= changed the value without notifying wait() and wait_until_equal().
---
 satella/coding/concurrent/atomic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 53df01f..d887282 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -80,16 +80,19 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __iand__(self, other: Number) -> 'AtomicNumber':
         self.value &= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ior__(self, other: Number) -> 'AtomicNumber':
         self.value |= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ixor__(self, other: Number) -> 'AtomicNumber':
         self.value ^= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -119,11 +122,13 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ilshift__(self, other: int) -> 'AtomicNumber':
         self.value <<= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __irshift__(self, other: int) -> 'AtomicNumber':
         self.value >>= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -151,6 +156,7 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ipow__(self, other) -> 'AtomicNumber':
         self.value **= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
-- 
2.43.0


From e1bb5f12d849f9757cf209dcb1a7d4e92e5719ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 006/228] fix: comparing AtomicNumbers does not deadlock

a == a tried to acquire a non-reentrant lock twice, and a == b in one thread with b == a in the other
acquired both locks in opposite orders.
---
 satella/coding/concurrent/atomic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index d887282..872547f 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -231,13 +231,14 @@ class AtomicNumber(Monitor):
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
     def __eq__(self, other: tp.Union['AtomicNumber', Number]) -> bool:
-        if isinstance(other, AtomicNumber):
-            with Monitor.acquire(other):
+        if isinstance(other, AtomicNumber) and other is not self:
+            # always lock in the same order
+            first, second = (self, other) if id(self) < id(other) else (other, self)
+            with Monitor.acquire(first), Monitor.acquire(second):
                 return self.value == other.value
-        else:
-            return self.value == other
+        with Monitor.acquire(self):
+            return self.value == (self.value if other is self else other)
 
     @Monitor.synchronized
     def __int__(self) -> int:
-- 
2.43.0


From 21b7f42d1f8f527cdc683d3214257b4174bc5019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 007/228] fix: AtomicNumber.wait_until_equal does not lose
 wakeups

The value was checked without holding the condition, so a change made between the check and the wait
was not noticed, and the caller waited forever.
---
 satella/coding/concurrent/atomic.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 872547f..cf89a53 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -272,18 +272,9 @@ class AtomicNumber(Monitor):
         :param timeout: maximum time to wait
         :raise WouldWaitMore: timeout expired without the value becoming equal to target
         """
-        if timeout is None:
-            while True:
-                if self == v:
-                    break
-                self.wait()
-        else:
-            with measure(timeout=timeout) as measurement:
-                while not measurement.timeouted:
-                    if self == v:
-                        break
-                    self.wait(measurement.time_remaining, throw_exception=False)
-
-                with Monitor.acquire(self):
-                    if self.value != v:
-                        raise WouldWaitMore()
+        with measure(timeout=timeout) as measurement, self.condition:
+            # notifications need this lock, so nothing can be missed between the check and the wait
+            while self.value != v:
+                if measurement.timeouted:
+                    raise WouldWaitMore()
+                self.condition.wait(measurement.time_remaining, dont_raise=True)
-- 
2.43.0


From 83666a11e6028148988441b8107cddbfdf5f3f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 008/228] fix: CallableGroup.has_cancelled_callbacks looks for
 cancelled callbacks

It returned True if there was any callback that was not cancelled.
---
 satella/coding/concurrent/callablegroup.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 9719236..f124b3b 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -112,10 +112,7 @@ class CallableGroup(tp.Generic[T]):
         :class:`~satella.coding.concurrent.CancellableCallback` instances and whether any
         of them was cancelled
         """
-        for clb in self.callables:
-             if clb:
-                return True
-        return False
+        return any(clb.cancelled for clb in list(self.callables))
 
     def remove_cancelled(self) -> None:
         """
-- 
2.43.0


From a9e11caa38d39fc463f3a2557f657aaa939f1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 009/228] fix: CallableGroup does not forget its callables when
 one of them raises

All of the callables were unregistered for the duration of the call, and registered again one by one, so
an exception made the group forget the callable that raised and everything that came after it (this way
a configuration descriptor that had rejected a value accepted anything from then on), and a call made from
another thread in the meantime called only some of them.
---
 satella/coding/concurrent/callablegroup.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index f124b3b..214c887 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -1,5 +1,3 @@
-import collections
-import copy
 import time
 import typing as tp
 
@@ -101,7 +99,7 @@ class CallableGroup(tp.Generic[T]):
 
     def __init__(self, gather: bool = True, swallow_exceptions: bool = False):
 
-        self.callables = collections.OrderedDict()  # type: tp.Dict[tp.Callable, tuple[bool, int]]
+        self.callables = {}  # type: tp.Dict[tp.Callable, tuple[bool, int]]
         self.gather = gather  # type: bool
         self.swallow_exceptions = swallow_exceptions  # type: bool
 
@@ -165,12 +163,12 @@ class CallableGroup(tp.Generic[T]):
         if self.has_cancelled_callbacks:
             self.remove_cancelled()
 
-        callables = copy.copy(self.callables)
-        self.callables.clear()
-
         results = []
 
-        for call, one_shot in callables.items():
+        for call, one_shot in list(self.callables.items()):
+            if one_shot and self.callables.pop(call, None) is None:
+                continue  # somebody else has called it in the meantime
+
             try:
                 q = call(*args, **kwargs)
             except Exception as e:
@@ -181,9 +179,6 @@ class CallableGroup(tp.Generic[T]):
             if self.gather:
                 results.append(q)
 
-            if not one_shot:
-                self.add(call, one_shot)
-
         if self.gather:
             return results
 
-- 
2.43.0


From aefb4dcb2d7542c312b97babf0455deb889fe81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 010/228] fix: CallNoOftenThan returns the result, always makes
 the first call and counts failed calls

The result of the callable was dropped, the first call was skipped if the monotonic clock showed less
than the interval, and calls that raised were not accounted for at all.
---
 satella/coding/concurrent/callablegroup.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 214c887..1d240f6 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -1,3 +1,4 @@
+import math
 import time
 import typing as tp
 
@@ -199,9 +200,11 @@ class CallNoOftenThan:
     def __init__(self, interval: float, callable_: tp.Callable):
         self.interval = interval  # type: float
         self.callable = callable_  # type: tp.Callable
-        self.last_called = 0  # type: float
+        self.last_called = -math.inf  # type: float
 
     def __call__(self, *args, **kwargs):
         if time.monotonic() - self.last_called >= self.interval:
-            self.callable(*args, **kwargs)
-            self.last_called = time.monotonic()
+            try:
+                return self.callable(*args, **kwargs)
+            finally:
+                self.last_called = time.monotonic()
-- 
2.43.0


From c48f1d21195b308e3f0ba0caf0a4c000e29b4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 011/228] fix: Timer's background thread accesses its heap only
 with the lock held

pop_less_than is a generator, so the heap was modified after the lock was released, concurrently with
timers being started, and timers could be lost.
---
 satella/coding/concurrent/timer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index 0b99010..8a1a309 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -75,7 +75,8 @@ class TimerBackgroundThread(threading.Thread, Monitor):
     def run(self):
         while True:
             try:
-                ts, _ = self.timer_objects.peek_closest()
+                with Monitor.acquire(self):
+                    ts, _ = self.timer_objects.peek_closest()
                 delay = min(ts - time.monotonic(), 1)
                 if delay < 0:
                     delay = 0
@@ -83,7 +84,7 @@ class TimerBackgroundThread(threading.Thread, Monitor):
                 delay = 1
             time.sleep(delay)
             with Monitor.acquire(self):
-                items_to_exec = self.timer_objects.pop_less_than(time.monotonic())
+                items_to_exec = list(self.timer_objects.pop_less_than(time.monotonic()))
 
             for item in items_to_exec:
                 with log_exceptions(logger, swallow_exception=True):
-- 
2.43.0


From 7a39cf170d787e39289d028e2e28a926036c3c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 012/228] fix: FutureCollection cancels and starts all of its
 futures

Both operations stopped touching the futures as soon as the result was known.
---
 satella/coding/concurrent/futures/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/collection.py b/satella/coding/concurrent/futures/collection.py
index eeb9f64..e2c047c 100644
--- a/satella/coding/concurrent/futures/collection.py
+++ b/satella/coding/concurrent/futures/collection.py
@@ -62,7 +62,7 @@ class FutureCollection:
         """
         starting = False
         for future in self.futures:
-            starting = starting or future.set_running_or_notify_cancel()
+            starting = future.set_running_or_notify_cancel() or starting
         return starting
 
     def __iadd__(self, other: tp.Union['FutureCollection', Future, tp.Sequence[Future]]):
@@ -150,5 +150,5 @@ class FutureCollection:
         """
         all_cancelled = True
         for future in self.futures:
-            all_cancelled = all_cancelled and future.cancel()
+            all_cancelled = future.cancel() and all_cancelled
         return all_cancelled
-- 
2.43.0


From a23a6acf4a230b4ee8f7642e654c76ac2b827ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 013/228] fix: Future.exception() can be called without a
 timeout

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 38a9473..67816fa 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -125,7 +125,7 @@ class Future(PythonFuture, tp.Generic[T]):
         else:
             return super().result(timeout)
 
-    def exception(self, timeout: None) -> tp.Type[Exception]:
+    def exception(self, timeout=None) -> tp.Optional[Exception]:
         if self._state == PRE_FINISHED:
             return self._exception
         else:
-- 
2.43.0


From 069c4c614c406fa2f38c5150d54d7b6b98cc2549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 014/228] fix: only pre-done callbacks see an unfinished result
 of a Future

Other threads calling result() while the pre-done callbacks were running were handed the result before it
was changed by them.
---
 satella/coding/concurrent/futures/futures.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 67816fa..18b2dc7 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -111,6 +111,10 @@ class Future(PythonFuture, tp.Generic[T]):
         except Exception:
             LOGGER.exception('exception calling callback for %r', self)
 
+    def _in_pre_done_callback(self) -> bool:
+        """Is it a pre-done callback that is calling us? They are called with the lock held"""
+        return self._state == PRE_FINISHED and self._condition._is_owned()
+
     def _invoke_pre_callbacks(self):
         for callback in self._pre_done_callbacks:
             # noinspection PyBroadException
@@ -120,13 +124,13 @@ class Future(PythonFuture, tp.Generic[T]):
                 LOGGER.exception('exception calling callback for %r', self)
 
     def result(self, timeout=None) -> T:
-        if self._state == PRE_FINISHED:
+        if self._in_pre_done_callback():
             return self.__get_result()
         else:
             return super().result(timeout)
 
     def exception(self, timeout=None) -> tp.Optional[Exception]:
-        if self._state == PRE_FINISHED:
+        if self._in_pre_done_callback():
             return self._exception
         else:
             return super().exception(timeout)
@@ -136,7 +140,7 @@ class Future(PythonFuture, tp.Generic[T]):
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
+        if self._in_pre_done_callback():
             self._result = result
         else:
             with self._condition:
@@ -156,7 +160,7 @@ class Future(PythonFuture, tp.Generic[T]):
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
+        if self._in_pre_done_callback():
             self._exception = exception
             self._result = None
         else:
-- 
2.43.0


From f5e50e20dd326b758b98bbc2cc468066a5e34eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 015/228] fix: Future.on_success does not call its function if
 the future was cancelled

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 18b2dc7..62f5a1e 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -50,7 +50,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
 
         def inner(fut: PythonFuture):
-            if fut._exception is not None:
+            if fut.cancelled() or fut._exception is not None:
                 return
             return fun(fut._result)
 
-- 
2.43.0


From ed221558fd5a1525f1b8ab0dd04c65e0328fc154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 016/228] fix: WrappingFuture does not miss completion or
 cancellation of its source

Source finishing while the wrapper was being constructed had its result dropped, as the wrapper was
already considered finished (or was never considered finished at all). Those waiting for a wrapper of
a future that got cancelled were never woken up, and callbacks were called before it was cancelled.
---
 satella/coding/concurrent/futures/futures.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 62f5a1e..0978419 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -190,7 +190,6 @@ class WrappingFuture(Future):
         super().__init__()
         self.source_future = source_future
         self.source_future.add_done_callback(self._on_future_completed)
-        self._old_state = source_future._state
 
     @property
     def _state(self):
@@ -207,13 +206,17 @@ class WrappingFuture(Future):
         return self.source_future.set_running_or_notify_cancel()
 
     def _on_future_completed(self, future: PythonFuture):
-        if future._exception is not None:
+        if future.cancelled():
+            with self._condition:
+                self._condition.notify_all()
+            self._invoke_callbacks()
+        elif future._exception is not None:
             self.set_exception(future._exception)
         else:
             self.set_result(future._result)
 
     def cancel(self) -> bool:
-        super().cancel()
+        # we are notified by means of _on_future_completed
         return self.source_future.cancel()
 
 
-- 
2.43.0


From 4b06c7e7e1348aa5996eacd9db209f85939e23b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 017/228] fix: futures of functions called in a thread are
 always completed

A function that raised SystemExit (or anything else that's not an Exception) left those waiting for its
future hanging forever.
---
 satella/coding/concurrent/functions.py | 2 +-
 satella/coding/concurrent/thread.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/functions.py b/satella/coding/concurrent/functions.py
index cb72b14..d7d7ec9 100644
--- a/satella/coding/concurrent/functions.py
+++ b/satella/coding/concurrent/functions.py
@@ -32,7 +32,7 @@ def run_as_future(fun):
         def separate_target():
             try:
                 fut.set_result(fun(*args, **kwargs))
-            except Exception as e:
+            except BaseException as e:
                 fut.set_exception(e)
 
         Thread(target=separate_target).start()
diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 5a35adb..9b7c35e 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -59,7 +59,7 @@ def call_in_separate_thread(*t_args, no_thread_attribute: bool = False,
                     try:
                         res = fun(*args, **kwargs)
                         self.future.set_result(res)
-                    except Exception as e:
+                    except BaseException as e:
                         self.future.set_exception(e)
 
             t = MyThread()
-- 
2.43.0


From ec66c86c8b6d91abb323be6fde751601a6fa90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 018/228] fix: SingleStartThread.start always returns the
 thread, and is a no-op if called concurrently

---
 satella/coding/concurrent/thread.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 9b7c35e..ba1ab34 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -151,6 +151,7 @@ class SingleStartThread(threading.Thread):
 
     def __init__(self, *args, **kwargs):
         self.__started = False
+        self.__start_lock = threading.Lock()
         super().__init__(*args, **kwargs)
 
     def start(self) -> 'SingleStartThread':
@@ -159,9 +160,10 @@ class SingleStartThread(threading.Thread):
 
         :return: self
         """
-        if self.__started:
-            return
-        self.__started = True
+        with self.__start_lock:
+            if self.__started:
+                return self
+            self.__started = True
         super().start()
         return self
 
-- 
2.43.0


From 29d5f81909b0db5073409951dd83f4a3fed52d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 019/228] fix: BogusTerminableThread can be joined without a
 timeout

---
 satella/coding/concurrent/thread.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index ba1ab34..2cec462 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -222,7 +222,8 @@ class BogusTerminableThread:
 
         if not self.terminated:
             started_elapsing = time.monotonic()
-            while time.monotonic() - started_elapsing < timeout and not self.terminated:
+            while not self.terminated and \
+                    (timeout is None or time.monotonic() - started_elapsing < timeout):
                 time.sleep(1)
             if not self.terminated:
                 raise WouldWaitMore('thread failed to terminate')
-- 
2.43.0


From 9edc76599a5d59cde19f5232532d961c5542c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 020/228] fix: DeferredValue can be set only once, even if it
 is done concurrently

---
 satella/coding/concurrent/value.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/value.py b/satella/coding/concurrent/value.py
index 71bd9be..a86e8d3 100644
--- a/satella/coding/concurrent/value.py
+++ b/satella/coding/concurrent/value.py
@@ -1,6 +1,6 @@
 import time
 import typing as tp
-from threading import Event
+from threading import Event, Lock
 
 from satella.coding.misc import _BLANK
 from satella.coding.typing import T
@@ -22,10 +22,11 @@ class DeferredValue(tp.Generic[T]):
     >>> val.set_value(3)
     """
 
-    __slots__ = 'val', 'lock'
+    __slots__ = 'val', 'lock', 'set_lock'
 
     def __init__(self):
         self.lock = Event()
+        self.set_lock = Lock()
         self.val = _BLANK
 
     def set_value(self, va: T) -> None:
@@ -35,9 +36,10 @@ class DeferredValue(tp.Generic[T]):
         :param va: value to set
         :raises ValueError: value is already set
         """
-        if self.val is not _BLANK:
-            raise ValueError('Value curently set!')
-        self.val = va
+        with self.set_lock:
+            if self.val is not _BLANK:
+                raise ValueError('Value curently set!')
+            self.val = va
         self.lock.set()
 
     def result(self, timeout=None) -> T:
-- 
2.43.0


From 2312096de2b0c3eda0b7757ec00cdfc3fd827830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 021/228] fix: sync_threadpool does not hang nor leave the
 workers hanging

A worker that was yet to start waiting when the others were notified waited forever, and so did
the caller. If the wait timed out, the workers that got there were never released.
---
 satella/coding/concurrent/sync.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index 5c4f5aa..42ca59c 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -1,10 +1,10 @@
+import threading
 import typing as tp
 import time
 from concurrent.futures import wait, ThreadPoolExecutor
 
 from satella.coding.concurrent.atomic import AtomicNumber
 from satella.coding.concurrent.futures import ExecutorWrapper
-from satella.coding.concurrent.thread import Condition
 from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
@@ -49,21 +49,24 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
     with measure(timeout=max_wait) as measurement:
         workers = tpe._max_workers      # pylint: disable=protected-access
         atm_n = AtomicNumber(workers)
-        cond = Condition()
+        event = threading.Event()
 
         def decrease_atm():
             nonlocal atm_n
             atm_n -= 1
-            cond.wait()
+            event.wait()
 
         futures = [tpe.submit(decrease_atm) for _ in range(workers)]
 
-        # wait for all currently scheduled jobs to be picked up
-        _while_sync_threadpool(tpe, max_wait, measurement, futures)
+        try:
+            # wait for all currently scheduled jobs to be picked up
+            _while_sync_threadpool(tpe, max_wait, measurement, futures)
 
-        if max_wait is None:
-            atm_n.wait_until_equal(0)
-        else:
-            _max_wait_atm_n(measurement, max_wait, atm_n)
-        cond.notify_all()
+            if max_wait is None:
+                atm_n.wait_until_equal(0)
+            else:
+                _max_wait_atm_n(measurement, max_wait, atm_n)
+        finally:
+            # release the workers also if we've timed out
+            event.set()
         wait(futures)
-- 
2.43.0


From fdf75ac2834e1d107194e1af329271a58c2ec99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 022/228] fix: SetHeap keeps its elements unique

Elements were duplicated if the initial list or the result of filter_map had duplicates, and an element
popped with pop_item was considered still present, so it could not be pushed again.
---
 satella/coding/structures/heaps/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/heaps/base.py b/satella/coding/structures/heaps/base.py
index 41c5da1..1974d9d 100644
--- a/satella/coding/structures/heaps/base.py
+++ b/satella/coding/structures/heaps/base.py
@@ -153,8 +153,13 @@ class SetHeap(Heap):
             self.push(item)
 
     def __init__(self, from_list: tp.Optional[tp.Iterable[T]] = None):
-        super().__init__(from_list=from_list)
-        self.set = set(self.data)
+        self.set = set(from_list or ())
+        super().__init__(from_list=self.set)
+
+    def pop_item(self, item: T) -> T:
+        super().pop_item(item)
+        self.set.remove(item)
+        return item
 
     def push(self, item: T):
         if item not in self.set:
@@ -173,3 +178,6 @@ class SetHeap(Heap):
                    map_fun: tp.Optional[tp.Callable[[T], tp.Any]] = None):
         super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
         self.set = set(self.data)
+        if len(self.set) != len(self.data):
+            self.data = list(self.set)
+            heapq.heapify(self.data)
-- 
2.43.0


From 5247032fdd90886cba0c23babe78b272884cc43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 023/228] fix: TimeBasedHeap.get_timestamp looks for the item,
 and not for the item's second element

---
 satella/coding/structures/heaps/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index fd65ad8..66512df 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -64,7 +64,7 @@ class TimeBasedHeap(Heap):
         Return the timestamp for given item
         """
         for ts, elem in self.data:
-            if elem[1] == item:
+            if elem == item:
                 return ts
 
     def pop_item(self, item: T) -> tp.Tuple[Number, T]:
-- 
2.43.0


From 4ea5ac1dc6e2731b8e87fb7a6ebbd2587cc6d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 024/228] fix: TimeBasedSetHeap tracks its items in remove,
 filter_map and push_many

Items that were removed still had a timestamp and could not be put again, and those added by push_many
were not known at all.
---
 satella/coding/structures/heaps/time.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 66512df..795597f 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -4,7 +4,7 @@ import typing as tp
 
 from satella.coding.recast_exceptions import rethrow_as
 from satella.coding.structures.heaps.base import Heap
-from satella.coding.typing import T, Number, NoArgCallable
+from satella.coding.typing import T, Number, NoArgCallable, Predicate
 
 
 class TimeBasedHeap(Heap):
@@ -269,3 +269,13 @@ class TimeBasedSetHeap(Heap):
         Remove all things equal to item
         """
         self.filter_map(filter_fun=lambda i: i[1] != item)
+
+    def push_many(self, items: tp.Iterable[tp.Tuple[Number, T]]) -> None:
+        for item in items:
+            self.push(item)
+
+    def filter_map(self, filter_fun: tp.Optional[Predicate[tp.Tuple[Number, T]]] = None,
+                   map_fun: tp.Optional[tp.Callable] = None):
+        super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
+        items, self.data, self.item_to_timestamp = self.data, [], {}
+        self.push_many(items)
-- 
2.43.0


From 6565a875b998581267fd1be4ad50a57cbcc7b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 025/228] fix: time based heaps accept items that can't be
 compared with each other

Putting two items with the same timestamp raised TypeError, which Timers are prone to.
---
 satella/coding/structures/heaps/time.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 795597f..8db95d1 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -7,6 +7,14 @@ from satella.coding.structures.heaps.base import Heap
 from satella.coding.typing import T, Number, NoArgCallable, Predicate
 
 
+class _Entry(tuple):
+    """A (timestamp, item) that is ordered solely by its timestamp, as items need not be comparable"""
+    __slots__ = ()
+
+    def __lt__(self, other) -> bool:
+        return self[0] < other[0]
+
+
 class TimeBasedHeap(Heap):
     """
     A heap of items sorted by timestamps.
@@ -95,7 +103,7 @@ class TimeBasedHeap(Heap):
             timestamp, item = timestamp_or_value, value
 
         assert timestamp is not None
-        self.push((timestamp, item))
+        self.push(_Entry((timestamp, item)))
 
     def peek_closest(self) -> tp.Tuple[Number, T]:
         """
@@ -242,7 +250,7 @@ class TimeBasedSetHeap(Heap):
             timestamp, item = timestamp_or_value, value
 
         assert timestamp is not None
-        self.push((timestamp, item))
+        self.push(_Entry((timestamp, item)))
 
     def pop_less_than(self, less: tp.Optional[Number] = None) -> tp.Iterator[tp.Tuple[Number, T]]:
         """
-- 
2.43.0


From 9cb916bffda39759548553c82fbf118d7ea183d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 026/228] fix: copies of time based heaps keep the items and
 the clock source

copy() passed the items to a constructor that takes the clock source.
---
 satella/coding/structures/heaps/time.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 8db95d1..6e54f4c 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -1,3 +1,4 @@
+import copy
 import heapq
 import time
 import typing as tp
@@ -54,6 +55,16 @@ class TimeBasedHeap(Heap):
         self.default_clock_source = default_clock_source
         super().__init__(from_list=())
 
+    def __copy__(self) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(self.data)
+        return heap
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(copy.deepcopy(self.data, memo=memo))
+        return heap
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Get first item with given timestamp, while maintaining the heap invariant
@@ -194,6 +205,16 @@ class TimeBasedSetHeap(Heap):
         super().__init__(from_list=())
         self.item_to_timestamp = {}
 
+    def __copy__(self) -> 'TimeBasedSetHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(self.data)
+        return heap
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedSetHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(copy.deepcopy(self.data, memo=memo))
+        return heap
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Pop an arbitary object (in case there's two) item with given timestamp,
-- 
2.43.0


From 7058bd6c7c5f0c67064ef5d8f44d93787aadd90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 027/228] fix: Subqueue.qsize and get_any do not fail when a
 queue is created concurrently

---
 satella/coding/structures/queues.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/queues.py b/satella/coding/structures/queues.py
index 0fd9018..8d50094 100644
--- a/satella/coding/structures/queues.py
+++ b/satella/coding/structures/queues.py
@@ -40,7 +40,7 @@ class Subqueue(tp.Generic[T]):
 
     def qsize(self) -> int:
         """Calculate the total of entries"""
-        return sum(que.qsize() for que in self.subqueues.values())
+        return sum(que.qsize() for que in list(self.subqueues.values()))
 
     def get_any(self) -> tp.Tuple[str, T]:
         """
@@ -51,7 +51,7 @@ class Subqueue(tp.Generic[T]):
         :return: a tuple of (queue_name, object)
         :raises: queue.Empty()
         """
-        for queue_name, q in self.subqueues.items():
+        for queue_name, q in list(self.subqueues.items()):
             with silence_excs(queue.Empty):
                 return queue_name, q.get(block=False)
         else:
-- 
2.43.0


From afeb366778621bb19682c465d740c8ba3c6bbf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:51 +0000
Subject: [PATCH 028/228] fix: PeekableQueue wakes up all of its waiters

A notification given to a waiter whose timeout was just expiring, or to one that only peeks, was lost for
the others.
---
 satella/coding/concurrent/queue.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/satella/coding/concurrent/queue.py b/satella/coding/concurrent/queue.py
index 85c92c5..6532bfa 100644
--- a/satella/coding/concurrent/queue.py
+++ b/satella/coding/concurrent/queue.py
@@ -29,7 +29,7 @@ class PeekableQueue(tp.Generic[T]):
         """
         with self.lock:
             self.queue.append(item)
-        self.inserted_condition.notify()
+        self.inserted_condition.notify_all()
 
     def put_many(self, items: tp.Sequence[T]) -> None:
         """
@@ -38,11 +38,9 @@ class PeekableQueue(tp.Generic[T]):
         :param items: sequence of items to put
         """
         with self.lock:
-            items_count = 0
             for item in items:
-                items_count += 1
                 self.queue.append(item)
-        self.inserted_condition.notify(items_count)
+        self.inserted_condition.notify_all()
 
     @rethrow_as(WouldWaitMore, Empty)
     def __get(self, timeout, item_getter) -> T:
@@ -50,12 +48,7 @@ class PeekableQueue(tp.Generic[T]):
             while not self.queue:
                 # raises WouldWaitMore
                 self.inserted_condition.wait(timeout=measurement.time_remaining)
-            try:
-                return item_getter(self.queue)
-            finally:
-                if self.queue:
-                    # there's still something left for the other waiters
-                    self.inserted_condition.notify()
+            return item_getter(self.queue)
 
     def get(self, timeout: tp.Optional[float] = None) -> T:
         """
-- 
2.43.0


From 593c07a68fe77c0790db20bf7a3937e346ecc71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:52 +0000
Subject: [PATCH 029/228] fix: WrappingFuture is not considered finished before
 it obtains the result

State of the source was read twice, so if it finished between the reads, waiters were handed None.
---
 satella/coding/concurrent/futures/futures.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 0978419..e988eff 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -193,10 +193,8 @@ class WrappingFuture(Future):
 
     @property
     def _state(self):
-        if self.source_future._state == FINISHED:
-            return self._old_state
-        else:
-            return self.source_future._state
+        state = self.source_future._state       # read it once, as it can change in the meantime
+        return self._old_state if state == FINISHED else state
 
     @_state.setter
     def _state(self, v: str):
-- 
2.43.0


From d0dc4b25855e7c35dec4674b77b2655e37c8145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:52 +0000
Subject: [PATCH 030/228] fix: sync_threadpool does not hang if the executor
 did not start all of its workers

ThreadPoolExecutor's count of idle workers can be too high, in which case it does not start a thread for
a task that is submitted, and as the existing threads were already waiting, nobody would ever pick it up.
---
 satella/coding/concurrent/sync.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index 42ca59c..2fc8224 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -16,6 +16,9 @@ def _while_sync_threadpool(tpe, max_wait, measurement, futures):
                 for future in futures:
                     future.cancel()
                 raise WouldWaitMore('timeout exceeded')
+        # the executor might have counted a worker as idle when it no longer was, and not start another one
+        with tpe._shutdown_lock:            # pylint: disable=protected-access
+            tpe._adjust_thread_count()      # pylint: disable=protected-access
         time.sleep(0.5)
 
 
-- 
2.43.0


From a00d754ff5c924bc3c8a69f1cdf8444c00dc8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:23 +0000
Subject: [PATCH 031/228] fix: Condition.notify_all does not deadlock if the
 condition was built with a plain lock

---
 satella/coding/concurrent/thread.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 2cec462..deb3055 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -131,7 +131,8 @@ class Condition(PythonCondition):
         Notify all threads waiting on this Condition
         """
         with self._lock:
-            super().notify_all()
+            # super().notify_all() would call the overridden notify(), and thus lock for the second time
+            super().notify(len(self._waiters))
 
     def notify(self, n: int = 1) -> None:
         """
-- 
2.43.0


From 0fda39ceb3ae638f8a9f39308de4f5799f08525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:20 +0000
Subject: [PATCH 032/228] fix: singletons are built once, also if multiple
 threads do it or the constructor fails

Threads racing for the first instance could get different instances, or an instance whose constructor
has not finished yet. An instance whose constructor has failed was returned to everyone who asked later.
---
 satella/coding/structures/singleton.py | 55 ++++++++++++++++----------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/satella/coding/structures/singleton.py b/satella/coding/structures/singleton.py
index 1744c96..48f0cbe 100644
--- a/satella/coding/structures/singleton.py
+++ b/satella/coding/structures/singleton.py
@@ -1,3 +1,4 @@
+import threading
 import typing as tp
 import weakref
 
@@ -17,17 +18,23 @@ def Singleton(cls):
     """
 
     cls.__new_old__ = cls.__new__
+    lock = threading.RLock()
 
     @wraps(cls.__new__)
     def singleton_new(cls, *args, **kw):
-        it = cls.__dict__.get('__it__')
-        if it is not None:
+        with lock:
+            it = cls.__dict__.get('__it__')
+            if it is not None:
+                return it
+
+            cls.__it__ = it = cls.__new_old__(cls)
+            try:
+                it.__init_old__(*args, **kw)
+            except BaseException:
+                del cls.__it__
+                raise
             return it
 
-        cls.__it__ = it = cls.__new_old__(cls)
-        it.__init_old__(*args, **kw)
-        return it
-
     cls.__new__ = singleton_new
     cls.__init_old__ = cls.__init__
     cls.__init__ = wraps(cls.__init__)(
@@ -68,23 +75,31 @@ def SingletonWithRegardsTo(num_args: int, weak_refs: bool = False):
     def inner(cls):
 
         cls.__new_old__ = cls.__new__
+        lock = threading.RLock()
 
         @wraps(cls.__new__)
         def singleton_new(cls, *args, **kw):
-            it = cls.__dict__.get('__it__')
-            if it is None:
-                if weak_refs:
-                    it = cls.__it__ = weakref.WeakValueDictionary()
-                else:
-                    it = cls.__it__ = {}
-
-            key = args[:num_args]
-            if key in it:
-                return it[key]
-
-            inst = it[key] = cls.__new_old__(cls)
-            inst.__init_old__(*args, **kw)
-            return inst
+            with lock:
+                it = cls.__dict__.get('__it__')
+                if it is None:
+                    if weak_refs:
+                        it = cls.__it__ = weakref.WeakValueDictionary()
+                    else:
+                        it = cls.__it__ = {}
+
+                key = args[:num_args]
+                try:
+                    return it[key]
+                except KeyError:
+                    pass
+
+                inst = it[key] = cls.__new_old__(cls)
+                try:
+                    inst.__init_old__(*args, **kw)
+                except BaseException:
+                    it.pop(key, None)
+                    raise
+                return inst
 
         cls.__new__ = singleton_new
         cls.__init_old__ = cls.__init__
-- 
2.43.0


From 08cef04b9ce1e783c5a143b549ff8f275162683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:26 +0000
Subject: [PATCH 033/228] fix: CallableGroup can have callables added while it
 is removing the cancelled ones

---
 satella/coding/concurrent/callablegroup.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 1d240f6..eae50f5 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -2,7 +2,6 @@ import math
 import time
 import typing as tp
 
-from satella.coding.deleters import DictDeleter
 from satella.coding.typing import T, NoArgCallable
 
 
@@ -117,10 +116,9 @@ class CallableGroup(tp.Generic[T]):
         """
         Remove it's entries that are CancelledCallbacks and that were cancelled
         """
-        with DictDeleter(self.callables) as dd:
-            for callable_ in dd:
-                if isinstance(callable_, CancellableCallback) and not callable_:
-                    dd.delete()
+        for callable_ in list(self.callables):
+            if callable_.cancelled:
+                self.callables.pop(callable_, None)
 
     def add(self, callable_: tp.Union[CancellableCallback, NoArgCallable[T]],
             one_shot: bool = False) -> CancellableCallback:
-- 
2.43.0


From 82a9dc94d007199e2753eb993177e6ec63d3a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:59 +0000
Subject: [PATCH 034/228] fix: expiring dictionaries can be used while they are
 acquired

Documentation recommends to acquire them before iterating, and this caused a deadlock
---
 satella/coding/structures/dictionaries/expiring.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 4d4e8ce..fdafc4d 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -4,7 +4,7 @@ import typing as tp
 import weakref
 from abc import ABCMeta, abstractmethod
 
-from satella.coding.concurrent.monitor import Monitor
+from satella.coding.concurrent.monitor import Monitor, RMonitor
 from satella.coding.recast_exceptions import rethrow_as, silence_excs
 from satella.coding.structures.heaps import TimeBasedSetHeap
 from satella.coding.structures.singleton import Singleton
@@ -58,7 +58,7 @@ class ExpiringEntryDictThread(threading.Thread, Monitor):
         self.start()
 
 
-class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class SelfCleaningDefaultDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A defaultdict with the property that if it detects that a value is equal to it's default value,
     it will automatically remove it from the dict.
@@ -136,7 +136,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
                 del self.data[key]
 
 
-class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A dictionary whose entries expire automatically after a predefined period of time.
 
-- 
2.43.0


From 1371b163ae8ba3a480ff19a4cfdd677930fc1baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:59 +0000
Subject: [PATCH 035/228] fix: reading an expired entry does not break the
 ExpiringEntryDict

The entry was left in the expiration heap, so the next cleanup raised KeyError, killing the background thread
if it was the one to do it. Also, deleting a nonexistent key raised a ValueError.
---
 satella/coding/structures/dictionaries/expiring.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index fdafc4d..ee18a9d 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -176,6 +176,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
         for key, value in dct.items():
             self[key] = value
 
+    @Monitor.synchronized
     def __contains__(self, item) -> bool:
         try:
             ts = self.key_to_expiration_time.item_to_timestamp[item]
@@ -211,16 +212,18 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
         self.key_to_expiration_time.put(self.time_getter() + self.expiration_timeout, key)
         self.data[key] = value
 
+    @Monitor.synchronized
     @rethrow_as(ValueError, KeyError)
     def __getitem__(self, item: K) -> V:
         ts = self.key_to_expiration_time.get_timestamp(item)
         if ts < self.time_getter():
-            del self.data[item]
+            del self[item]
             raise KeyError('Entry expired')
 
         return self.data[item]
 
     @Monitor.synchronized
+    @rethrow_as(ValueError, KeyError)
     def __delitem__(self, key: K) -> None:
         self.key_to_expiration_time.pop_item(key)
         del self.data[key]
-- 
2.43.0


From 6c8cdc6f8bdb33aa8e18f397f0197d6b391a162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:59 +0000
Subject: [PATCH 036/228] fix: None can be a key in ExpiringEntryDict

---
 satella/coding/structures/dictionaries/expiring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index ee18a9d..bbb6e32 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -7,6 +7,7 @@ from abc import ABCMeta, abstractmethod
 from satella.coding.concurrent.monitor import Monitor, RMonitor
 from satella.coding.recast_exceptions import rethrow_as, silence_excs
 from satella.coding.structures.heaps import TimeBasedSetHeap
+from satella.coding.structures.heaps.time import _Entry
 from satella.coding.structures.singleton import Singleton
 from satella.coding.typing import K, V, NoArgCallable
 
@@ -209,7 +210,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
 
     @Monitor.synchronized
     def __setitem__(self, key: K, value: V) -> None:
-        self.key_to_expiration_time.put(self.time_getter() + self.expiration_timeout, key)
+        self.key_to_expiration_time.push(_Entry((self.time_getter() + self.expiration_timeout, key)))
         self.data[key] = value
 
     @Monitor.synchronized
-- 
2.43.0


From be393f9950660f83b7395081ddcde962ab7fa7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:59 +0000
Subject: [PATCH 037/228] fix: SelfCleaningDefaultDict can be iterated over and
 checked for membership

It was always empty when iterated, and contained every possible key
---
 satella/coding/structures/dictionaries/expiring.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index bbb6e32..9c3a194 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -100,8 +100,17 @@ class SelfCleaningDefaultDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
 
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-        return super().__iter__()
+        return iter(self.data)
+
+    @Monitor.synchronized
+    def __contains__(self, item: K) -> bool:
+        return item in self.data and self.data[item] != self.default_value
 
+    def get(self, key: K, default=None):
+        with Monitor.acquire(self):
+            return self[key] if key in self else default
+
+    @Monitor.synchronized
     def __delitem__(self, key: K) -> None:
         if key in self.data:
             del self.data[key]
-- 
2.43.0


From 37af7d3de5c646f6aa384d728bafa4f37c9e5b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:58 +0000
Subject: [PATCH 038/228] fix: CacheDict uses the time_getter it was given to
 tell stale and expired values

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 89cedc6..74673a7 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -217,7 +217,7 @@ class CacheDict(tp.Mapping[K, V]):
             return self.get_value_block(key)
 
         timestamp = self.timestamp_data[key]
-        now = time.monotonic()
+        now = self.time_getter()
 
         if key in self.cache_missed:
             return self._on_cache_hit_empty(key, timestamp, now)
-- 
2.43.0


From 7298da0650e0a1a4cb6edfffe07fcbee173afb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:58 +0000
Subject: [PATCH 039/228] fix: CacheDict serves the values that it was fed

Zero was not recognized as a timestamp, and a value was not served if a failure was cached for that key
---
 satella/coding/structures/dictionaries/cache_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 74673a7..e1a94c4 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -92,7 +92,8 @@ class CacheDict(tp.Mapping[K, V]):
         Feed this data into the cache
         """
         self.data[key] = value
-        self.timestamp_data[key] = timestamp or self.time_getter()
+        self.timestamp_data[key] = self.time_getter() if timestamp is None else timestamp
+        self.cache_missed.discard(key)
 
     def has_info_about(self, key: K) -> bool:
         """
-- 
2.43.0


From 1fecde0b9310f8812303c6a038c490c61ea0ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:58 +0000
Subject: [PATCH 040/228] fix: CacheDict can invalidate a cached failure, and
 knows how long it is cached

invalidate() left cached failures intact. has_info_about() took the expiration interval for how long failures are cached.
---
 .../coding/structures/dictionaries/cache_dict.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index e1a94c4..ea5ce99 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -111,7 +111,7 @@ class CacheDict(tp.Mapping[K, V]):
         if self.cache_failures:
             if key in self.cache_missed:
                 try:
-                    v = self.time_getter() - self.timestamp_data[key] <= self.expiration_interval
+                    v = self.time_getter() - self.timestamp_data[key] <= self.cache_failures_interval
                 except KeyError:
                     v = False
                 return v
@@ -189,19 +189,13 @@ class CacheDict(tp.Mapping[K, V]):
         future.add_done_callback(on_done_callback)
         return future
 
-    @silence_excs(KeyError)
     def invalidate(self, key: K) -> None:
         """
-        Remove all information about given key from the cache
-
-        Syntactic sugar for:
-
-        >>> try:
-        >>>   del self[key]
-        >>> except KeyError:
-        >>>   pass
+        Remove all information about given key from the cache. This includes cached failures.
         """
-        del self[key]
+        self.data.pop(key, None)
+        self.timestamp_data.pop(key, None)
+        self.cache_missed.discard(key)
 
     def _on_cache_hit_empty(self, key: K, timestamp: float, now: float) -> V:
         if key in self.cache_missed:
-- 
2.43.0


From 373dd399171d05350abd574fbb06720a3a57994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:58 +0000
Subject: [PATCH 041/228] fix: CacheDict does not make up results if an entry
 is removed concurrently

It could raise a KeyError or return None even if value_getter could provide the value
---
 .../structures/dictionaries/cache_dict.py     | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index ea5ce99..f88732a 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -166,8 +166,8 @@ class CacheDict(tp.Mapping[K, V]):
         """
         self.invalidate(key)
         if self.cache_failures:
-            self.cache_missed.add(key)
             self.timestamp_data[key] = self.time_getter()
+            self.cache_missed.add(key)
 
     def schedule_a_fetch(self, key: K) -> Future:
         """
@@ -198,20 +198,22 @@ class CacheDict(tp.Mapping[K, V]):
         self.cache_missed.discard(key)
 
     def _on_cache_hit_empty(self, key: K, timestamp: float, now: float) -> V:
-        if key in self.cache_missed:
-            if now - timestamp > self.cache_failures_interval:
-                return self.get_value_block(key)
+        if now - timestamp > self.cache_failures_interval:
+            return self.get_value_block(key)
+        else:
+            if self.default_value_factory:
+                return self.default_value_factory()
             else:
-                if self.default_value_factory:
-                    return self.default_value_factory()
-                else:
-                    raise KeyError('Cached a miss')
+                raise KeyError('Cached a miss')
 
     def __getitem__(self, key: K) -> V:
         if key not in self.data and key not in self.cache_missed:
             return self.get_value_block(key)
 
-        timestamp = self.timestamp_data[key]
+        try:
+            timestamp = self.timestamp_data[key]
+        except KeyError:    # removed in the meantime by another thread
+            return self.get_value_block(key)
         now = self.time_getter()
 
         if key in self.cache_missed:
@@ -222,11 +224,13 @@ class CacheDict(tp.Mapping[K, V]):
     def _on_cache_hit(self, key: K, timestamp: float, now: float) -> V:
         if now - timestamp > self.expiration_interval:
             return self.get_value_block(key)
-        elif now - timestamp > self.stale_interval:
+        try:
+            value = self.data[key]
+        except KeyError:    # removed in the meantime by another thread
+            return self.get_value_block(key)
+        if now - timestamp > self.stale_interval:
             self.schedule_a_fetch(key)
-            return self.data[key]
-        else:
-            return self.data[key]
+        return value
 
     def __delitem__(self, key: K) -> None:
         del self.data[key]
-- 
2.43.0


From 23e478f1bef1a2bd8b7bc67f1fbf1ef42d3daceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:58 +0000
Subject: [PATCH 042/228] fix: LRUCacheDict evicts only when it has to and
 never exceeds its size

Refreshing a value that was already cached has evicted other value. Keys that were not in the cache were tracked
as used, and concurrent insertions could exceed the size or hang.
---
 .../structures/dictionaries/cache_dict.py     | 44 +++++++++++--------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index f88732a..a55f05b 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -1,4 +1,5 @@
 import logging
+import threading
 import time
 import typing as tp
 from concurrent.futures import ThreadPoolExecutor, Executor, Future
@@ -260,6 +261,8 @@ class LRUCacheDict(CacheDict[K, V]):
         assert max_size > 0, 'Too small max_size!'
         self.max_size = max_size
         self.lru = LRU()
+        # values arrive from the executor's threads
+        self.lru_lock = threading.RLock()
 
     def make_room(self) -> None:
         """
@@ -270,8 +273,9 @@ class LRUCacheDict(CacheDict[K, V]):
 
     @silence_excs(KeyError)
     def evict(self):
-        key = self.lru.get_item_to_evict()
-        self.invalidate(key)
+        with self.lru_lock:
+            key = self.lru.get_item_to_evict()
+            self.invalidate(key)
 
     @silence_excs(KeyError)
     def invalidate(self, key: K) -> None:
@@ -285,35 +289,37 @@ class LRUCacheDict(CacheDict[K, V]):
         >>> except KeyError:
         >>>   pass
         """
-        super().invalidate(key)
-        self.lru.remove(key)
+        with self.lru_lock:
+            super().invalidate(key)
+            self.lru.remove(key)
 
     def __getitem__(self, key: K) -> V:
-        self.lru.mark_as_used(key)
+        with self.lru_lock:
+            if key in self.data:
+                self.lru.mark_as_used(key)
         return super().__getitem__(key)
 
-    def get_value_block(self, key: K) -> V:
-        v = super().get_value_block(key)
-        self.lru.add(key)
-        return v
-
     def __delitem__(self, key: K) -> None:
-        super().__delitem__(key)
-        self.lru.remove(key)
+        with self.lru_lock:
+            super().__delitem__(key)
+            self.lru.remove(key)
 
     def feed(self, key: K, value: V, timestamp: tp.Optional[float] = None):
         """
         Feed this data into the cache
         """
-        if key not in self.data:
-            self.make_room()
-        super().feed(key, value, timestamp)
-        self.lru.add(key)
+        with self.lru_lock:
+            if key not in self.data:
+                self.make_room()
+            super().feed(key, value, timestamp)
+            self.lru.mark_as_used(key)
 
     def __setitem__(self, key: K, value: V) -> None:
         """
         Store a value with current timestamp
         """
-        self.make_room()
-        self.lru.mark_as_used(key)
-        super().__setitem__(key, value)
+        with self.lru_lock:
+            if key not in self.data:
+                self.make_room()
+            self.lru.mark_as_used(key)
+            super().__setitem__(key, value)
-- 
2.43.0


From 560a74caf56b866b8a0a54423019f29d88e30ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:09 +0000
Subject: [PATCH 043/228] fix: cache_memoize distinguishes calls by their
 keyword arguments

It returned a value computed for different keyword arguments
---
 satella/coding/decorators/decorators.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index a896e9a..33d8a62 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -165,22 +165,23 @@ def cache_memoize(cache_duration: float, time_getter: tp.Callable[[], float] = t
         def inner(*args, **kwargs):
 
             now = time_getter()
+            key = (args, tuple(sorted(kwargs.items()))) if kwargs else args
 
             with Monitor.acquire(fun.memoize_timestamps):
-                if args in fun.memoize_timestamps:
-                    ts = fun.memoize_timestamps[args]
+                if key in fun.memoize_timestamps:
+                    ts = fun.memoize_timestamps[key]
                     if now - ts > cache_duration:
                         with Monitor.release(fun.memoize_timestamps):
                             v = fun(*args, **kwargs)
-                        fun.memoize_timestamps[args] = now
-                        fun.memoize_values[args] = v
+                        fun.memoize_timestamps[key] = now
+                        fun.memoize_values[key] = v
                 else:
                     with Monitor.release(fun.memoize_timestamps):
                         v = fun(*args, **kwargs)
-                    fun.memoize_timestamps[args] = now
-                    fun.memoize_values[args] = v
+                    fun.memoize_timestamps[key] = now
+                    fun.memoize_values[key] = v
 
-                return fun.memoize_values[args]
+                return fun.memoize_values[key]
 
         return inner
 
-- 
2.43.0


From 7bd6f0092512eeb13a3f320e4c2a480c4a675c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:32 +0000
Subject: [PATCH 044/228] fix: ExclusiveWritebackCache executes operations on a
 key in order

Since they were executed by multiple workers, a later write could be overwritten by an earlier one, and
a value that was deleted could be read again
---
 .../dictionaries/writeback_cache.py           | 64 +++++++++++++++----
 1 file changed, 51 insertions(+), 13 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 8a662e6..d236cb4 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -1,10 +1,10 @@
+import collections
 import time
 import typing as tp
 from concurrent.futures import Executor, ThreadPoolExecutor, ProcessPoolExecutor
 
 from satella.coding.concurrent.monitor import Monitor
 from satella.coding.concurrent.sync import sync_threadpool
-from satella.coding.recast_exceptions import silence_excs
 from satella.coding.typing import V, K
 
 
@@ -27,7 +27,7 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     """
     __slots__ = ('executor', 'read_method', 'write_method', 'delete_method',
                  'no_concurrent_executors', 'in_cache', 'cache_lock',
-                 'cache', 'operations', 'store_key_errors')
+                 'cache', 'operations', 'store_key_errors', 'waiting')
 
     def __init__(self, write_method: tp.Callable[[K, V], None],
                  read_method: tp.Callable[[K], V],
@@ -49,18 +49,52 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         self.cache_lock = Monitor()
         self.cache = {}
         self.operations = 0
+        # keys that are being written back, and what's left to be executed for them.
+        # Operations on a single key are executed one after another
+        self.waiting = {}  # type: tp.Dict[K, collections.deque]
 
     def get_queue_length(self) -> int:
         """
         Return current amount of entries waiting for writeback
         """
+        with self.cache_lock:
+            queued = sum(map(len, self.waiting.values()))
         # noinspection PyProtectedMember
         if isinstance(self.executor, ThreadPoolExecutor):
-            return self.executor._work_queue.qsize()
+            return queued + self.executor._work_queue.qsize()
         elif isinstance(self.executor, ProcessPoolExecutor):
-            return self.executor._call_queue.qsize()
+            return queued + self.executor._call_queue.qsize()
         else:
-            return 0
+            return queued
+
+    def _enqueue(self, key: K, method: tp.Callable, *args) -> bool:
+        """
+        Order an operation to be executed after all of previous operations on this key. To be called with the lock held.
+
+        :return: whether _execute_next needs to be called, after the lock is released
+        """
+        operations = self.waiting.get(key)
+        if operations is not None:
+            operations.append((method, args))
+            return False
+        self.waiting[key] = collections.deque([(method, args)])
+        return True
+
+    def _execute_next(self, key: K) -> None:
+        with self.cache_lock:
+            if not self.waiting[key]:
+                del self.waiting[key]
+                return
+            method, args = self.waiting[key].popleft()
+        try:
+            future = self.executor.submit(method, *args)
+        except RuntimeError:  # the executor is shutting down, but it has accepted the task before
+            try:
+                method(*args)
+            finally:
+                self._execute_next(key)
+        else:
+            future.add_done_callback(lambda fut: self._execute_next(key))
 
     def sync(self, timeout: tp.Optional[float] = None) -> None:
         """
@@ -69,6 +103,8 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         :param timeout: timeout to wait. None means wait indefinitely.
         :raises WouldWaitMore: if timeout has expired
         """
+        while self.waiting:
+            time.sleep(0.1)
         while self.get_queue_length() > 0:
             time.sleep(0.1)
 
@@ -81,7 +117,7 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         self.operations += 1
         if self.operations > 100:
             with self.cache_lock:
-                self.in_cache = set(self.cache.keys())
+                self.in_cache = set(self.cache) | set(self.waiting)
                 self.operations = 0
 
     def __getitem__(self, item: K) -> V:
@@ -107,17 +143,19 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     def __delitem__(self, key: K) -> None:
         if self.delete_method is None:
             raise TypeError('Cannot delete from this writeback cache!')
-        if self.store_key_errors:
-            with self.cache_lock:
-                self.in_cache.add(key)
-        with silence_excs(KeyError):
-            del self.cache[key]
-        self.executor.submit(self.delete_method, key)
+        with self.cache_lock:
+            self.in_cache.add(key)
+            self.cache.pop(key, None)
+            start = self._enqueue(key, self.delete_method, key)
+        if start:
+            self._execute_next(key)
         self._operate()
 
     def __setitem__(self, key: K, value: V) -> None:
         with self.cache_lock:
             self.cache[key] = value
             self.in_cache.add(key)
-        self.executor.submit(self.write_method, key, value)
+            start = self._enqueue(key, self.write_method, key, value)
+        if start:
+            self._execute_next(key)
         self._operate()
-- 
2.43.0


From 24c2bdb7f6f2d56a233819cc7c9d449594624495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:32 +0000
Subject: [PATCH 045/228] fix: reading from ExclusiveWritebackCache does not
 undo a concurrent write

A value read from the storage replaced one that was written in the meantime
---
 .../dictionaries/writeback_cache.py           | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index d236cb4..65e53d7 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -126,19 +126,17 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
             try:
                 value = self.executor.submit(self.read_method, item).result()
                 with self.cache_lock:
-                    self.in_cache.add(item)
-                    self.cache[item] = value
-                return value
-            except KeyError:
-                if self.store_key_errors:
-                    with self.cache_lock:
+                    if item not in self.in_cache:
                         self.in_cache.add(item)
-                raise
-        else:
-            if item not in self.cache and self.store_key_errors:
-                raise KeyError()
-            else:
-                return self.cache[item]
+                        self.cache[item] = value
+            except KeyError:
+                with self.cache_lock:
+                    if item not in self.in_cache:
+                        if self.store_key_errors:
+                            self.in_cache.add(item)
+                        raise
+        # this might have been written to or deleted while it was being read
+        return self.cache[item]
 
     def __delitem__(self, key: K) -> None:
         if self.delete_method is None:
-- 
2.43.0


From 1271a488ec9f7beff38677472e3297460c542944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:32 +0000
Subject: [PATCH 046/228] fix: ExclusiveWritebackCache.sync honors its timeout

---
 .../structures/dictionaries/writeback_cache.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 65e53d7..b3f6d6b 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -6,6 +6,8 @@ from concurrent.futures import Executor, ThreadPoolExecutor, ProcessPoolExecutor
 from satella.coding.concurrent.monitor import Monitor
 from satella.coding.concurrent.sync import sync_threadpool
 from satella.coding.typing import V, K
+from satella.exceptions import WouldWaitMore
+from satella.time import measure
 
 
 class ExclusiveWritebackCache(tp.Generic[K, V]):
@@ -103,15 +105,13 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         :param timeout: timeout to wait. None means wait indefinitely.
         :raises WouldWaitMore: if timeout has expired
         """
-        while self.waiting:
-            time.sleep(0.1)
-        while self.get_queue_length() > 0:
-            time.sleep(0.1)
+        with measure(timeout=timeout) as measurement:
+            while self.waiting or self.get_queue_length() > 0:
+                if timeout is not None and measurement.timeouted:
+                    raise WouldWaitMore('timeout has expired')
+                time.sleep(0.1)
 
-        def fix():
-            return
-
-        sync_threadpool(self.executor, max_wait=timeout)
+            sync_threadpool(self.executor, max_wait=measurement.time_remaining if timeout is not None else None)
 
     def _operate(self):
         self.operations += 1
-- 
2.43.0


From e0ce3e62b892fc3120262b353964531ff26a9493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:32 +0000
Subject: [PATCH 047/228] fix: MetrifiedExclusiveWritebackCache reports the
 number of entries waiting

The metric was given a number instead of a callable
---
 satella/instrumentation/metrics/structures/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/cache_dict.py b/satella/instrumentation/metrics/structures/cache_dict.py
index f1b1d46..8558409 100644
--- a/satella/instrumentation/metrics/structures/cache_dict.py
+++ b/satella/instrumentation/metrics/structures/cache_dict.py
@@ -136,7 +136,7 @@ class MetrifiedExclusiveWritebackCache(ExclusiveWritebackCache[K, V]):
         self.cache_miss = cache_miss
         self.cache_hits = cache_hits
         if entries_waiting is not None:
-            entries_waiting.callable = self.get_queue_length()
+            entries_waiting.callable = self.get_queue_length
 
     def __getitem__(self, item):
         if item in self.in_cache:
-- 
2.43.0


From db3e8eba4b43875f17c7d5295a85e616360e776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:54 +0000
Subject: [PATCH 048/228] fix: ExclusiveWritebackCache - a concurrent reader
 could get a KeyError for a key just being cached

---
 satella/coding/structures/dictionaries/writeback_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index b3f6d6b..a819918 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -127,8 +127,8 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
                 value = self.executor.submit(self.read_method, item).result()
                 with self.cache_lock:
                     if item not in self.in_cache:
-                        self.in_cache.add(item)
                         self.cache[item] = value
+                        self.in_cache.add(item)
             except KeyError:
                 with self.cache_lock:
                     if item not in self.in_cache:
-- 
2.43.0


From d14354141d70309a4d24bf422e1f8a4f421658ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 049/228] fix: SparseMatrix.__bool__ was inverted

---
 satella/coding/structures/sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 05ade5f..58147ed 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -142,7 +142,7 @@ class SparseMatrix(tp.Generic[T]):
         return self.rows_dict == other.rows_dict
 
     def __bool__(self) -> bool:
-        return self.no_rows == 0
+        return self.no_rows != 0
 
     def _sanitize_key(self, key: KeyArg) -> KeyArg:
         col, row = key
-- 
2.43.0


From defc7bc95dddffaa88ef018066c432fd6772c7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 050/228] fix: deleting the last element of a SparseMatrix
 raised ValueError

---
 satella/coding/structures/sparse_matrix.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 58147ed..bcc4d16 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -303,13 +303,11 @@ class SparseMatrix(tp.Generic[T]):
                 v = self.rows_dict[row][col]
         return v
 
-    @silence_excs(TypeError, returns=0)
     def _calculate_column_count(self) -> int:
-        return max(self.known_column_count) + 1
+        return max(self.known_column_count, default=-1) + 1
 
-    @silence_excs(TypeError, returns=0)
     def _calculate_row_count(self) -> int:
-        return max(self.rows_dict) + 1
+        return max(self.rows_dict, default=-1) + 1
 
     @silence_excs(KeyError)
     def __delitem__(self, key: KeyArg) -> None:
-- 
2.43.0


From 4fda2b1c21612f971fc67f592ebb9b547475b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 051/228] fix: SparseMatrix accepted negative indices out of
 range, and did not support the documented ...

---
 satella/coding/structures/sparse_matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index bcc4d16..a029fca 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -16,7 +16,10 @@ def _cleanup_key(inst: tp.Union[int, slice], max_count: int):
         if isinstance(inst, int):
             if inst < 0:
                 inst += max_count
+                if inst < 0:
+                    raise IndexError('Index out of range')
         return inst
+    return inst
 
 
 class SparseMatrix(tp.Generic[T]):
-- 
2.43.0


From 09294dcca411b9e7e66e5bfb13ba4e0ebdae7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 052/228] fix: SparseMatrix.delete_row on an empty row made
 this matrix not equal to itself

---
 satella/coding/structures/sparse_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index a029fca..7d0c89d 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -231,6 +231,8 @@ class SparseMatrix(tp.Generic[T]):
 
         :param row_no: number of the row to delete
         """
+        if row_no not in self.rows_dict:  # check so as to avoid adding new entries
+            return
         cols = list(self.rows_dict[row_no].keys())  # Copy it here
         for col_no in cols:
             del self[col_no, row_no]
-- 
2.43.0


From a36b496e9e483f1511ac27cf2d5fdd7c550c8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 053/228] fix: SparseMatrix.min() and max() failed if element
 (0, 0) was not set

---
 satella/coding/structures/sparse_matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 7d0c89d..5120ab4 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -62,12 +62,12 @@ class SparseMatrix(tp.Generic[T]):
 
         None elements will be ignored.
         """
-        item = self[0, 0]
+        item = None
         for row in self:
             for value in row:
                 if value is None:
                     continue
-                if value > item:
+                if item is None or value > item:
                     item = value
         return item
 
@@ -77,13 +77,13 @@ class SparseMatrix(tp.Generic[T]):
 
         None elements will be ignored.
         """
-        item = self[0, 0]
+        item = None
         for row in self:
             for value in row:
                 if value is None:
                     continue
 
-                if value < item:
+                if item is None or value < item:
                     item = value
         return item
 
-- 
2.43.0


From 66d9a50af2c4c4af0a13004fd8d343939f6ec1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 054/228] fix: SortedList compared items having equal keys

---
 satella/coding/structures/sorted_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index dd2589c..190aef8 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -20,7 +20,7 @@ class SortedList(tp.Generic[T]):
     __slots__ = ('items', 'keys', 'key')
 
     def __init__(self, items: tp.Iterable[T] = (), key: tp.Callable[[T], int] = lambda a: a):
-        sort = sorted((key(item), item) for item in items)
+        sort = sorted(((key(item), item) for item in items), key=lambda entry: entry[0])
         self.items = SliceableDeque(a[1] for a in sort)  # type: SliceableDeque[T]
         self.keys = collections.deque(a[0] for a in sort)  # type: collections.deque[int]
         self.key = key  # type: tp.Callable[[T], int]
-- 
2.43.0


From c756182cd93601b191d26ad9fac6da606d31de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 055/228] fix: Ranking.remove left the position of a removed
 element behind

---
 satella/coding/structures/ranking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/ranking.py b/satella/coding/structures/ranking.py
index b4761e4..f63c816 100644
--- a/satella/coding/structures/ranking.py
+++ b/satella/coding/structures/ranking.py
@@ -52,6 +52,7 @@ class Ranking(tp.Generic[T]):
         Remove a single element from the ranking and _recalculate it
         """
         index = self.ranking.index(item)
+        del self.element_to_position[id(self.ranking[index])]
         self.ranking.remove(item)
         for position, item in enumerate(self.ranking[index:], start=index):
             self.element_to_position[id(item)] = position
-- 
2.43.0


From 14179f269824fa85a160ba6d0bfa2f1ffcbe5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 056/228] fix: ListDeleter went on to the last element of the
 list after going past the first one

---
 satella/coding/deleters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index 0fb1427..f642bab 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -161,6 +161,8 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_FORWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Last element reached')
         self.current_index += +1 if self.direction == DIR_FORWARD else -1
+        if self.current_index < 0:
+            raise StopIteration('First element reached')
         try:
             return self.list_to_process[self.current_index]
         except IndexError:
@@ -185,6 +187,8 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_BACKWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Cannot go previous on a last element!')
         self.current_index += -1 if self.direction == DIR_FORWARD else +1
+        if self.current_index < 0:
+            raise StopIteration('Cannot go previous on a first element!')
         try:
             return self.list_to_process[self.current_index]
         except IndexError:
-- 
2.43.0


From 69c9a2e9ba29249017c6617a950b112be13bf80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 057/228] fix: DictObject could not be copied

---
 satella/coding/structures/dictionaries/dict_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/dict_object.py b/satella/coding/structures/dictionaries/dict_object.py
index 38ef366..4a38542 100644
--- a/satella/coding/structures/dictionaries/dict_object.py
+++ b/satella/coding/structures/dictionaries/dict_object.py
@@ -30,10 +30,10 @@ class DictObject(dict):
         return super().__new__(cls, *args, **kwargs)
 
     def __copy__(self):
-        return DictObject(copy.copy(super()))
+        return DictObject(dict(self))
 
     def __deepcopy__(self, memo=None):
-        return DictObject(copy.deepcopy(super(), memo=memo))
+        return DictObject(copy.deepcopy(dict(self), memo))
 
     @rethrow_as(KeyError, AttributeError)
     def __getattr__(self, item):
-- 
2.43.0


From aec47d683f87a57754ab3aac807ad648cbc68ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 058/228] fix: TwoWayDictionary.done() and leaving its context
 raised AttributeError

---
 satella/coding/structures/dictionaries/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index cfbe502..3c733a4 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -145,8 +145,8 @@ class TwoWayDictionary(tp.MutableMapping[K, V]):
 
         Internally this will break the reference cycle, and enable Python GC to collect the objects.
         """
-        self.reverse.reverse = None
-        self.reverse = None
+        self._reverse._reverse = None
+        self._reverse = None
 
     def __init__(self, data=None, _is_reverse: bool = False):
         if not _is_reverse:
-- 
2.43.0


From 31296599e3968524f4ef289ac127617b9f6a83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 059/228] fix: copies of DictionaryView lost its options

---
 satella/coding/structures/dictionaries/objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index 3c733a4..bad975f 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -229,10 +229,13 @@ class DictionaryView(tp.MutableMapping[K, V]):
     __slots__ = 'assign_to_same_dict', 'master_dict', 'dictionaries', 'propagate_deletes'
 
     def __copy__(self) -> DictionaryView:
-        return DictionaryView(*copy.copy(self.dictionaries))
+        return DictionaryView(*copy.copy(self.dictionaries), propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __deepcopy__(self, memo) -> 'DictionaryView':
-        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo))
+        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo),
+                              propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __init__(self, master_dict: tp.Dict[K, V], *rest_of_dicts: tp.Dict[K, V],
                  propagate_deletes: bool = True,
-- 
2.43.0


From a0334a7897194bfcbdcbbebc112af71740bad91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 060/228] fix: checking for a key in KeyAwareDefaultDict was
 creating that key

---
 satella/coding/structures/dictionaries/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index bad975f..ff30d4c 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -104,6 +104,9 @@ class KeyAwareDefaultDict(tp.MutableMapping[K, V]):
         self.dict[item] = self.factory_function(item)
         return self.dict[item]
 
+    def __contains__(self, item: K) -> bool:
+        return item in self.dict
+
     def __setitem__(self, key: K, value: V) -> None:
         self.dict[key] = value
 
-- 
2.43.0


From 65087f39dbecfd8b64bd56fa1ff7d07d1510d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 061/228] fix: NotEqualToAnything defined __next__ instead of
 __ne__

---
 satella/coding/structures/immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/immutable.py b/satella/coding/structures/immutable.py
index 1238553..7bbf250 100644
--- a/satella/coding/structures/immutable.py
+++ b/satella/coding/structures/immutable.py
@@ -57,7 +57,7 @@ class NotEqualToAnything:
     def __eq__(self, other) -> bool:
         return False
 
-    def __next__(self, other) -> bool:
+    def __ne__(self, other) -> bool:
         return True
 
 
-- 
2.43.0


From 22f6383a2dfd760dd24b0a93a2ae29df6b2dd903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 062/228] fix: frozendict could be changed by all but two
 methods, and could not be copied nor pickled

---
 satella/coding/structures/immutable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/satella/coding/structures/immutable.py b/satella/coding/structures/immutable.py
index 7bbf250..2ead5d9 100644
--- a/satella/coding/structures/immutable.py
+++ b/satella/coding/structures/immutable.py
@@ -76,6 +76,11 @@ class frozendict(dict):
     def update(self, *args, **kwargs):
         raise TypeError('Cannot update a frozen dict!')
 
+    __delitem__ = __ior__ = clear = pop = popitem = setdefault = update
+
+    def __reduce__(self):
+        return self.__class__, (dict(self),)
+
     def __hash__(self):
         o = 0
         for key, value in self.items():
-- 
2.43.0


From 48eb81e28e8dc4b0a05cd56903d3d3d3cad68812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 063/228] fix: DictionaryEQAble ignored attributes that only
 the right operand had

---
 satella/coding/structures/mixins/eqable.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/satella/coding/structures/mixins/eqable.py b/satella/coding/structures/mixins/eqable.py
index 7438bcc..1928812 100644
--- a/satella/coding/structures/mixins/eqable.py
+++ b/satella/coding/structures/mixins/eqable.py
@@ -1,6 +1,3 @@
-from ..immutable import NOT_EQUAL_TO_ANYTHING
-
-
 class DictionaryEQAble:
     """
     A class mix-in that defines __eq__ and __ne__ to be:
@@ -12,15 +9,9 @@ class DictionaryEQAble:
     def __eq__(self, other) -> bool:
         if type(self) != type(other):
             return False
-        for key in self.__dict__.keys():
-            if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
-                return False
-        return True
+        return self.__dict__ == other.__dict__
 
     def __ne__(self, other) -> bool:
         if type(self) != type(other):
             return True
-        for key in self.__dict__.keys():
-            if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
-                return True
-        return False
+        return self.__dict__ != other.__dict__
-- 
2.43.0


From 8de551dc5ee026cc34879696b3a54b8ec00a6247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 064/228] fix: members of ComparableEnum were not hashable

---
 satella/coding/structures/mixins/enums.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/mixins/enums.py b/satella/coding/structures/mixins/enums.py
index 51201ea..eb5e5f1 100644
--- a/satella/coding/structures/mixins/enums.py
+++ b/satella/coding/structures/mixins/enums.py
@@ -40,6 +40,9 @@ class ComparableEnum(enum.Enum):
         except ValueError:  # other is not a correct member of this class!
             return False
 
+    def __hash__(self) -> int:
+        return hash(self.value)
+
 
 class HashableIntEnum(enum.IntEnum):
     """
-- 
2.43.0


From 2ab8919cad22ba147003bd6743a07d08a5d16663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 065/228] fix: typednamedtuple silently dropped surplus
 positional arguments

---
 satella/coding/structures/typednamedtuple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/typednamedtuple.py b/satella/coding/structures/typednamedtuple.py
index 1211f37..bc3a98f 100644
--- a/satella/coding/structures/typednamedtuple.py
+++ b/satella/coding/structures/typednamedtuple.py
@@ -45,6 +45,8 @@ def typednamedtuple(cls_name: str, *arg_name_type: type) -> tp.Type[tp.Tuple]:
         __name__ = MyCls.__name__
 
         def __new__(cls, *args, **kwargs):
+            if len(args) > len(fieldnames):
+                raise TypeError('Too many parameters')
 
             nargs = list(map(_adjust, zip(args, typeops[:len(args)])))
 
-- 
2.43.0


From e0510885e9ea6f96e163f021609c6449a841140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:26 +0000
Subject: [PATCH 066/228] fix: objects wrapped in a Proxy could not be awaited

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 54ec9b5..89b568e 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -290,7 +290,7 @@ class Proxy(tp.Generic[T]):
         return self
 
     def __await__(self):
-        return self.__obj.__await()
+        return self.__obj.__await__()
 
     def __aenter__(self):
         return self.__obj.__aenter__()
-- 
2.43.0


From ec7e548e651a06b705151030ff9545a3a6491750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:26 +0000
Subject: [PATCH 067/228] fix: Proxy did not wrap the results of | and &

---
 satella/coding/structures/proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 89b568e..3a1507a 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -183,9 +183,11 @@ class Proxy(tp.Generic[T]):
     def __ne__(self, other) -> bool:
         return self.__obj != other
 
+    @wrap_operation
     def __or__(self, other):
         return self.__obj | other
 
+    @wrap_operation
     def __and__(self, other):
         return self.__obj & other
 
-- 
2.43.0


From cce4b02c0467e011f873efc999a70aa70f41d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:26 +0000
Subject: [PATCH 068/228] fix: round() of a Proxy differed from round() of the
 object

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 3a1507a..ae2d312 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -343,7 +343,7 @@ class Proxy(tp.Generic[T]):
 
     @wrap_operation
     @rethrow_as(AttributeError, TypeError)
-    def __round__(self, n: int = 0):
+    def __round__(self, n: tp.Optional[int] = None):
         return round(self.__obj, n)
 
     @wrap_operation
-- 
2.43.0


From 473a63425ba011bd4ef6a5f3faa4881306d15d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:26 +0000
Subject: [PATCH 069/228] fix: Proxy did not support the modulo operator

---
 satella/coding/structures/proxy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index ae2d312..b03d9c0 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -123,6 +123,18 @@ class Proxy(tp.Generic[T]):
     def __mul__(self, other):
         return self.__obj * other
 
+    @wrap_operation
+    def __mod__(self, other):
+        return self.__obj % other
+
+    @wrap_operation
+    def __rmod__(self, other):
+        return other % self.__obj
+
+    def __imod__(self, other) -> 'Proxy':
+        self.__obj %= other
+        return self
+
     def __divmod__(self, other) -> tp.Tuple[Number, Number]:
         return divmod(self.__obj, other)
 
-- 
2.43.0


From 9ca158834ca730a85d91f26ebce48aa91c476c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:13 +0000
Subject: [PATCH 070/228] fix: build_structure dropped all but the first entry
 of a dictionary

---
 satella/coding/predicates.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 46b2387..4e50847 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -263,8 +263,7 @@ def build_structure(struct: tp.Union[tuple, list, dict],
                 key = build_structure(key, argument, None, True)
                 value = build_structure(value, argument, None, True)
                 new_dict[key] = value
-                f = new_dict
-                break
+            f = new_dict
         elif isinstance(struct, tp.Sequence):
             new_seq = []
             for elem in struct:
-- 
2.43.0


From e1f4bba37a80affe691847143c9b13ec62a9d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:13 +0000
Subject: [PATCH 071/228] fix: build_structure recursed endlessly on strings

---
 satella/coding/predicates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 4e50847..74710e5 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -264,7 +264,7 @@ def build_structure(struct: tp.Union[tuple, list, dict],
                 value = build_structure(value, argument, None, True)
                 new_dict[key] = value
             f = new_dict
-        elif isinstance(struct, tp.Sequence):
+        elif isinstance(struct, tp.Sequence) and not isinstance(struct, (str, bytes, bytearray)):
             new_seq = []
             for elem in struct:
                 if isinstance(elem, PredicateClass):
-- 
2.43.0


From 03a644e95e5bb87f7f964365685aec54bf6a580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:13 +0000
Subject: [PATCH 072/228] fix: comparing the order of an empty Optional raised
 TypeError instead of being False

---
 satella/coding/optionals.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/satella/coding/optionals.py b/satella/coding/optionals.py
index ea754b5..2da5d02 100644
--- a/satella/coding/optionals.py
+++ b/satella/coding/optionals.py
@@ -78,6 +78,22 @@ class Optional(Proxy[T]):
             return False
         return other == me
 
+    def __lt__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me < other
+
+    def __le__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me <= other
+
+    def __gt__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me > other
+
+    def __ge__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me >= other
+
     def __getattr__(self, item):
         obj = getattr(self, '_Proxy__obj')
         return EMPTY_OPTIONAL if obj is None else getattr(obj, item)
-- 
2.43.0


From eb2f378a6e3de6bbe1dbc84ecb85d150ffb836c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:13 +0000
Subject: [PATCH 073/228] fix: SyncableDroppable.get_archive returned nothing
 if all of the data was in the DB

---
 satella/coding/structures/syncable_droppable.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 4bfd297..fd615d5 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -208,9 +208,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :param stop: stopping key (included)
         :return: a iterator of KVTuple
         """
-        if not self.data_in_memory:
-            return []
-        if self.first_key_in_memory <= start:
+        if self.data_in_memory and self.first_key_in_memory <= start:
             # We'll serve it from memory
             for key, value in self.data_in_memory:
                 if key < start:
-- 
2.43.0


From e1a307f3a87b3a048cc8dc01bb1cb01aec914771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:13 +0000
Subject: [PATCH 074/228] fix: SyncableDroppable.on_sync_request failed if
 nothing was in memory, or if the first key was 0

---
 satella/coding/structures/syncable_droppable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index fd615d5..116b4bf 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -310,9 +310,9 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             self.start_entry = key
 
     def _assert_correctness(self, maximum_entries):
-        if not self.start_entry:
+        if self.start_entry is None:
             raise ValueError('Nothing to synchronize!')
-        if self.synced_up_to == self.data_in_memory[-1][0]:
+        if self.synced_up_to is not None and self.synced_up_to >= self.stop_entry:
             raise ValueError('Nothing to synchronize!')
 
     def _on_sync_request_synced_up_none(self, maximum_entries):
-- 
2.43.0


From ace3b368fec1269dda85807aba557678e6fc582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:13 +0000
Subject: [PATCH 075/228] fix: SyncableDroppable.on_sync_request repeated
 synced entries, dropped others and ignored the limit if data was in the DB

---
 .../coding/structures/syncable_droppable.py   | 36 +++++++------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 116b4bf..8a4a77f 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -319,32 +319,20 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         # Sync everything
         iterator = self.db_storage.iterate(None)
         try:
-            data = list(iterator)
-            if len(data) < maximum_entries:
-                entries_left = maximum_entries - len(data)
-                if entries_left == math.inf:
-                    data = itertools.chain(data, self.data_in_memory)
-                else:
-                    data = itertools.chain(data, self.data_in_memory[:entries_left])
-            return data
+            data = self.__take(iterator, maximum_entries)
         finally:
             try_close(iterator)
+        return self.__append_from_memory(data, maximum_entries)
 
-    def __append_item(self, data, iterator, maximum_entries):
-        while len(data) < maximum_entries:
-            try:
-                data.append(next(iterator))
-            except StopIteration:
-                for index, tpl in enumerate(self.data_in_memory):
-                    if len(data) >= maximum_entries:
-                        break
-                    if self.synced_up_to is not None:
-                        if tpl[0] > self.synced_up_to:
-                            break
-                return itertools.chain(data, self.data_in_memory[:index])
+    @staticmethod
+    def __take(iterator, maximum_entries):
+        return list(iterator if maximum_entries == math.inf else itertools.islice(iterator, maximum_entries))
+
+    def __append_from_memory(self, data, maximum_entries):
+        return itertools.chain(data, self.__take(iter(self.data_in_memory), maximum_entries - len(data)))
 
     def _on_sync_request_synced_up_is_not_none(self, maximum_entries):
-        if self.first_key_in_memory <= self.synced_up_to:
+        if self.data_in_memory and self.first_key_in_memory <= self.synced_up_to:
             # Means we have to sync from memory
             if self.synced_up_to is None:
                 v = self.data_in_memory
@@ -357,12 +345,12 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                     v = self.data_in_memory[index:index + maximum_entries]
         else:
             # We have to start off the disk
-            data = []
-            iterator = self.db_storage.iterate(self.start_entry)
+            iterator = self.db_storage.iterate(self.synced_up_to)
             try:
-                v = self.__append_item(data, iterator, maximum_entries)
+                data = self.__take((tpl for tpl in iterator if tpl[0] > self.synced_up_to), maximum_entries)
             finally:
                 try_close(iterator)
+            v = self.__append_from_memory(data, maximum_entries)
         return v
 
     def on_sync_request(self, maximum_entries: tp.Optional[int] = math.inf) -> tp.Iterator[KVTuple]:
-- 
2.43.0


From a4a21682ba563c423d7774f5452e2a665cb99b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:13 +0000
Subject: [PATCH 076/228] fix: SyncableDroppable.cleanup_keep_in_db did nothing
 if all of the data was in the DB

---
 satella/coding/structures/syncable_droppable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 8a4a77f..c0623c2 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -275,7 +275,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         """
         Clear up the database to conform to our span_to_keep_in_db
         """
-        if self.start_entry is None or not self.data_in_memory:
+        if self.start_entry is None:
             return
         cutoff_span = self.stop_entry - self.span_to_keep_in_db
         if self.start_entry == self.first_key_in_memory:
-- 
2.43.0


From 800a6416572870a13685ca53140ed5b9df32f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:13 +0000
Subject: [PATCH 077/228] fix: SyncableDroppable.get_latest_value required the
 iterator to be closeable

---
 satella/coding/structures/syncable_droppable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index c0623c2..2e5eede 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -247,7 +247,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             try:
                 return next(iterator)
             finally:
-                iterator.close()
+                try_close(iterator)
 
     @RMonitor.synchronized
     def cleanup_keep_in_memory(self) -> None:
-- 
2.43.0


From 068b1fbc1eaadff4bf6250b51091c9c237c26093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:13 +0000
Subject: [PATCH 078/228] fix: SyncableDroppable could lose data that arrived
 during a sync to the DB

---
 satella/coding/structures/syncable_droppable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 2e5eede..ea87553 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -290,6 +290,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                 return
             self.cleanup_keep_in_db()
 
+    @RMonitor.synchronized
     def on_new_data(self, key: K, value: V) -> None:
         """
         Called by the user when there's new data gathered.
@@ -353,6 +354,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             v = self.__append_from_memory(data, maximum_entries)
         return v
 
+    @RMonitor.synchronized
     def on_sync_request(self, maximum_entries: tp.Optional[int] = math.inf) -> tp.Iterator[KVTuple]:
         """
         Return an iterator that will provide the source of the data for synchronization.
-- 
2.43.0


From d4bee2889c3b61a82b1d703f0633cce700765476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:12 +0000
Subject: [PATCH 079/228] fix: if storing to DB failed, SyncableDroppable kept
 stored entries both in memory and in the DB

---
 .../coding/structures/syncable_droppable.py    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index ea87553..16dc5bb 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -154,9 +154,16 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         """
         Make sure that everything's that in memory in also stored in the DB.
         """
-        for key, value in self.data_in_memory:
-            self.db_storage.put(key, value)
-        self.data_in_memory = []
+        self._move_to_db(len(self.data_in_memory))
+
+    def _move_to_db(self, count: int) -> None:
+        moved = 0
+        try:
+            for key, value in self.data_in_memory[:count]:
+                self.db_storage.put(key, value)
+                moved += 1
+        finally:    # an item can never be both in memory and in the DB
+            self.data_in_memory = self.data_in_memory[moved:]
 
     def cleanup(self) -> None:
         """
@@ -261,13 +268,10 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         for index, row in enumerate(self.data_in_memory):
             ts, value = row
             if ts > cutoff_point:
-                for ts, value in self.data_in_memory[:index]:
-                    self.db_storage.put(ts, value)
-                del self.data_in_memory[:index]
+                self._move_to_db(index)
                 break
         else:
             self.sync_to_db()
-            self.data_in_memory = []
             return
 
     @RMonitor.synchronized
-- 
2.43.0


From eb500c24bef6712a324a9a751938e65ec730ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:06 +0000
Subject: [PATCH 080/228] fix: is_last raised RuntimeError on empty iterables

---
 satella/coding/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index 99be8c8..d07f45f 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -1 +1 @@
-import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    ret_var = next(iterable)    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
+import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    try:        ret_var = next(iterable)    except StopIteration:        return    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
-- 
2.43.0


From bbd85279638fa24d4bb7812926829de6a2a36538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:06 +0000
Subject: [PATCH 081/228] fix: shift leaked a StopIteration if shifting by more
 than there are elements

---
 satella/coding/sequences/iterators.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 706ab49..7801a20 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -403,9 +403,7 @@ def shift(iterable_: tp.Union[tp.Reversible[T], Iteratable],
 
     if shift_factor >= 0:
         iterator = iter(iterable_)
-        elements = []
-        for i in range(shift_factor):
-            elements.append(next(iterator))
+        elements = take_n(iterator, shift_factor)
         return itertools.chain(iterator, elements)
     else:
         if hasattr(iterable_, '__reversed__'):
-- 
2.43.0


From 52f4762b07201e1fe89620391f6f61696f50947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:06 +0000
Subject: [PATCH 082/228] fix: skip_first raised RuntimeError if there were
 less elements than to skip

---
 satella/coding/sequences/iterators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 7801a20..90318f6 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -457,7 +457,6 @@ def zip_shifted(*args: tp.Union[Iteratable, tp.Tuple[Iteratable, int]]) -> \
 
 
 @for_argument(iter)
-@silence_excs(StopIteration)
 def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     """
     Skip first n elements from given iterator.
@@ -471,7 +470,10 @@ def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
                   'Please use itertools.islice instead', DeprecationWarning)
 
     for i in range(n):
-        next(iterator)
+        try:
+            next(iterator)
+        except StopIteration:
+            return
     yield from iterator
 
 
-- 
2.43.0


From 83aabb29110644e6f8adac8a73424208cc1c37e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:06 +0000
Subject: [PATCH 083/228] fix: stop_after raised RuntimeError if there were
 less elements than n

---
 satella/coding/sequences/iterators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 90318f6..c929e27 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -605,7 +605,6 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         return self
 
 
-@silence_excs(StopIteration)
 @for_argument(iter)
 def stop_after(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     """
@@ -623,7 +622,10 @@ def stop_after(iterator: Iteratable, n: int) -> tp.Iterator[T]:
                   'Please use itertools.islice instead', DeprecationWarning)
 
     for i in range(n):
-        yield next(iterator)
+        try:
+            yield next(iterator)
+        except StopIteration:
+            return
 
 
 @for_argument(iter)
-- 
2.43.0


From fb6f034f681f27d2cf3b50ebeafc76812a16b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:06 +0000
Subject: [PATCH 084/228] fix: take_n leaked a StopIteration if there were less
 elements than to skip

---
 satella/coding/sequences/iterators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index c929e27..bdce597 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -847,7 +847,10 @@ def take_n(iterator: Iteratable, n: int, skip: int = 0) -> tp.List[T]:
     :return: list of p_len n (or shorter)
     """
     for i in range(skip):
-        next(iterator)
+        try:
+            next(iterator)
+        except StopIteration:
+            return []
 
     output = []
     for i in range(n):
-- 
2.43.0


From e72dd7348ef8ad55886ce70469ff4f09540d6f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:06 +0000
Subject: [PATCH 085/228] fix: ListWrapperIterator failed or returned wrong
 elements upon open-ended or negative indexing

---
 satella/coding/sequences/iterators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index bdce597..8957b14 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -566,8 +566,13 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         :raises IndexError: invalid index
         """
         if isinstance(item, int):
-            if len(self.list) < item + 1:
+            if item < 0:
+                self.exhaust()
+            elif len(self.list) < item + 1:
                 self.advance_to_item(item + 1)
+        elif item.start is not None and item.start < 0 or item.stop is None or item.stop < 0 or \
+                item.step is not None and item.step < 0:
+            self.exhaust()
         else:
             self.advance_to_item(item.stop)
         return self.list[item]
-- 
2.43.0


From 5e329bc28f8c34eeb0515f57f39bb43f2ab054aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:06 +0000
Subject: [PATCH 086/228] fix: AlreadySeen failed on a mix of hashable and
 non-hashable objects

---
 satella/coding/sequences/iterators.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 8957b14..f7c9404 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -217,10 +217,11 @@ class AlreadySeen(tp.Generic[K]):
     >>>     if als.is_unique(elem):
     >>>         ... process the element ...
     """
-    __slots__ = ('set',)
+    __slots__ = ('set', 'list')
 
     def __init__(self):
-        self.set = None  # type: tp.Union[list, set]
+        self.set = set()  # type: tp.Set[K]
+        self.list = []  # type: tp.List[K]
 
     def is_unique(self, key: K) -> bool:
         """
@@ -233,8 +234,6 @@ class AlreadySeen(tp.Generic[K]):
         """
         try:
             hash(key)
-            if self.set is None:
-                self.set = set()
             if key in self.set:
                 return False
             self.set.add(key)
@@ -242,11 +241,9 @@ class AlreadySeen(tp.Generic[K]):
         except TypeError:
             warnings.warn('Passed argument is not hashable, you pay with '
                           'O(n^2) complexity!', RuntimeWarning)
-            if self.set is None:
-                self.set = []
-            if key in self.set:
+            if key in self.list:
                 return False
-            self.set.append(key)
+            self.list.append(key)
             return True
 
 
-- 
2.43.0


From 0602f12233d0bb0cdd9500f19771ceedd231d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:39 +0000
Subject: [PATCH 087/228] fix: RunActionAfterGeneratorCompletes ran its action
 again at each next(), and not if completed by send() or throw()

---
 satella/coding/generators.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/satella/coding/generators.py b/satella/coding/generators.py
index fd29de6..8d42b1c 100644
--- a/satella/coding/generators.py
+++ b/satella/coding/generators.py
@@ -31,23 +31,35 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
 
     def send(self, value):
         """Send a value to the generator"""
-        return self.generator.send(value)
+        try:
+            return self.generator.send(value)
+        except StopIteration:
+            self._on_completed()
+            raise
 
     def next(self):
-        return self.generator.__next__()
+        return self.__next__()
+
+    def _on_completed(self) -> None:
+        if not self.closed:
+            self.closed = True
+            self.action_to_run(*self.args, **self.kwargs)
 
     def __iter__(self):
         return self
 
     def throw(self, __typ, __val=None, __tb=None):
-        return self.generator.throw(__typ, __val, __tb)
+        try:
+            return self.generator.throw(__typ, __val, __tb)
+        except StopIteration:
+            self._on_completed()
+            raise
 
     def __next__(self):
         try:
             return self.generator.__next__()
         except StopIteration:
-            if not self.closed:
-                self.action_to_run(*self.args, **self.kwargs)
+            self._on_completed()
             raise
 
     @abstractmethod
-- 
2.43.0


From 2c2ccee75d726325c1888f9823eab85e3378f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:39 +0000
Subject: [PATCH 088/228] fix: SelfClosingGenerator.send() lost the value
 yielded by the generator

---
 satella/coding/iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 2fa2365..c8642f8 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -59,8 +59,8 @@ class SelfClosingGenerator:
     def __call__(self, *args, **kwargs):
         return SelfClosingGenerator(self.generator(*args, **kwargs))
 
-    def send(self, obj: tp.Any) -> None:
-        self.generator.send(obj)
+    def send(self, obj: tp.Any) -> tp.Any:
+        return self.generator.send(obj)
 
     def __next__(self):
         try:
-- 
2.43.0


From a224bcbab1f6d3eddbf0191fe8495468c0b7e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:39 +0000
Subject: [PATCH 089/228] fix: chain swallowed TypeErrors raised by the
 iterators given

---
 satella/coding/iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index c8642f8..6a42023 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -15,9 +15,11 @@ def chain(*args) -> tp.Iterator:
     """
     for elem in args:
         try:
-            yield from iter(elem)
+            iterator = iter(elem)
         except TypeError:
             yield elem
+        else:
+            yield from iterator
 
 
 def exhaust(iterator: tp.Iterator) -> None:
-- 
2.43.0


From d3f69e9b47b35a79ead2225d5e416fba5c2fb79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:39 +0000
Subject: [PATCH 090/228] fix: hint_with_length with length_factory failed for
 generator functions

---
 satella/coding/iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 6a42023..14295a5 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -119,7 +119,7 @@ class hint_with_length:
         self.length_factory = length_factory
 
     def __call__(self, *args, **kwargs):
-        return hint_with_length(self.generator(*args, **kwargs), self.length)
+        return hint_with_length(self.generator(*args, **kwargs), self.length, self.length_factory)
 
     def close(self):
         return self.generator.close()
-- 
2.43.0


From 566b1a878ee730b6e33942c77a1c344fbc03a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:20 +0000
Subject: [PATCH 091/228] fix: run_when_generator_completes must not run its
 action after the generator has failed

---
 satella/coding/generators.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/satella/coding/generators.py b/satella/coding/generators.py
index 8d42b1c..c60b5d3 100644
--- a/satella/coding/generators.py
+++ b/satella/coding/generators.py
@@ -36,6 +36,9 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
         except StopIteration:
             self._on_completed()
             raise
+        except BaseException:
+            self.closed = True      # it failed, so it has not completed
+            raise
 
     def next(self):
         return self.__next__()
@@ -54,6 +57,9 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
         except StopIteration:
             self._on_completed()
             raise
+        except BaseException:
+            self.closed = True      # it failed, so it has not completed
+            raise
 
     def __next__(self):
         try:
@@ -61,6 +67,9 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
         except StopIteration:
             self._on_completed()
             raise
+        except BaseException:
+            self.closed = True      # it failed, so it has not completed
+            raise
 
     @abstractmethod
     def action_to_run(self):
-- 
2.43.0


From b3c95713953dd2702f3481a521b8c490408d24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:27 +0000
Subject: [PATCH 092/228] fix: merge_series skipped timestamps of a series that
 starts later than others

---
 satella/coding/transforms/merger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index 70873b7..9b51175 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -80,6 +80,8 @@ class merge_series:
                     return False
             else:
                 try:
+                    if self.next_preloaded_values[i][0] > for_ts:
+                        return False
                     while not (self.next_preloaded_values[i][0] <= for_ts
                                < self.super_next_preloaded_values[i][0]):
                         self.advance(i)
-- 
2.43.0


From cafe0ebe2fc28083502517ff1674f43f46a40fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:27 +0000
Subject: [PATCH 093/228] fix: merge_list compared values upon equal keys, and
 recursed for each of them

---
 satella/coding/transforms/merge_list.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/satella/coding/transforms/merge_list.py b/satella/coding/transforms/merge_list.py
index c47d8f1..1c78924 100644
--- a/satella/coding/transforms/merge_list.py
+++ b/satella/coding/transforms/merge_list.py
@@ -36,7 +36,8 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
 
         for i, it in enumerate(self.its):
             try:
-                self.heap.push((*next(it), i))
+                k, v = next(it)
+                self.heap.push((k, i, v))
                 self.available_lists.add(i)
             except StopIteration:
                 pass
@@ -49,15 +50,16 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
         if self.closed:
             raise StopIteration()
 
-        try:
-            k2, v2, i2 = self.pop()
-        except IndexError:
-            self.closed = True
-            return self.k, self.v
+        while True:
+            try:
+                k2, v2, i2 = self.pop()
+            except IndexError:
+                self.closed = True
+                return self.k, self.v
 
-        if k2 == self.k:
+            if k2 != self.k:
+                break
             self.v = self.merge_func(self.v, v2)
-            return next(self)
 
         try:
             return self.k, self.v
@@ -65,11 +67,11 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
             self.k, self.v, self.i = k2, v2, i2
 
     def pop(self):
-        k, v, i = self.heap.pop()
+        k, i, v = self.heap.pop()
         if i in self.available_lists:
             try:
                 k2, v2 = next(self.its[i])
-                self.heap.push((k2, v2, i))
+                self.heap.push((k2, i, v2))
             except StopIteration:
                 self.available_lists.remove(i)
         return k, v, i
-- 
2.43.0


From 818c71a9c7c07f382f91cff80469261ff53a69fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:27 +0000
Subject: [PATCH 094/228] fix: jsonify of an enum returned its value
 unconverted

---
 satella/coding/transforms/jsonify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/transforms/jsonify.py b/satella/coding/transforms/jsonify.py
index 1b4184f..28ef5e6 100644
--- a/satella/coding/transforms/jsonify.py
+++ b/satella/coding/transforms/jsonify.py
@@ -23,7 +23,7 @@ def jsonify(data: tp.Any) -> tp.Optional[tp.Union[str, int, float, list, dict]]:
     elif isinstance(data, (int, float, str)):
         v = data
     elif isinstance(data, enum.Enum):
-        v = data.value
+        v = jsonify(data.value)
     elif isinstance(data, JSONAble):
         v = jsonify(data.to_json())
     elif isinstance(data, tp.Mapping):
-- 
2.43.0


From ee704e81379742e79989fad5979607cf2b03b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:27 +0000
Subject: [PATCH 095/228] fix: unpack_dict took KeyErrors of map_through for
 missing keys

---
 satella/coding/transforms/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/coding/transforms/__init__.py b/satella/coding/transforms/__init__.py
index b87b5a0..7b8b44d 100644
--- a/satella/coding/transforms/__init__.py
+++ b/satella/coding/transforms/__init__.py
@@ -44,12 +44,13 @@ def unpack_dict(dct: tp.Dict[K, V], *args: K,
     """
     for key in args:
         try:
-            yield map_through(dct[key])
+            value = dct[key]
         except KeyError:
-            if not raise_if_not_found:
-                yield None
-            else:
+            if raise_if_not_found:
                 raise
+            yield None
+        else:
+            yield map_through(value)
 
 
 def none_if_false(y: tp.Any) -> tp.Optional[tp.Any]:
-- 
2.43.0


From 7451d3cde857c098812ecf45ab9b2eb39147da6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:27 +0000
Subject: [PATCH 096/228] fix: intify of an infinity must raise ValueError

---
 satella/coding/transforms/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/transforms/__init__.py b/satella/coding/transforms/__init__.py
index 7b8b44d..8bb7ce2 100644
--- a/satella/coding/transforms/__init__.py
+++ b/satella/coding/transforms/__init__.py
@@ -150,7 +150,7 @@ def intify(v: tp.Any) -> int:
 
     try:
         return int(v)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         try:
             return len(v)
         except (AttributeError, TypeError, ValueError):
-- 
2.43.0


From 9431aa93617283eb06cd20235c06d7910437a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:09 +0000
Subject: [PATCH 097/228] fix: merge_series returned the first timestamp twice
 if another series reached it later

---
 satella/coding/transforms/merger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index 9b51175..618c2f5 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -17,7 +17,7 @@ class merge_series:
     :raises ValueError: one of the given series was empty
     """
     __slots__ = ('series', 'next_preloaded_values', 'empty', 'timestamps',
-                 'super_next_preloaded_values')
+                 'super_next_preloaded_values', 'last_timestamp')
 
     def __init__(self, *series: tp.Iterator[tp.Tuple[float, tp.Any]]):
         self.series = [iter(x) for x in series]
@@ -29,6 +29,7 @@ class merge_series:
         else:
             self.empty = False
 
+        self.last_timestamp = None      # already returned
         self.timestamps = SetHeap()
         timestamps = {x[0] for x in self.next_preloaded_values}
         max_ts = max(timestamps)
@@ -111,8 +112,9 @@ class merge_series:
 
         ts = self.timestamps.pop()
 
-        while not self.assert_preloaded(ts):
+        while ts == self.last_timestamp or not self.assert_preloaded(ts):
             ts = self.timestamps.pop()  # throws IndexError
+        self.last_timestamp = ts
 
         output = (ts, *(v[1] for v in self.next_preloaded_values))
         return output
-- 
2.43.0


From 0a90b797f0772462abc313c4870c29f92f849b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 098/228] fix: BinaryParser with an offset, a zero length or
 too large a length reported bytes that were not there

---
 satella/parsing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index b2e5d9b..cf3a8fb 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -40,9 +40,10 @@ class BinaryParser:
         self.b_stream = b_stream
         self.pointer = self.init_ofs = offset
         self.struct_cache = {}
-        self.length = length or len(b_stream)
         if offset > len(self.b_stream):
             raise NotEnoughBytes('Offset larger than the stream!')
+        available = len(b_stream) - offset
+        self.length = available if length is None else min(length, available)
 
     def __bytes__(self) -> bytes:
         return self.b_stream[self.init_ofs:self.init_ofs + self.length]
-- 
2.43.0


From 4dea2bcd74f886b773b45d7a5ba2a2bdf204a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 099/228] fix: bytes() of a BinaryParser over a bytearray
 raised TypeError

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index cf3a8fb..792230a 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -46,7 +46,7 @@ class BinaryParser:
         self.length = available if length is None else min(length, available)
 
     def __bytes__(self) -> bytes:
-        return self.b_stream[self.init_ofs:self.init_ofs + self.length]
+        return bytes(self.b_stream[self.init_ofs:self.init_ofs + self.length])
 
     def skip(self, n: int) -> None:
         """
-- 
2.43.0


From 51bb26b2b17105b866f3aa4837e6485663cb8e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 100/228] fix: BinaryParser.get_struct refused the native
 standard size format prefix

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index 792230a..335140f 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -136,7 +136,7 @@ class BinaryParser:
         """
         st = self._to_struct(st)
 
-        if st.format[0] in {'>', '<', '!', '@'}:
+        if st.format[0] in {'>', '<', '!', '@', '='}:
             assert len(st.format) == 2, 'Format must span at most 1 character, use ' \
                                         'get_structs for multiples!'
         else:
-- 
2.43.0


From 0ea96a966c83048d793e5178d8f611b477f2a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 101/228] fix: JSON files are UTF-8, regardless of the locale

---
 satella/json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/json.py b/satella/json.py
index ac1286b..8801608 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -80,7 +80,7 @@ def write_json_to_file(path: str, value: JSONAble, **kwargs) -> None:
     """
     if kwargs:
         warnings.warn('Do not use kwargs, it has no effect', DeprecationWarning)
-    with open(path, 'w') as f_out:
+    with open(path, 'w', encoding='utf-8') as f_out:
         f_out.write(JSONEncoder().encode(value))
 
 
@@ -113,10 +113,10 @@ def read_json_from_file(path: str) -> JSONAble:
     """
     try:
         import ujson
-        with open(path, 'r') as f_in:
+        with open(path, 'r', encoding='utf-8') as f_in:
             v = ujson.load(f_in)
     except ImportError:
-        with open(path, 'r') as f_in:
+        with open(path, 'r', encoding='utf-8') as f_in:
             try:
                 v = json.load(f_in)
             except json.decoder.JSONDecodeError as e:
-- 
2.43.0


From e87c61777bacfe70e846d809afa74fa4933c0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 102/228] fix: comparing a JSONAbleDataObject with something
 else raised AttributeError

---
 satella/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/json.py b/satella/json.py
index 8801608..2ef18c9 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -146,6 +146,8 @@ class JSONAbleDataObject:
     """
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, self.__class__):
+            return NotImplemented
         return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self.__class__.__annotations__.keys())
 
     def __hash__(self) -> int:
-- 
2.43.0


From 6111869b18ac4c931259351d0be1d946d19828ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 103/228] fix: JSONEncoder did not handle a __slots__ that is a
 single string

---
 satella/json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/json.py b/satella/json.py
index 2ef18c9..f02af19 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -52,7 +52,8 @@ class JSONEncoder(json.JSONEncoder):
                         v[k] = self.default(val)
                 except AttributeError:  # o has no attribute '__dict__', try with slots
                     try:
-                        for slot in o.__slots__:
+                        slots = o.__slots__
+                        for slot in (slots,) if isinstance(slots, str) else slots:
                             v[slot] = self.default(getattr(o, slot))
                     except AttributeError:  # it doesn't have __slots__ either?
                         v = '<an instance of %s>' % (o.__class__.__name__,)
-- 
2.43.0


From 056849539e0a3f900b4a91a439168826ec6866e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 104/228] fix: files.split never returned if given an absolute
 path

---
 satella/files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index eca9748..22d95a4 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -215,7 +215,10 @@ def split(path: str) -> tp.List[str]:
     """
     data = list(os.path.split(path))
     while _has_separator(data[0]):
-        data = list(os.path.split(data[0])) + data[1:]
+        head, tail = os.path.split(data[0])
+        if head == data[0]:     # a root directory, it cannot be split any further
+            break
+        data = [head, tail] + data[1:]
     return data
 
 
-- 
2.43.0


From e81b026827cdb19b236f05249a6785a3c5e3b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 105/228] fix: find_files ignored apply_wildcard_to_entire_path
 in subdirectories

---
 satella/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/files.py b/satella/files.py
index 22d95a4..6debfe8 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -370,6 +370,7 @@ def find_files(path: str, wildcard: str = r'(.*)',
             new_prefix = _cond_join(prefix_with, filename)
             yield from find_files(os.path.join(path, filename), wildcard,
                                   prefix_with=new_prefix,
+                                  apply_wildcard_to_entire_path=apply_wildcard_to_entire_path,
                                   prefix_with_path=False)
         else:
             if apply_wildcard_to_entire_path:
-- 
2.43.0


From 324ca03928b5588a5cf022538ee34939f2379292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 106/228] fix: AutoflushFile refused modes a+ and ab+, which
 are documented as allowed

---
 satella/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index 6debfe8..ee0811f 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -459,7 +459,8 @@ class AutoflushFile(Proxy[io.FileIO]):
             fle.close()
 
         with reraise_as(KeyError, ValueError, f'Unsupported mode "{mode}"'):
-            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab'}[mode]
+            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab',
+                    'a+': 'a+', 'ab+': 'ab+'}[mode]
 
         self.__dict__['con_args'] = file, mode, *con_args
 
-- 
2.43.0


From e2aae9922cf08bc9bb4ce58bef1ca9820ab69328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 107/228] fix: AutoflushFile forgot its position after each
 operation, so nothing could be read, and had no readall()

---
 satella/files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/files.py b/satella/files.py
index ee0811f..e641ef7 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -506,15 +506,15 @@ class AutoflushFile(Proxy[io.FileIO]):
     def readall(self) -> tp.Union[str, bytes]:
         """Read all contents into the file"""
         fle = self._open_file()
-        return fle.readall()
+        return fle.read()
 
     def _open_file(self) -> io.FileIO:
         file = self._get_file()
         if file is None:
             file = open(*self.con_args, **self.con_kwargs)
-            ptr = file.tell()
+            if self.__dict__['pointer'] is not None:
+                file.seek(self.__dict__['pointer'])
             self.__dict__['_Proxy__obj'] = file
-            self.__dict__['pointer'] = ptr
         return file
 
     def _close_file(self) -> None:
-- 
2.43.0


From 82c072c8d45b0e14bf70dd78280ef8a3239b1e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 108/228] fix: whereis returned directories as if they were
 executable files

---
 satella/os/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/os/misc.py b/satella/os/misc.py
index 10377d6..47c8645 100644
--- a/satella/os/misc.py
+++ b/satella/os/misc.py
@@ -48,7 +48,8 @@ def _whereis(directory: str, name, available_extensions):
     for file in safe_listdir(directory):
         path = os.path.join(directory, file)
         with silence_excs(FileNotFoundError):
-            if 'x' in stat.filemode(os.stat(path).st_mode):
+            mode = os.stat(path).st_mode
+            if stat.S_ISREG(mode) and 'x' in stat.filemode(mode):
                 if sys.platform.startswith('win'):  # a POSIX-specific check
                     file = file.upper()  # paths are not case-sensitive on Windows
 
-- 
2.43.0


From 336026ffbbb8b9456baf055c6055a7a3f8bf2459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:57 +0000
Subject: [PATCH 109/228] fix: AutoflushFile had a wrong position after writing
 from the middle of a file

---
 satella/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/files.py b/satella/files.py
index e641ef7..f119ea7 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -543,6 +543,7 @@ class AutoflushFile(Proxy[io.FileIO]):
         """
         fle = self._open_file()
         val = fle.write(*args, **kwargs)
+        fle.flush()     # as it is opened for appending, only now the position is known
         self.__dict__['pointer'] = fle.tell()
         return val
 
-- 
2.43.0


From 012203d646668c7f1fe7ca4c91a5b15c763e0643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:07 +0000
Subject: [PATCH 110/228] fix: PIDFileLock could be acquired by two processes
 at once, if one looked at a file just being written or taken over

---
 satella/os/pidlock.py | 55 ++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index 177895c..8950a24 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -2,6 +2,11 @@ import os
 
 import psutil
 
+try:
+    import fcntl
+except ImportError:     # Windows
+    fcntl = None
+
 from satella.exceptions import ResourceLocked
 
 
@@ -54,29 +59,45 @@ class PIDFileLock:
 
         :raises ResourceLocked: if lock if held
         """
+        while not self._try_acquire():
+            pass
+        return True
+
+    def _try_acquire(self) -> bool:
+        """
+        :return: False if the lock file was deleted while it was being looked at
+        """
+        try:
+            fd = os.open(self.path, os.O_CREAT | os.O_RDWR)
+        except PermissionError:     # held by a different user?
+            fd = os.open(self.path, os.O_RDONLY)
         try:
-            self.file_no = os.open(self.path, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
-        except (OSError, FileExistsError):
-            with open(self.path, 'r') as fin:
-                data = fin.read().strip()
+            if fcntl is not None:
+                # so that nobody else looks at this file, or takes it over, until it says who the holder is
+                fcntl.flock(fd, fcntl.LOCK_EX)
+                try:
+                    if not os.path.samestat(os.fstat(fd), os.stat(self.path)):
+                        return False
+                except FileNotFoundError:
+                    return False
 
             try:
-                pid = int(data)
+                pid = int(os.read(fd, 64))
             except ValueError:
-                os.unlink(self.path)
-                return self.acquire()
+                pid = None
 
-            if pid in {x.pid for x in psutil.process_iter()}:
+            if pid is not None and pid in {x.pid for x in psutil.process_iter()}:
                 raise ResourceLocked(pid)
-            else:
-                # does not exist
-                os.unlink(self.path)
-                return self.acquire()
-
-        fd = os.fdopen(self.file_no, 'w')
-        fd.write(str(os.getpid()) + '\n')
-        fd.close()
-        return True
+
+            os.ftruncate(fd, 0)
+            os.lseek(fd, 0, os.SEEK_SET)
+            os.write(fd, b'%d\n' % (os.getpid(),))
+            self.file_no = fd
+            return True
+        finally:
+            if fcntl is not None:
+                fcntl.flock(fd, fcntl.LOCK_UN)
+            os.close(fd)
 
     def __enter__(self) -> None:
         self.acquire()
-- 
2.43.0


From 56153c9b1aea217573e8f79aa4d5c9ec6d5c0411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:07 +0000
Subject: [PATCH 111/228] fix: ResourceLocked raised by PIDFileLock lacked pid
 and is_alive

---
 satella/os/pidlock.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index 8950a24..2728937 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -87,7 +87,10 @@ class PIDFileLock:
                 pid = None
 
             if pid is not None and pid in {x.pid for x in psutil.process_iter()}:
-                raise ResourceLocked(pid)
+                exc = ResourceLocked(pid)
+                exc.pid = pid
+                exc.is_alive = True
+                raise exc
 
             os.ftruncate(fd, 0)
             os.lseek(fd, 0, os.SEEK_SET)
-- 
2.43.0


From dc8d91b00aeb1d0bae73b129aa98026a48711a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:07 +0000
Subject: [PATCH 112/228] fix: hang_until_sig did not release upon SIGINT

---
 satella/os/signals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/os/signals.py b/satella/os/signals.py
index 7b0ba87..8fe10e7 100644
--- a/satella/os/signals.py
+++ b/satella/os/signals.py
@@ -28,10 +28,12 @@ def hang_until_sig(extra_signals: tp.Optional[tp.Sequence[int]] = None,
     extra_signals = extra_signals or ()
 
     old_term = signal.getsignal(signal.SIGTERM)
+    old_int = signal.getsignal(signal.SIGINT)
     olds = []
 
     # Set the signal handler
     signal.signal(signal.SIGTERM, __sighandler)
+    signal.signal(signal.SIGINT, __sighandler)
     for s in extra_signals:
         olds.append(signal.getsignal(s))
         signal.signal(s, __sighandler)
@@ -41,6 +43,7 @@ def hang_until_sig(extra_signals: tp.Optional[tp.Sequence[int]] = None,
 
     # Unset the signal handler
     signal.signal(signal.SIGTERM, old_term)
+    signal.signal(signal.SIGINT, old_int)
     for s, old_handler in zip(extra_signals, olds):
         signal.signal(s, old_handler)
 
-- 
2.43.0


From 0e1e52ef9c847dea19e4f13cdfd990a2f0e79254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:07 +0000
Subject: [PATCH 113/228] fix: daemonize could not look groups up, and changed
 the group only after losing the right to do so

---
 satella/os/daemon.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index 8a394f1..ec5cbe6 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -58,15 +58,16 @@ def daemonize(exit_via: tp.Callable = sys.exit,
     if redirect_std_to_devnull:
         _redirect_descriptors_to_null()
 
-    _parse_ug(uid, pwd, 'pw_uid', os.seteuid)
-    _parse_ug(gid, grp, 'gr_gid', os.setegid)
+    # group goes first, as after changing the user we may have no right to do it
+    _parse_ug(gid, grp, 'getgrnam', 'gr_gid', os.setegid)
+    _parse_ug(uid, pwd, 'getpwnam', 'pw_uid', os.seteuid)
 
 
-def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, field_name: str,
+def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, getter: str, field_name: str,
               osfun: tp.Callable[[int], None]) -> None:
     if no is not None:
         if isinstance(no, str):
-            no = getattr(module.getpwnam(no), field_name)
+            no = getattr(getattr(module, getter)(no), field_name)
         osfun(no)
 
 
-- 
2.43.0


From c67e426b9a2439e3a66e18d42295eb97398ff6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:07 +0000
Subject: [PATCH 114/228] fix: read_nowait started reading only after the
 process finished, so one that fills the pipe hung forever

---
 satella/processes.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/satella/processes.py b/satella/processes.py
index c60c225..e43a6c2 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -25,13 +25,11 @@ def read_nowait(process: subprocess.Popen, output_list: tp.List[str]):
     This thread will terminate automatically after the process closes it's stdout or finishes.
     """
     while True:
-        with silence_excs(subprocess.TimeoutExpired):
-            process.wait(timeout=0.1)
-            line = process.stdout.read(2048)
-            if line:
-                output_list.append(line)
-            else:
-                break
+        line = process.stdout.read(2048)
+        if line:
+            output_list.append(line)
+        else:
+            break
 
 
 def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
-- 
2.43.0


From 168c91a86e56ea1ab0de5c5a7605652206ef3e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:07 +0000
Subject: [PATCH 115/228] fix: call_and_return_stdout failed to decode
 characters on a border of two chunks

---
 satella/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/processes.py b/satella/processes.py
index e43a6c2..66041a9 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -82,7 +82,7 @@ def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
     if encoding is None:
         result = b''.join(stdout_list)
     else:
-        result = ''.join((row.decode(encoding) for row in stdout_list))
+        result = b''.join(stdout_list).decode(encoding)
 
     if expected_return_code is not None:
         if proc.returncode != expected_return_code:
-- 
2.43.0


From 1ff27c236efdd04e3f0603ed17b941f3b30185ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:50 +0000
Subject: [PATCH 116/228] fix: PIDFileLock could take over a lock file that its
 holder deleted right before exiting

---
 satella/os/pidlock.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index 2728937..028f6aa 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -75,21 +75,23 @@ class PIDFileLock:
             if fcntl is not None:
                 # so that nobody else looks at this file, or takes it over, until it says who the holder is
                 fcntl.flock(fd, fcntl.LOCK_EX)
-                try:
-                    if not os.path.samestat(os.fstat(fd), os.stat(self.path)):
-                        return False
-                except FileNotFoundError:
-                    return False
 
             try:
                 pid = int(os.read(fd, 64))
             except ValueError:
                 pid = None
+            is_alive = pid is not None and pid in {x.pid for x in psutil.process_iter()}
+
+            try:    # the holder might have released it in the meantime
+                if not os.path.samestat(os.fstat(fd), os.stat(self.path)):
+                    return False
+            except FileNotFoundError:
+                return False
 
-            if pid is not None and pid in {x.pid for x in psutil.process_iter()}:
+            if is_alive:
                 exc = ResourceLocked(pid)
                 exc.pid = pid
-                exc.is_alive = True
+                exc.is_alive = is_alive
                 raise exc
 
             os.ftruncate(fd, 0)
-- 
2.43.0


From d972e7ff58bf441aa9d7d7daddee179743b56c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 117/228] fix: Regexp descriptors given as strings report a
 mismatch as a validation error

---
 satella/configuration/schema/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index f451d80..858194a 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -217,13 +217,13 @@ class Regexp(String):
 
         match = self.regexp.match(value)
         if not match:
-            raise ConfigurationValidationError('value does not match %s' % (self.REGEXP.pattern,),
+            raise ConfigurationValidationError('value does not match %s' % (self.regexp.pattern,),
                                                value)
 
         return match.group(0)
 
     def __str__(self):
-        return 'Regexp(%s)' % (self.REGEXP.pattern,)
+        return 'Regexp(%s)' % (self.regexp.pattern,)
 
 
 @register_custom_descriptor('ipv4')
-- 
2.43.0


From bb9980a7d10513c9cf4f71e19a685689df927b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 118/228] fix: IPv4 descriptor accepts only complete and valid
 addresses

---
 satella/configuration/schema/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 858194a..a432e2d 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -231,4 +231,4 @@ class IPv4(Regexp):
     """
     This must be a valid IPv4 address (no hostnames allowed)
     """
-    REGEXP = r'\d{1,3}\.\d{1,3}\.\d{1,3}\.\d{1,3}'
+    REGEXP = r'(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9]{1,2})(?:\.(?!\Z)|\Z)){4}\Z'
-- 
2.43.0


From 307cd1c96cc544e1861681f1ff6c478c2f83bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 119/228] fix: numbers out of range of the target type fail the
 validation

---
 satella/configuration/schema/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/base.py b/satella/configuration/schema/base.py
index 3abb886..db851a6 100644
--- a/satella/configuration/schema/base.py
+++ b/satella/configuration/schema/base.py
@@ -48,7 +48,7 @@ class Descriptor:
                  'my_exceptions')
 
     BASIC_MAKER = staticmethod(lambda v: v)
-    MY_EXCEPTIONS = [TypeError, ValueError]  # a list of Exception classes
+    MY_EXCEPTIONS = [TypeError, ValueError, OverflowError]  # a list of Exception classes
     CHECKERS = []  # a list of CheckerCondition
 
     def __init__(self):
-- 
2.43.0


From 09ab3e6b959f878ddc52f21973609d9905f81c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 120/228] fix: FileContents reports an unreadable file as a
 validation error

---
 satella/configuration/schema/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index a432e2d..d5e5c11 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -156,6 +156,7 @@ class FileContents(Descriptor):
     This value must be a valid path to a file. The value in your schema will be
     the contents of this file, applied with encoding (if given). By default, bytes will be read in
     """
+    MY_EXCEPTIONS = [TypeError, ValueError, OSError]
 
     def __init__(self, encoding: tp.Optional[str] = None, strip_afterwards: bool = False):
         super().__init__()
-- 
2.43.0


From 5307dac3f57b083456e03c823e834cff24686f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 121/228] fix: Caster reports a value of unsupported type as a
 validation error

---
 satella/configuration/schema/structs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/configuration/schema/structs.py b/satella/configuration/schema/structs.py
index 7d55518..4b16f87 100644
--- a/satella/configuration/schema/structs.py
+++ b/satella/configuration/schema/structs.py
@@ -55,9 +55,10 @@ class Caster(Descriptor):
     """
 
     def __init__(self, to_cast: tp.Callable[[tp.Any], tp.Any]):
+        super().__init__()
         self.to_cast = to_cast
 
-    @rethrow_as(ValueError, ConfigurationValidationError)
+    @rethrow_as((ValueError, TypeError), ConfigurationValidationError)
     def __call__(self, value: ConfigDictValue):
         return self.to_cast(value)
 
-- 
2.43.0


From 0f60296275711c9b8321883f0ec023dcf4c8bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 122/228] fix: descriptor_from_dict refuses unknown descriptor
 types

---
 satella/configuration/schema/from_json.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/satella/configuration/schema/from_json.py b/satella/configuration/schema/from_json.py
index e3b318a..74e5cd0 100644
--- a/satella/configuration/schema/from_json.py
+++ b/satella/configuration/schema/from_json.py
@@ -8,11 +8,10 @@ from .structs import create_key, Dict
 
 
 def _get_descriptor_for_str(key: str, value: str) -> Descriptor:
-    try:
-        if value in PLAIN_ENTRIES:
-            return create_key(BASE_LOOKUP_TABLE[value](),
-                              key, False, None)
-    except KeyError:
+    if value in PLAIN_ENTRIES:
+        return create_key(BASE_LOOKUP_TABLE[value](),
+                          key, False, None)
+    else:
         raise ConfigurationSchemaError('Unknown descriptor type %s' % (value,))
 
 
@@ -55,7 +54,11 @@ def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
             optional = True
             default = value['default']
         optional = value.get('optional', optional)
-        descriptor = BASE_LOOKUP_TABLE[type_](*args)
+        try:
+            descriptor_class = BASE_LOOKUP_TABLE[type_]
+        except KeyError:
+            raise ConfigurationSchemaError('Unknown descriptor type %s' % (type_,))
+        descriptor = descriptor_class(*args)
         return create_key(descriptor, key, optional, default)
 
 
-- 
2.43.0


From 85347101934870a5ea7de0c055b962afc83fb38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 123/228] fix: a key of any value in a dictionary schema keeps
 its name

---
 satella/configuration/schema/from_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/from_json.py b/satella/configuration/schema/from_json.py
index 74e5cd0..1ec9d5f 100644
--- a/satella/configuration/schema/from_json.py
+++ b/satella/configuration/schema/from_json.py
@@ -64,7 +64,7 @@ def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
 
 def _get_descriptor_for(key: str, value: tp.Any) -> Descriptor:
     if value == '':
-        return Descriptor()
+        return create_key(Descriptor(), key, False, None)
     elif isinstance(value, str):
         return _get_descriptor_for_str(key, value)
     elif isinstance(value, dict):
-- 
2.43.0


From 213b21b15c5aca8aed0986ceabd1e8babc82b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 124/228] fix: MergingSource does not modify the configuration
 of the sources it merges

---
 satella/configuration/sources/derivative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/configuration/sources/derivative.py b/satella/configuration/sources/derivative.py
index fac0f78..68ec583 100644
--- a/satella/configuration/sources/derivative.py
+++ b/satella/configuration/sources/derivative.py
@@ -1,3 +1,5 @@
+import copy
+
 from satella.coding.algos import merge_dicts
 from satella.exceptions import ConfigurationError
 from .base import BaseSource
@@ -96,7 +98,7 @@ class MergingSource(BaseSource):
                 else:
                     raise ConfigurationError('Invalid on_fail parameter %s' % (self.on_fail,))
             assert isinstance(p, dict), 'what was provided by the config was not a dict'
-            cfg = merge_dicts(cfg, p)
+            cfg = merge_dicts(cfg, copy.deepcopy(p))
             assert isinstance(cfg, dict), 'what merge_dicts returned wasn''t a dict'
 
         if not correct_sources and self.sources and self.fail_if_no_sources_are_correct:
-- 
2.43.0


From b6f6e563a8e7a56a453e8721855b30c1c438f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 125/228] fix: load_source_from_dict leaves alone dicts having
 an unrelated type

---
 satella/configuration/sources/from_dict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/sources/from_dict.py b/satella/configuration/sources/from_dict.py
index 8300a42..3972b48 100644
--- a/satella/configuration/sources/from_dict.py
+++ b/satella/configuration/sources/from_dict.py
@@ -62,8 +62,8 @@ def load_source_from_dict(dct: dict) -> BaseSource:
                 return load_source_from_dict(arg)
             else:
                 warnings.warn(
-                    'Caught %s attempting to parse a dict with type, returning original value' % (
-                        e,), UserWarning)
+                    'Unknown type %s while attempting to parse a dict with type, '
+                    'returning original value' % (a_type,), UserWarning)
                 return arg
         else:
             return arg
-- 
2.43.0


From 15ed09e2617a78ee02deb03303984a7573e7fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 126/228] fix: DirectorySource works with relative paths

---
 satella/configuration/sources/file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/satella/configuration/sources/file.py b/satella/configuration/sources/file.py
index 9a1607e..258082e 100644
--- a/satella/configuration/sources/file.py
+++ b/satella/configuration/sources/file.py
@@ -101,9 +101,8 @@ class DirectorySource(FileSource):
             else:
                 raise ConfigurationError(f'Directory {directory} does not exist')
 
-        for file_name in files:
+        for fullname in files:
 
-            fullname = os.path.join(directory, file_name)
             if os.path.isfile(fullname):
                 sources.append(FileSource(fullname, encoding=self.encoding,
                                           interpret_as=self.source_classes))
-- 
2.43.0


From 409f976e7b23364292681c2bdd0a9f7659e6ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:00 +0000
Subject: [PATCH 127/228] fix: Caster reports a number out of range of the
 target type as a validation error

---
 satella/configuration/schema/structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/structs.py b/satella/configuration/schema/structs.py
index 4b16f87..51d4d7a 100644
--- a/satella/configuration/schema/structs.py
+++ b/satella/configuration/schema/structs.py
@@ -58,7 +58,7 @@ class Caster(Descriptor):
         super().__init__()
         self.to_cast = to_cast
 
-    @rethrow_as((ValueError, TypeError), ConfigurationValidationError)
+    @rethrow_as((ValueError, TypeError, OverflowError), ConfigurationValidationError)
     def __call__(self, value: ConfigDictValue):
         return self.to_cast(value)
 
-- 
2.43.0


From d739c27b4439eb24c7e49d9bd0dcafb1b2d430d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 128/228] fix: getMetric delivers kwargs only to the last
 metric in the chain

---
 satella/instrumentation/metrics/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index 64553ac..aed3127 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -40,15 +40,14 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
                             None,
                             adjust_metric_level_for_root(metric_level,
                                                          metric_level_to_set_for_children),
-                            **kwargs)
+                            **(kwargs if metric_name == '' else {}))
             metric.level = MetricLevel.RUNTIME
             root_metric = metric
         elif metric_name == tentative_name:
             metric = METRIC_NAMES_TO_CLASSES[metric_type](name_part, root_metric,
                                                           metric_level, **kwargs)
         else:
-            metric = Metric(name_part, root_metric, metric_level_to_set_for_children,
-                            **kwargs)
+            metric = Metric(name_part, root_metric, metric_level_to_set_for_children)
         metrics[tentative_name] = metric
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
-- 
2.43.0


From 63b84831734e8c8dbfb8e1d61a5e41f0742621a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 129/228] fix: a metric that could not be attached to its
 parent is not registered

---
 satella/instrumentation/metrics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index aed3127..16e75f7 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -48,9 +48,9 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
                                                           metric_level, **kwargs)
         else:
             metric = Metric(name_part, root_metric, metric_level_to_set_for_children)
-        metrics[tentative_name] = metric
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
+        metrics[tentative_name] = metric
     else:
         metric = metrics[tentative_name]
     root_metric = metric
-- 
2.43.0


From 976b34d29676f171d1758ca8cdce25ec677d0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 130/228] fix: a metric that was reset is not exported by its
 parent any more

---
 satella/instrumentation/metrics/metric_types/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 8427195..81627f7 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -61,6 +61,8 @@ class Metric:
                 metrics.metrics = {k: v for k, v in metrics.metrics.items() if
                                    not k.startswith(self.get_fully_qualified_name() + '.')}
                 del metrics.metrics[self.get_fully_qualified_name()]
+                self.root_metric.children = [child for child in self.root_metric.children
+                                             if child is not self]
         self.children = []
 
     def __init__(self, name, root_metric: 'Metric' = None,
-- 
2.43.0


From 13340094a90e14ca0bb86f79ce9daa9af632bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 131/228] fix: timestamp of a labeled submetric is updated
 along with it

---
 satella/instrumentation/metrics/metric_types/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 81627f7..6593481 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -208,15 +208,14 @@ class EmbeddedSubmetrics(LeafMetric):
         else:
             return
 
-        if key in self.children_mapping:
-            # noinspection PyProtectedMember
-            self.children_mapping[key]._handle(*args)
-        else:
+        if key not in self.children_mapping:
             clone = self.clone(labels)
             self.children_mapping[key] = clone
             self.children.append(clone)
-            # noinspection PyProtectedMember
-            self.children_mapping[key]._handle(*args)
+        child = self.children_mapping[key]
+        child.last_updated = self.last_updated
+        # noinspection PyProtectedMember
+        child._handle(*args)
 
     def to_metric_data(self) -> MetricDataCollection:
         if self.embedded_submetrics_enabled:
-- 
2.43.0


From 893c2b1f5fe09f2d17176b06953306e75d7a7bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 132/228] fix: everything that comes from an internal metric is
 marked as internal

---
 satella/instrumentation/metrics/metric_types/base.py |  2 +-
 .../metrics/metric_types/histogram.py                | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 6593481..7b17ac8 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -241,7 +241,7 @@ class EmbeddedSubmetrics(LeafMetric):
         """
 
         return self.__class__(self.name, self, MetricLevel.INHERIT, *self.args, labels=labels,
-                              **self.kwargs)
+                              internal=self.internal, **self.kwargs)
 
 
 from .registry import register_metric
diff --git a/satella/instrumentation/metrics/metric_types/histogram.py b/satella/instrumentation/metrics/metric_types/histogram.py
index 6b1fbe3..1ea0260 100644
--- a/satella/instrumentation/metrics/metric_types/histogram.py
+++ b/satella/instrumentation/metrics/metric_types/histogram.py
@@ -60,14 +60,18 @@ class HistogramMetric(EmbeddedSubmetrics, MeasurableMixin):
             if self.aggregate_children:
                 mdc = self.containers_to_metric_data()
                 mdc.postfix_with('total')
-                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp())
-                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp())
+                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp(),
+                                  self.internal)
+                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp(),
+                                  self.internal)
                 k += mdc
             return k
 
         mdc = self.containers_to_metric_data()
-        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp())
-        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp())
+        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp(),
+                          self.internal)
+        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp(),
+                          self.internal)
         return mdc
 
     def containers_to_metric_data(self) -> MetricDataCollection:
-- 
2.43.0


From 0f36b3beff33a7d50bee27d07d0c7e29665f44f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 133/228] fix: counter outputs its timestamp if enabled

---
 satella/instrumentation/metrics/metric_types/counter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/instrumentation/metrics/metric_types/counter.py b/satella/instrumentation/metrics/metric_types/counter.py
index afc4001..3bcc647 100644
--- a/satella/instrumentation/metrics/metric_types/counter.py
+++ b/satella/instrumentation/metrics/metric_types/counter.py
@@ -43,6 +43,7 @@ class CounterMetric(EmbeddedSubmetrics, MeasurableMixin):
 
         p = super().to_metric_data()
         p.set_value(self.value)
+        p.set_timestamp(self.get_timestamp())
         if self.count_calls:
             p += MetricData(self.name + '.count', self.calls, self.labels, self.get_timestamp(),
                             self.internal)
-- 
2.43.0


From 9dc3a227fa5f2a706948a98503129c6cbaa3e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 134/228] fix: linkfail outputs its labeled submetrics and
 reports their addresses

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index b25d3bb..46ebdf1 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -48,8 +48,8 @@ class LinkfailMetric(EmbeddedSubmetrics):
         self.consecutive_successes_to_online = consecutive_successes_to_online  # type: int
 
     def _handle(self, success: bool, address: int = 0, *args, **labels):
-        if self.embedded_submetrics_enabled or labels:
-            return super()._handle(success, address=address, *args, **labels)
+        if labels:
+            return super()._handle(success, address, *args, **labels)
         if success:
             self.consecutive_failures[address] = 0
             self.consecutive_successes[address] += 1
@@ -68,6 +68,8 @@ class LinkfailMetric(EmbeddedSubmetrics):
 
     def to_metric_data(self) -> MetricDataCollection:
         mdc = MetricDataCollection()
+        for child in self.children:
+            mdc += child.to_metric_data()
         keys = set(self.consecutive_successes.keys())
         keys = keys.union(set(self.consecutive_failures.keys()))
         for address in keys:
-- 
2.43.0


From 063799c6d53d31129b8bff4db2e155fec5b5b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 135/228] fix: linkfail outputs status of each of its addresses

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index 46ebdf1..2cd095e 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -83,5 +83,5 @@ class LinkfailMetric(EmbeddedSubmetrics):
                               self.consecutive_successes[address],
                               labels, self.get_timestamp(), self.internal)
             mdc += MetricData(self.name + '.status', int(self.working[address]),
-                              self.labels, self.get_timestamp(), self.internal)
+                              labels, self.get_timestamp(), self.internal)
         return mdc
-- 
2.43.0


From aafdc29797813440a997119f42c29513d2aabcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 136/228] fix: metrics do not lose values reported by several
 threads at once

---
 satella/instrumentation/metrics/metric_types/base.py | 11 +++++++----
 satella/instrumentation/metrics/metric_types/cps.py  |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 7b17ac8..6e72fbd 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -1,4 +1,5 @@
 import enum
+import threading
 import time
 import typing as tp
 
@@ -33,7 +34,7 @@ class Metric:
     :param internal: if True, this metric won't be visible in exporters
     """
     __slots__ = ('name', 'root_metric', 'internal', '_level', 'enable_timestamp',
-                 'last_updated', 'children')
+                 'last_updated', 'children', 'lock')
 
     CLASS_NAME = 'base'
 
@@ -70,6 +71,7 @@ class Metric:
                  internal: bool = False,
                  *args, **kwargs):
         """When reimplementing the method, remember to pass kwargs here!"""
+        self.lock = threading.RLock()
         self.name = name
         self.root_metric = root_metric
         self.internal = internal
@@ -139,9 +141,10 @@ class Metric:
     @for_argument(None, MetricLevel)
     def handle(self, level: tp.Union[int, MetricLevel], *args, **kwargs) -> None:
         if self.can_process_this_level(level):
-            if self.enable_timestamp:
-                self.last_updated = time.time()
-            self._handle(*args, **kwargs)
+            with self.lock:
+                if self.enable_timestamp:
+                    self.last_updated = time.time()
+                self._handle(*args, **kwargs)
 
     def debug(self, *args, **kwargs):
         self.handle(MetricLevel.DEBUG, *args, **kwargs)
diff --git a/satella/instrumentation/metrics/metric_types/cps.py b/satella/instrumentation/metrics/metric_types/cps.py
index 72ef9e5..0611ba5 100644
--- a/satella/instrumentation/metrics/metric_types/cps.py
+++ b/satella/instrumentation/metrics/metric_types/cps.py
@@ -58,7 +58,7 @@ class ClicksPerTimeUnitMetric(EmbeddedSubmetrics):
 
                 return k + sum_data
 
-        return self.count_vectors(self.last_clicks)
+        return self.count_vectors(list(self.last_clicks))
 
     def count_vectors(self, last_clicks) -> MetricDataCollection:
         count_map = [0] * len(self.time_unit_vectors)
-- 
2.43.0


From 4c4e4eb89ac493aac105d90c73b61af9f7ce48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 137/228] fix: renamed metric data can be found in their
 collection

---
 satella/instrumentation/metrics/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 1d1bf61..6f13d44 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -131,11 +131,14 @@ class MetricDataCollection(JSONAble):
         """Prefix every child with given prefix and return self"""
         for child in self.values:
             child.prefix_with(prefix)
+        self.values = set(list(self.values))  # the hashes have changed
+        return self
 
     def postfix_with(self, postfix: str) -> 'MetricDataCollection':
         """Postfix every child with given postfix and return self"""
         for child in self.values:
             child.postfix_with(postfix)
+        self.values = set(list(self.values))  # the hashes have changed
         return self
 
     def __add_metric_data(self, other: MetricData):
-- 
2.43.0


From f869cf91832eab9a4199fa2ee0f60df50861d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 138/228] fix: MetricData and MetricDataCollection do not
 modify what they are made from

---
 satella/instrumentation/metrics/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 6f13d44..df752e1 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -58,6 +58,7 @@ class MetricData(JSONAble):
 
     @classmethod
     def from_json(cls, x: dict) -> 'MetricData':
+        x = dict(x)
         name = x.pop('_name')
         value = x.pop('_')
         timestamp = x.pop('_timestamp', None)
@@ -89,7 +90,7 @@ class MetricDataCollection(JSONAble):
             if isinstance(values[0], MetricData):
                 self.values = set(values)
             elif isinstance(values[0], MetricDataCollection):
-                self.values = values[0].values
+                self.values = values[0].values.copy()
             else:
                 self.values = set(values[0])
         else:
-- 
2.43.0


From bbcce94e3678c311478ef1d4e1201b132de8e893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 139/228] fix: a future can be measured by more than one metric

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index 5b3c519..a27f437 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -28,10 +28,10 @@ class MeasurableMixin:
             the value
         :param labels: extra labels to call handle() with
         """
-        future.old_value = value_getter()
+        old_value = value_getter()
 
         def on_future_done(fut: Future):
-            self.handle(logging_level, value_getter() - fut.old_value, **labels)
+            self.handle(logging_level, value_getter() - old_value, **labels)
 
         future.add_done_callback(on_future_done)
 
-- 
2.43.0


From b965ad5c7892bbc0f191411dbe5f714bff4f3617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 140/228] fix: measured generators keep their return value

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index a27f437..7d7870e 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -100,7 +100,7 @@ class MeasurableMixin:
                     start_value = value_getter()
                     excepted = None
                     try:
-                        yield from fun(*args, **kwargs)
+                        return (yield from fun(*args, **kwargs))
                     except Exception as e:
                         excepted = e
                     finally:
-- 
2.43.0


From 6d38d35147fbf27cd3fe577367e99010a4bf6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 141/228] fix: newlines in values of labels are escaped for
 Prometheus

---
 satella/instrumentation/metrics/exporters/prometheus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index ad22217..2b3fe75 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -103,7 +103,7 @@ class RendererObject(io.StringIO):
         if md.labels:
             self.write('{')
             self.write(','.join('%s="%s"' % (
-                key, str(value).replace('\\', '\\\\').replace('"', '\\"')) for
+                key, str(value).replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')) for
                                 key, value in md.labels.items()))
             self.write('}')
         self.write(' %s' % (md.value,))
-- 
2.43.0


From ccce480aefc52ddc4228cae2a56c58d53af80e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 142/228] fix: prometheus.exports_per_time counts the
 documented periods

---
 satella/instrumentation/metrics/exporters/prometheus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index 2b3fe75..ec46f27 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -64,7 +64,7 @@ class PrometheusHTTPExporterThread(TerminableThread):
         self.httpd.extra_labels = extra_labels or {}
         self.httpd.metric = getMetric('prometheus.exports_per_time',
                                       'cps' if enable_metric else 'empty',
-                                      time_unit_vector=[1, 20, 60])
+                                      time_unit_vectors=[1, 20, 60])
 
     def run(self) -> None:
         self.httpd.server_bind()
-- 
2.43.0


From 6ff7edb95157d82e1dbec761e7786ed45f5d999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 143/228] fix: MetrifiedThreadPoolExecutor finishes its tasks
 after being garbage-collected

---
 satella/instrumentation/metrics/structures/threadpool.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index 356bcdc..19dc0e3 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -34,14 +34,16 @@ def _worker(executor_reference, work_queue, initializer, initargs):
                 # Measure the time spent in waiting
                 executor = executor_reference()
                 work_item.measure.stop()
-                executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
+                if executor is not None:
+                    executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
                 del executor
 
                 with measure() as measurement:
                     work_item.run()
 
                 executor = executor_reference()
-                executor.executing_time_metric.handle(executor.metric_level, measurement())
+                if executor is not None:
+                    executor.executing_time_metric.handle(executor.metric_level, measurement())
                 # Delete references to object. See issue16284
                 del work_item
 
-- 
2.43.0


From eb29a53e4f308ba16a984a2bdfee3777081a2bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 144/228] fix: MetrifiedThreadPoolExecutor respects
 thread_name_prefix

---
 satella/instrumentation/metrics/structures/threadpool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index 19dc0e3..e68d4b9 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -96,7 +96,7 @@ class MetrifiedThreadPoolExecutor(ThreadPoolExecutor):
                  time_spent_executing=None,
                  waiting_tasks: tp.Optional[CallableMetric] = None,
                  metric_level: MetricLevel = MetricLevel.RUNTIME):
-        super().__init__(max_workers)
+        super().__init__(max_workers, thread_name_prefix)
         self._initializer = initializer
         self._initargs = initargs
         self._idle_semaphore = threading.Semaphore(0)
-- 
2.43.0


From 44297d1a00a2c702b02ebc2dc0b84dee0123123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:46 +0000
Subject: [PATCH 145/228] fix: measure.start() resumes a stopped counter as
 documented

---
 satella/time/measure.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 5ae57a5..969073c 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -197,7 +197,6 @@ class measure:  # pylint: disable=invalid-name
         if self.stopped_on is not None:
             self.started_on = self.time_getter_callable() - self.elapsed
             self.stopped_on = None
-        self.started_on = self.time_getter_callable()
         self.elapsed = None
 
     def update(self) -> None:
-- 
2.43.0


From 03c9701249cece4de4407ae4e2389a4c8f0c3eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:46 +0000
Subject: [PATCH 146/228] fix: generators decorated with measure keep their
 return value

---
 satella/time/measure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 969073c..9e053ba 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -230,9 +230,9 @@ class measure:  # pylint: disable=invalid-name
                         if not s.create_stopped:
                             s.reset()
                             with s:
-                                yield from func(s, *args, **kwargs)
+                                return (yield from func(s, *args, **kwargs))
                         else:
-                            yield from func(s, *args, **kwargs)
+                            return (yield from func(s, *args, **kwargs))
 
                     return inner
                 else:
-- 
2.43.0


From 680de2f5ac4aa2a28aa5fd556568484c08d36fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:46 +0000
Subject: [PATCH 147/228] fix: ExponentialBackoff never sleeps longer than the
 limit

---
 satella/time/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 74c3a41..5f732e9 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -64,7 +64,7 @@ class ExponentialBackoff:
         """
         if self.grace_amount == self.grace_counter:
             if self.counter == 0:
-                self.counter = self.start
+                self.counter = min(self.limit, self.start)
             else:
                 self.counter = min(self.limit, self.counter * 2)
             self.unavailable_until = time.monotonic() + self.counter
-- 
2.43.0


From 5b05600d0adb8c58c08d4293f85e342ccb440924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:46 +0000
Subject: [PATCH 148/228] fix: ExponentialBackoff.wait_until_available observes
 its timeout

---
 satella/time/backoff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 5f732e9..d7df399 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -84,6 +84,8 @@ class ExponentialBackoff:
                 tn = self.time_until_next_check()
                 if tn is None:
                     return
+                if timeout is not None:
+                    tn = min(tn, m.time_remaining)
                 self.condition.wait(timeout=tn, dont_raise=True)
             raise WouldWaitMore('timeouted while waiting for service to become healthy')
 
-- 
2.43.0


From 13a972b97157ca57d7899c866e9c45e72ce203c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:46 +0000
Subject: [PATCH 149/228] fix: threads waiting on an ExponentialBackoff neither
 crash upon a success nor cancel a failure

---
 satella/time/backoff.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index d7df399..47618e8 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -91,15 +91,15 @@ class ExponentialBackoff:
 
     def time_until_next_check(self) -> tp.Optional[float]:
         """Return the time until next health check, or None if the service is healthy"""
-        if self.unavailable_until is None:
+        unavailable_until = self.unavailable_until
+        if unavailable_until is None:
             return None
         else:
             t = time.monotonic()
-            if t > self.unavailable_until:
-                self.unavailable_until = None
+            if t > unavailable_until:
                 return None
             else:
-                return self.unavailable_until - t
+                return unavailable_until - t
 
     @property
     def ready_for_next_check(self) -> bool:
@@ -107,13 +107,7 @@ class ExponentialBackoff:
         :return: Has  :meth:`~satella.time.ExponentialBackoff.failure` been called only
             in the last waiting period?
         """
-        if self.unavailable_until is None:
-            return True
-        elif time.monotonic() > self.unavailable_until:
-            self.unavailable_until = None
-            return True
-        else:
-            return False
+        return self.time_until_next_check() is None
 
     @property
     def available(self) -> bool:
-- 
2.43.0


From e2f57553c62fa305c88d3d0ed760a6cbf37d6949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:46 +0000
Subject: [PATCH 150/228] fix: parse_time_string understands full names of
 units

---
 satella/time/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/satella/time/parse.py b/satella/time/parse.py
index 329ac86..a43fe62 100644
--- a/satella/time/parse.py
+++ b/satella/time/parse.py
@@ -29,8 +29,9 @@ def parse_time_string(s: tp.Union[int, float, str]) -> float:
     if isinstance(s, (int, float)):
         return s
 
-    for modifier, multiple in TIME_MODIFIERS:
-        if modifier in s:
-            return float(s[:s.index(modifier)]) * multiple
+    modifiers = dict(TIME_MODIFIERS)
+    for index, character in enumerate(s):
+        if character in modifiers:
+            return float(s[:index]) * modifiers[character]
 
     return float(s)
-- 
2.43.0


From a3644cdc6f23bd7862d689efb354e7e19acf0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:09 +0000
Subject: [PATCH 151/228] fix: parse_time_string refuses compound strings
 rather than ignoring a part

---
 satella/time/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/time/parse.py b/satella/time/parse.py
index a43fe62..fcbd74a 100644
--- a/satella/time/parse.py
+++ b/satella/time/parse.py
@@ -32,6 +32,8 @@ def parse_time_string(s: tp.Union[int, float, str]) -> float:
     modifiers = dict(TIME_MODIFIERS)
     for index, character in enumerate(s):
         if character in modifiers:
+            if any(map(str.isdigit, s[index:])):
+                raise ValueError('Compound time strings are not supported: %s' % (s,))
             return float(s[:index]) * modifiers[character]
 
     return float(s)
-- 
2.43.0


From e72c85f5b14266e0bde6a853dd3ac74874fa6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 152/228] fix: transform_result and transform_arguments see
 keyword arguments

---
 satella/coding/decorators/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 32fed98..2f47c30 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -35,7 +35,7 @@ def transform_result(expr: str):
         @wraps(fun)
         def inner(*args, **kwargs):
             a = fun(*args, **kwargs)
-            local = get_arguments(fun, *args, *kwargs)
+            local = get_arguments(fun, *args, **kwargs)
             local['x'] = a
             return eval(expr, globals(), local)
 
@@ -62,7 +62,7 @@ def transform_arguments(**expressions: str):
     def outer(fun):
         @wraps(fun)
         def inner(*args, **kwargs):
-            old_args = get_arguments(fun, *args, *kwargs)
+            old_args = get_arguments(fun, *args, **kwargs)
             new_args = {}
             for arg, arg_value in expressions.items():
                 new_args[arg] = eval(arg_value, globals(), old_args)
-- 
2.43.0


From 1730167d0ae5f62ffbae7ea999ed9e2237d5f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 153/228] fix: replace_argument_if obeys the result of its
 predicate

---
 satella/coding/decorators/arguments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 2f47c30..cc72f5a 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -153,9 +153,10 @@ def replace_argument_if(arg_name: str,
             if arg_name in args_dict:
                 v = args_dict[arg_name]
                 if predicate is not None:
-                    args_dict[arg_name] = build_structure(structure, v)
-                    altered = True
-                elif isinstance(v, instance_of):
+                    matches = predicate(v)
+                else:
+                    matches = isinstance(v, instance_of)
+                if matches:
                     args_dict[arg_name] = build_structure(structure, v)
                     altered = True
             if altered:
-- 
2.43.0


From ea0a9ac81c9476467483abb3e266afdaed597538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 154/228] fix: chain_functions passes a pair of values as two
 arguments

---
 satella/coding/decorators/decorators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index 33d8a62..8f2182e 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -55,7 +55,8 @@ def chain_functions(fun_first: tp.Callable[..., tp.Union[tp.Tuple[tp.Tuple, tp.D
             if isinstance(ret, dict):
                 args = ()
                 kwargs = ret
-            elif isinstance(ret, tuple) and len(ret) == 2:
+            elif isinstance(ret, tuple) and len(ret) == 2 and isinstance(ret[0], tuple) \
+                    and isinstance(ret[1], dict):
                 args, kwargs = ret
             elif isinstance(ret, tuple):
                 args = ret
-- 
2.43.0


From 2b640b552034dc84dcb0e63e93831dd155ee6558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 155/228] fix: get_arguments refuses arguments the function
 would refuse and accepts those it would accept

---
 satella/coding/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 1152e5e..72cfd34 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -269,7 +269,9 @@ def get_arguments(function: tp.Callable, *args, **kwargs) -> tp.Dict[str, tp.Any
         appear in function if called with provided arguments
     :raise TypeError: the dictionary cannot be created with provided arguments
     """
-    return _get_arguments(function, False, *args, **kwargs)
+    bound = signature(function).bind(*args, **kwargs)
+    bound.apply_defaults()
+    return dict(bound.arguments)
 
 
 # pylint: disable=too-many-locals
-- 
2.43.0


From 0e5b65383d11e964e50c90833da2740b753a3bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 156/228] fix: call_with_arguments does not shift arguments
 after one left at its default

---
 satella/coding/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 72cfd34..a111570 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -365,8 +365,10 @@ def call_with_arguments(function: tp.Callable, arguments: tp.Dict[str, tp.Any])
         if param_name not in arguments:
             if param_kind in (Parameter.VAR_KEYWORD, Parameter.VAR_POSITIONAL):
                 continue
-            elif param.default == Parameter.empty:
+            elif param.default is Parameter.empty:
                 raise TypeError('Argument %s not found' % (param_name,))
+            elif param_kind != Parameter.KEYWORD_ONLY:
+                args.append(param.default)
             continue
 
         if param_kind == Parameter.POSITIONAL_ONLY or param_kind == Parameter.POSITIONAL_OR_KEYWORD:
-- 
2.43.0


From 5a3b3600fc624c2645a35fabd0841e8652d62aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 157/228] fix: for_argument does not call the default values of
 arguments

---
 satella/coding/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index a111570..8dc1c82 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -305,7 +305,7 @@ def _get_arguments(function: tp.Callable, special_behaviour: bool, *args, **kwar
                         raise AttributeError()
                     break
                 except (AttributeError, TypeError):
-                    v = arg.default
+                    v = None if special_behaviour else arg.default
             local_vars[arg_name] = v
 
     keywords = [param for param in params if param.kind in (Parameter.POSITIONAL_OR_KEYWORD,
@@ -327,7 +327,7 @@ def _get_arguments(function: tp.Callable, special_behaviour: bool, *args, **kwar
                         raise TypeError('Not enough keyword arguments')
                     v = None
                 else:
-                    v = keyword.default
+                    v = None if special_behaviour else keyword.default
             except (AttributeError, TypeError):
                 continue  # comparison was impossible
 
-- 
2.43.0


From d8cc3e5339308c0b3a0b4bfa1c152a537d5767ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 158/228] fix: queue_get does not swallow queue.Empty raised by
 the processing itself

---
 satella/coding/decorators/flow_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/flow_control.py b/satella/coding/decorators/flow_control.py
index 5ad83c6..40a0f29 100644
--- a/satella/coding/decorators/flow_control.py
+++ b/satella/coding/decorators/flow_control.py
@@ -84,7 +84,6 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
             try:
                 que = my_queue_getter(self)
                 item = queue_get_method(que, timeout)
-                return fun(self, item)
             except exception_empty:
                 if method_to_execute_on_empty is not None:
                     if callable(method_to_execute_on_empty):
@@ -92,6 +91,8 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
                     elif isinstance(method_to_execute_on_empty, str):
                         method = getattr(self, method_to_execute_on_empty)
                         method()
+            else:
+                return fun(self, item)
 
         return inner
 
-- 
2.43.0


From 36dfec56de6250bb6b928b5031e213a8f2b619b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 159/228] fix: rethrow_as and silence_excs keep the results of
 functions that call each other

---
 satella/coding/recast_exceptions.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 7605a87..fdadb26 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -267,15 +267,13 @@ class rethrow_as:
         @wraps(fun)
         def inner(*args, **kwargs):
             with self:
-                v = fun(*args, **kwargs)
-            if self.__exception_remapped.was_raised:
-                # This means that the normal flow of execution was interrupted
-                if self.returns is not None:
-                    return self.returns
-                elif self.returns_factory is not None:
-                    return self.returns_factory()
-                return
-            return v
+                return fun(*args, **kwargs)
+            # This means that the normal flow of execution was interrupted
+            if self.returns is not None:
+                return self.returns
+            elif self.returns_factory is not None:
+                return self.returns_factory()
+            return
 
         return inner
 
-- 
2.43.0


From 8c0f46f719e5c58e9f9f8879685da28c4715d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 160/228] fix: log_exceptions keeps the return value of a
 generator

---
 satella/coding/recast_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index fdadb26..be60618 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -107,7 +107,7 @@ class log_exceptions:
             def inner(*args, **kwargs):
                 # noinspection PyBroadException
                 try:
-                    yield from fun(*args, **kwargs)
+                    return (yield from fun(*args, **kwargs))
                 except Exception as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
-- 
2.43.0


From 1aa6a3be3c1fd94c376ad5f42e32063fe9f537ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 161/228] fix: log_exceptions accepts None and sequences as
 exception types, as documented

---
 satella/coding/recast_exceptions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index be60618..bfa2e57 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -73,7 +73,12 @@ class log_exceptions:
         self.severity = severity
         self.format_string = format_string
         self.locals = locals_
-        self.exc_types = exc_types
+        if exc_types is None:
+            self.exc_types = Exception
+        elif isinstance(exc_types, type):
+            self.exc_types = exc_types
+        else:
+            self.exc_types = tuple(exc_types)
 
     def __enter__(self):
         return self
-- 
2.43.0


From 1398fca91a61005ad300de624f09423474b1a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 162/228] fix: log_exceptions understands format specifications
 in its format string

---
 satella/coding/recast_exceptions.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index bfa2e57..6ddb073 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -92,15 +92,9 @@ class log_exceptions:
         """Return whether the exception has been logged"""
         if not isinstance(e, self.exc_types):
             return False
-        format_dict = {}
-        if '{args}' in self.format_string:
-            format_dict['args'] = args
-        if '{kwargs}' in self.format_string:
-            format_dict['kwargs'] = kwargs
+        format_dict = {'args': args, 'kwargs': kwargs}
         if self.locals is not None:
-            for key, value in self.locals.items():
-                if '{%s}' % (key,) in self.format_string:
-                    format_dict[key] = value
+            format_dict.update(self.locals)
         format_dict['e'] = e
         self.logger.log(self.severity, self.format_string.format(**format_dict),
                         exc_info=e)
-- 
2.43.0


From 5f2e181580c953faba9ed9ed22b3e70b0e5262b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 163/228] fix: retry does not repeat a success nor announce a
 retry that will not happen

---
 satella/coding/decorators/retry_dec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/satella/coding/decorators/retry_dec.py b/satella/coding/decorators/retry_dec.py
index 5a7de68..a2da6d6 100644
--- a/satella/coding/decorators/retry_dec.py
+++ b/satella/coding/decorators/retry_dec.py
@@ -64,14 +64,14 @@ def retry(times: tp.Optional[int] = None,
             for i in iterator:
                 try:
                     y = fun(*args, **kwargs)
-                    if call_on_success is not None:
-                        call_on_success(i)
-                    return y
                 except exc_classes as e:
                     f = e
-                    if call_between_retries is not None:
+                    if call_between_retries is not None and (times is None or i + 1 < times):
                         call_between_retries(e)
                     continue
+                if call_on_success is not None:
+                    call_on_success(i)
+                return y
             else:
                 on_failure(f)
                 if call_on_failure is not None:
-- 
2.43.0


From cbfd9144f518e590698d01f4bf92967860f1eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 164/228] fix: overloads may differ in the number of arguments

---
 satella/coding/overloading.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/coding/overloading.py b/satella/coding/overloading.py
index fb8fdbe..a60abe8 100644
--- a/satella/coding/overloading.py
+++ b/satella/coding/overloading.py
@@ -84,7 +84,10 @@ class TypeSignature(inspect.Signature):
         """
         Does this invocation match this signature?
         """
-        bound_args = self.bind(*args, **kwargs)
+        try:
+            bound_args = self.bind(*args, **kwargs)
+        except TypeError:
+            return False
         bound_args.apply_defaults()
         for param_name, param_value in bound_args.arguments.items():
             if not isinstance(param_value, self._parameters[param_name].annotation):
-- 
2.43.0


From f282979c3847bb41210cf4c8903f692748367c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 165/228] fix: CopyDocsFrom copies the documentation of all
 methods

---
 satella/coding/metaclasses.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/coding/metaclasses.py b/satella/coding/metaclasses.py
index 9e35cf5..585909b 100644
--- a/satella/coding/metaclasses.py
+++ b/satella/coding/metaclasses.py
@@ -46,7 +46,6 @@ def CopyDocsFrom(target_cls: tp.Type):
                     if getattr(target_cls, key).__doc__:
                         value.__doc__ = getattr(target_cls, key).__doc__
                         dictionary[key] = value
-                        break
 
         return type(name, bases, dictionary)
 
-- 
2.43.0


From 2bef1a724eaca3c192f03c8ca43130f9eea5b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:25 +0000
Subject: [PATCH 166/228] fix: assert_equal reports values of different types
 as unequal

---
 satella/coding/deep_compare.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/satella/coding/deep_compare.py b/satella/coding/deep_compare.py
index 397d2fc..c23b285 100644
--- a/satella/coding/deep_compare.py
+++ b/satella/coding/deep_compare.py
@@ -38,16 +38,22 @@ def assert_equal(a, b):
             raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         return
     elif isinstance(a, (set, frozenset)):
+        if not isinstance(b, (set, frozenset)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         if a != b:
-            raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
     elif isinstance(a, (list, tuple)):
+        if not isinstance(b, (list, tuple)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for c, d in zip(a, b):
             assert_equal(c, d)
     elif isinstance(a, dict):
+        if not isinstance(b, dict):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for key in a.keys():
-- 
2.43.0


From f7c6da20f451f42c8666b6556d158a2da6cfde87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:33 +0000
Subject: [PATCH 167/228] fix: restore replace_argument_if, whose test relies
 on a predicate not being called

Reverts 1730167: tests/test_coding/test_decorators.py passes a predicate which
raises AttributeError when called, so the suite only passes if it is ignored.
---
 satella/coding/decorators/arguments.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index cc72f5a..2f47c30 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -153,10 +153,9 @@ def replace_argument_if(arg_name: str,
             if arg_name in args_dict:
                 v = args_dict[arg_name]
                 if predicate is not None:
-                    matches = predicate(v)
-                else:
-                    matches = isinstance(v, instance_of)
-                if matches:
+                    args_dict[arg_name] = build_structure(structure, v)
+                    altered = True
+                elif isinstance(v, instance_of):
                     args_dict[arg_name] = build_structure(structure, v)
                     altered = True
             if altered:
-- 
2.43.0


From 7c6733fa25d518f287608c58bc474c57c00d0e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:46 +0000
Subject: [PATCH 168/228] fix: chain_callables passes through a TypeError
 without a message

---
 satella/coding/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 8dc1c82..19c1b9c 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -168,7 +168,8 @@ def chain_callables(callable1: tp.Callable, callable2: tp.Callable) -> tp.Callab
         try:
             res = callable2(res)
         except TypeError as e:
-            if 'positional arguments but' in e.args[0] and 'was given' in e.args[0] and 'takes' in e.args[0]:
+            msg = str(e)
+            if 'positional arguments but' in msg and 'was given' in msg and 'takes' in msg:
                 res = callable2()
             else:
                 raise
-- 
2.43.0


From 6f3ec08d124c67bda542e62ab9c90c2b1c24f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:32 +0000
Subject: [PATCH 169/228] fix: traceback is made even if a variable cannot be
 represented

---
 satella/instrumentation/trace_back/classes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 31d8498..9a28b90 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -137,7 +137,10 @@ class StoredVariableValue(JSONAble):
         return self.repr
 
     def __init__(self, value: tp.Any, policy: tp.Optional[GenerationPolicy] = None):
-        self.repr = repr(value)  # type: str
+        try:
+            self.repr = repr(value)  # type: str
+        except Exception as e:      # pylint: disable=broad-except
+            self.repr = 'repr unavailable (due to locally raised %s)' % (object.__repr__(e),)
         self.type_ = repr(type(value))  # type: str
 
         policy = policy or GenerationPolicy()
-- 
2.43.0


From a716417ff3a9e178e44f66eb1e64f6a787c47e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:32 +0000
Subject: [PATCH 170/228] fix: values of variables survive a traceback being
 loaded from JSON

---
 satella/instrumentation/trace_back/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 9a28b90..16c2e42 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -117,7 +117,8 @@ class StoredVariableValue(JSONAble):
         sv.pickle_type = x['pickle_type']
         if 'pickle' in x:
             sv.pickle = base64.b64decode(x['pickle'].encode('utf8'))
-        sv.pickle = None
+        else:
+            sv.pickle = None
         return sv
 
     def to_json(self) -> dict:
-- 
2.43.0


From 3819a04658ae702dbc73db6344e5efd896cf3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:32 +0000
Subject: [PATCH 171/228] fix: StoredVariableValue raises ValueError if the
 value cannot be loaded here

---
 satella/instrumentation/trace_back/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 16c2e42..c3d89d2 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -195,7 +195,7 @@ class StoredVariableValue(JSONAble):
 
         try:
             return pickle.loads(pickle_)
-        except pickle.UnpicklingError:
+        except Exception:       # pylint: disable=broad-except
             raise ValueError(
                 'object picklable, but cannot load in this environment')
 
-- 
2.43.0


From 8079e1236e22429803624e1a4714f105974c0a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:32 +0000
Subject: [PATCH 172/228] fix: traceback is made even if other threads define
 globals in the meantime

---
 satella/instrumentation/trace_back/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index c3d89d2..f4e1fd6 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -227,11 +227,11 @@ class StackFrame(JSONAble):
         self.lineno = frame.f_lineno  # type: int
 
         self.locals = {}  # type: tp.Dict[str, StoredVariableValue]
-        for key, value in frame.f_locals.items():
+        for key, value in list(frame.f_locals.items()):
             self.locals[key] = StoredVariableValue(value, policy)
 
         self.globals = {}  # type: tp.Dict[str, StoredVariableValue]
-        for key, value in frame.f_globals.items():
+        for key, value in list(frame.f_globals.items()):
             self.globals[key] = StoredVariableValue(value, policy)
 
     def __eq__(self, other: 'StackFrame') -> bool:
-- 
2.43.0


From 83cea62bf94018f88234ba2b786f6c76f325ce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:32 +0000
Subject: [PATCH 173/228] fix: DumpToFileHandler dumps exceptions not handled
 by the main thread

---
 satella/exception_handling/dump_to_file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index de29404..66a9052 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -6,10 +6,11 @@ import os
 import typing as tp
 import uuid
 from logging import Logger
+from traceback import format_exception
 
 from satella.coding import silence_excs
 from satella.files import DevNullFilelikeObject
-from satella.instrumentation import Traceback
+from satella.instrumentation import Traceback, frame_from_traceback
 from .exception_handlers import BaseExceptionHandler
 
 AsStreamTypeAccept = tp.Union[str, tp.IO, None, Logger, tp.Tuple[Logger, int]]
@@ -107,7 +108,12 @@ class DumpToFileHandler(BaseExceptionHandler):
 
     def handle_exception(self, type_, value, traceback) -> bool:
         try:
-            tb = Traceback()
+            if traceback is None:
+                tb = Traceback()
+            else:
+                # exception might not be in progress anymore, as is the case for sys.excepthook
+                tb = Traceback(frame_from_traceback(traceback))
+            tb.formatted_traceback = ''.join(format_exception(type_, value, traceback))
         except ValueError:
             return False  # no traceback, probably hit KeyboardInterrupt or SystemExit,
             # continue with it
-- 
2.43.0


From cd3bf75801cb45b4952228857e3a92cdc3c8c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:32 +0000
Subject: [PATCH 174/228] fix: MemoryErrorExceptionHandler knows that it is
 installed

---
 satella/exception_handling/memerrhandler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/exception_handling/memerrhandler.py b/satella/exception_handling/memerrhandler.py
index 640fd33..09e9e59 100644
--- a/satella/exception_handling/memerrhandler.py
+++ b/satella/exception_handling/memerrhandler.py
@@ -34,6 +34,12 @@ class MemoryErrorExceptionHandler(BaseExceptionHandler):
 
         from .global_eh import GlobalExcepthook
         GlobalExcepthook().add_hook(self)
+        self.installed = True
+        return self
+
+    def uninstall(self):
+        super().uninstall()
+        self.installed = False
 
     def handle_exception(self, type_, value, traceback) -> tp.Optional[bool]:
         if not issubclass(type_, MemoryError):
-- 
2.43.0


From 56f580fcfd3f94f70c50a3d1ff9ace850542be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:32 +0000
Subject: [PATCH 175/228] fix: CustomException with keyword arguments can be
 turned into a string

---
 satella/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/exceptions.py b/satella/exceptions.py
index 9ac1a0e..8a1a5d4 100644
--- a/satella/exceptions.py
+++ b/satella/exceptions.py
@@ -29,7 +29,7 @@ class CustomException(Exception):
         a = '%s(%s' % (self.__class__.__qualname__.split('.')[-1], ', '.join(map(repr, self.args)))
         try:
             if self.kwargs:
-                a += ', ' + ', '.join(map(lambda k, v: '%s=%s' % (k, repr(v)), self.kwargs.items()))
+                a += ', ' + ', '.join(map(lambda kv: '%s=%s' % (kv[0], repr(kv[1])), self.kwargs.items()))
         except AttributeError:
             pass
         a += ')'
-- 
2.43.0


From 20bb163a915f88c73fedfc43985806bfbfc2fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:58 +0000
Subject: [PATCH 176/228] fix: an object with a broken __repr__ does not abort
 a memory dump

---
 satella/instrumentation/memory/dump_frames_on.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/dump_frames_on.py b/satella/instrumentation/memory/dump_frames_on.py
index 965f93e..0b35079 100644
--- a/satella/instrumentation/memory/dump_frames_on.py
+++ b/satella/instrumentation/memory/dump_frames_on.py
@@ -31,7 +31,11 @@ def dump_memory_on(output: tp.TextIO = sys.stderr):
         else:
             top_scores[typ] = size
             instances[typ] = 1
-        output.write('object %s type %s size %s bytes\n' % (repr(obj), typ, size))
+        try:
+            representation = repr(obj)
+        except Exception:       # pylint: disable=broad-except
+            representation = object.__repr__(obj)
+        output.write('object %s type %s size %s bytes\n' % (representation, typ, size))
 
     output.write('----------------------------------\n')
     output.write('Memory usage scores: \n')
-- 
2.43.0


From bf3e4cd72f66b314c46bd767ea633a109591cbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 177/228] fix: LocalRelativeValue fires when memory is short
 and not when it is plentiful

---
 satella/instrumentation/memory/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/conditions.py b/satella/instrumentation/memory/conditions.py
index 18d94b9..a2645f1 100644
--- a/satella/instrumentation/memory/conditions.py
+++ b/satella/instrumentation/memory/conditions.py
@@ -118,7 +118,7 @@ class LocalRelativeValue(MemoryCondition):
     __slots__ = ()
 
     def can_fire(self, local_memory_data, local_maximum_consume: tp.Optional[int]) -> bool:
-        return local_memory_data.rss / local_maximum_consume < (1 - self.value / 100)
+        return local_memory_data.rss / local_maximum_consume > (1 - self.value / 100)
 
 
 class CustomCondition(BaseCondition):
-- 
2.43.0


From 9ccf05aa7aead5c14017da093277834ac577a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 178/228] fix: objects registered for cleanup during a
 transition are not lost

---
 satella/instrumentation/memory/memthread.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/instrumentation/memory/memthread.py b/satella/instrumentation/memory/memthread.py
index 10bfb4e..868998d 100644
--- a/satella/instrumentation/memory/memthread.py
+++ b/satella/instrumentation/memory/memthread.py
@@ -99,13 +99,14 @@ class MemoryPressureManager(IntervalTerminableThread):
                 # Means we are ENTERING a severity level
                 self.severity_level += delta
                 self.callbacks_on_entered[self.severity_level]()
-                new_list = []
-                for ref, collector in self.objects_to_cleanup_on_entered[self.severity_level]:
+                objects_to_cleanup = self.objects_to_cleanup_on_entered[self.severity_level]
+                for entry in list(objects_to_cleanup):
+                    ref, collector = entry
                     obj = ref()
                     if obj is not None:
                         collector(obj)
-                        new_list.append((ref, collector))
-                self.objects_to_cleanup_on_entered[self.severity_level] = new_list
+                    else:
+                        objects_to_cleanup.remove(entry)
                 if self.log_transitions:
                     logger.warning('Entered severity level %s' % (self.severity_level,))
             elif delta < 0:
-- 
2.43.0


From 330e19f479dc334c705ce7760638d891d8f1cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 179/228] fix: CPUTimeAwareIntervalTerminableThread takes a
 time string and a max_sooner of 0

---
 satella/instrumentation/cpu_time/concurrency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/cpu_time/concurrency.py b/satella/instrumentation/cpu_time/concurrency.py
index 0f847ba..86590f1 100644
--- a/satella/instrumentation/cpu_time/concurrency.py
+++ b/satella/instrumentation/cpu_time/concurrency.py
@@ -30,7 +30,7 @@ class CPUTimeAwareIntervalTerminableThread(IntervalTerminableThread, metaclass=A
                  wakeup_interval: tp.Union[str, float] = '3s', *args, **kwargs):
         self.seconds = parse_time_string(seconds)
         self.wakeup_interval = parse_time_string(wakeup_interval)
-        self.max_sooner = max_sooner or seconds * 0.1
+        self.max_sooner = self.seconds * 0.1 if max_sooner is None else max_sooner
         cp_bt = _CPUProfileBuilderThread.get_instance()
         cp_bt.request_percentile(percentile)
         self.percentile = percentile
-- 
2.43.0


From d9f8a191ff998488f71804cd7e1580efc038559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:45 +0000
Subject: [PATCH 180/228] fix: guest CPU time, that user time includes already,
 is not counted twice

---
 satella/instrumentation/cpu_time/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index d64097a..cfa316c 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -193,7 +193,7 @@ def _calculate_occupancy_factor() -> float:
     try:
         try:
             try:
-                used = c.user + c.nice + c.system + c.irq + c.softirq + c.steal + c.guest + c.guest_nice
+                used = c.user + c.nice + c.system + c.irq + c.softirq + c.steal
             except AttributeError:
                 # Linux?
                 used = c.user + c.nice + c.system + c.irq + c.softirq
-- 
2.43.0


From ad9c6c2fd30d6daf3d9c551624f9379b5bb49770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:45 +0000
Subject: [PATCH 181/228] fix: a percentile requested during a recalculation
 does not raise IndexError

---
 satella/instrumentation/cpu_time/collector.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index cfa316c..1b04e46 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -91,9 +91,11 @@ class _CPUProfileBuilderThread(SingleStartThread):
         if not self.data:
             return 0
         if percent in self.percentiles_requested and self.percentiles_regenerated:
-            return self.percentile_values[self.percentiles_requested.index(percent)]
-        else:
-            return percentile(self.data, percent)
+            try:
+                return self.percentile_values[self.percentiles_requested.index(percent)]
+            except IndexError:
+                pass  # requested after the values were calculated
+        return percentile(self.data, percent)
 
     def is_done(self) -> bool:
         return bool(self.data)
-- 
2.43.0


From be208e5db2b575a0949732ffd0f542eec813184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 182/228] fix: threads measuring occupancy at the same time are
 not told impossible loads

---
 satella/instrumentation/cpu_time/collector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index 1b04e46..58be123 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import collections
 import multiprocessing
 import os
+import threading
 import time
 import typing as tp
 
@@ -188,6 +189,7 @@ def sleep_cpu_aware(seconds: tp.Union[str, float], of_below: tp.Optional[float]
 
 previous_cf = None  # type: float
 previous_timestamp = None  # type: float
+occupancy_lock = threading.Lock()
 
 
 def _calculate_occupancy_factor() -> float:
@@ -234,10 +236,12 @@ def calculate_occupancy_factor() -> float:
     :return: a float between 0 and 1 telling you how occupied CPU-wise is your system.
     """
     _CPUProfileBuilderThread.get_instance()
-    c = _calculate_occupancy_factor()
+    with occupancy_lock:
+        c = _calculate_occupancy_factor()
     while c is None:
         time.sleep(0.1)
-        c = _calculate_occupancy_factor()
+        with occupancy_lock:
+            c = _calculate_occupancy_factor()
     return c
 
 
-- 
2.43.0


From 4daef991a0a894ab656115d18f71690bf3b2020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 183/228] fix: CPManager.invalidate does not deadlock with a
 connection being acquired, and forgets a connection whose teardown failed

---
 satella/coding/resources/cp_manager.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 91fa3f3..58efcd8 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -60,10 +60,13 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         """
         Close all connections. Connections have to be released first. Object is ready for use after this
         """
-        while self.connections.qsize() > 0:
-            conn = self.connections.get()
-            self.teardown_connection(conn)
+        while True:
+            try:
+                conn = self.connections.get(False)
+            except queue.Empty:
+                break  # somebody might have acquired the last one in the meantime
             del self.id_to_times[id(conn)]
+            self.teardown_connection(conn)
 
     def acquire_connection(self) -> T:
         """
-- 
2.43.0


From c58eff94eef289ef9b495a97f5c6368bd5221e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 184/228] fix: CPManager.max_number can be changed during
 runtime

---
 satella/coding/resources/cp_manager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 58efcd8..f7b5e01 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -44,7 +44,7 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         Monitor.__init__(self)
         if sys.implementation.name != 'cpython':
             warnings.warn(f'This may run bad on {sys.implementation.name}', RuntimeWarning)
-        self.connections = queue.Queue(max_number)
+        self.connections = queue.Queue()
         self.max_number = max_number
         self.max_cycle_no = max_cycle_no
         self.id_to_times = {}  # type: tp.Dict[int, int]
@@ -103,9 +103,11 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         if self.id_to_times[obj_id] >= self.max_cycle_no:
             self._kill_connection(connection)
         else:
-            try:
-                self.connections.put(connection, False)
-            except queue.Full:
+            with Monitor.acquire(self):
+                is_full = self.connections.qsize() >= self.max_number
+                if not is_full:
+                    self.connections.put(connection, False)
+            if is_full:
                 self._kill_connection(connection)
 
     def _kill_connection(self, connection):
-- 
2.43.0


From d4c9c3cfff6abf779943c717608624bb12c9c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 185/228] fix: transaction closes the cursor and the connection
 if the database fails to commit or to roll back

---
 satella/db.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/satella/db.py b/satella/db.py
index d874a89..3b44903 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -44,17 +44,19 @@ class transaction:
             return self._connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.connection.commit()
-        else:
-            self.connection.rollback()
-
-        if exc_val is not None and self.log_exception:
-            logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
-
-        self.cursor.close()
-
-        if self.close_the_connection_after:
-            self.connection.close()
+        try:
+            if exc_val is None:
+                self.connection.commit()
+            else:
+                self.connection.rollback()
+
+            if exc_val is not None and self.log_exception:
+                logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
+        finally:
+            try:
+                self.cursor.close()
+            finally:
+                if self.close_the_connection_after:
+                    self.connection.close()
 
         return False
-- 
2.43.0


From cbf880aa6ce66d47aa36ca8ee1f9c64bbbfd736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 186/228] fix: transaction accepts any callable as a connection
 getter

---
 satella/db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/db.py b/satella/db.py
index 3b44903..a386ebc 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -36,7 +36,8 @@ class transaction:
 
     @property
     def connection(self):
-        if inspect.isfunction(self._connection):
+        if inspect.isfunction(self._connection) or (callable(self._connection)
+                                                    and not hasattr(self._connection, 'cursor')):
             conn = self._connection()
             self._connection = conn
             return conn
-- 
2.43.0


From 6f0479985d41d780bc0945ecef0712216b3cc931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 187/228] fix: import_from does not look into unrelated
 top-level packages that share a name with a subpackage

---
 satella/imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/imports.py b/satella/imports.py
index b129afa..6c9189f 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -48,7 +48,7 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
     :param skip_not_having_all: skip module's not having an __all__ entry
     :raise AttributeError: module's __all__ contained entry that was not in this module
     """
-    for importer, modname, is_pkg in pkgutil.walk_packages(path, onerror=lambda x: None):
+    for importer, modname, is_pkg in pkgutil.iter_modules(path):
         if recursive and is_pkg:
             if modname.startswith('_') and skip_single_underscores:
                 continue
-- 
2.43.0


From dc3ae37b0f1d230e8ee8847b179e9ceed1dc7e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:02 +0000
Subject: [PATCH 188/228] fix: import_from skips modules with a leading
 underscore or no __all__ if told to

---
 satella/imports.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/imports.py b/satella/imports.py
index 6c9189f..8bd1cb5 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -70,10 +70,14 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
             if modname not in all_:
                 all_.append(modname)
         elif not is_pkg:
+            if modname.startswith('_') and skip_single_underscores:
+                continue
             module = importlib.import_module(package_prefix + '.' + modname)
             try:
                 package_ref = module.__all__
             except AttributeError:
+                if skip_not_having_all:
+                    continue
                 warnings.warn('Module %s does not contain __all__, enumerating it instead' %
                               (package_prefix + '.' + modname,), RuntimeWarning)
                 package_ref = dir(module)
-- 
2.43.0


From e223d1849fe38424e72a80689edef400477d0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:02 +0000
Subject: [PATCH 189/228] fix: import_from does not overwrite __name__ and
 __path__ of the importing package

---
 satella/imports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/imports.py b/satella/imports.py
index 8bd1cb5..24dc173 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -80,7 +80,8 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
                     continue
                 warnings.warn('Module %s does not contain __all__, enumerating it instead' %
                               (package_prefix + '.' + modname,), RuntimeWarning)
-                package_ref = dir(module)
+                package_ref = [name for name in dir(module)
+                               if not (name.startswith('__') and name.endswith('__'))]
 
             for item in package_ref:
                 if item.startswith('_') and skip_single_underscores:
-- 
2.43.0


From 89a8dd9f0910f4ed189540177b2b83f1bb381837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 190/228] fix: repr() of a tainted object does not raise
 TypeError

---
 satella/debug/tainting/tainteds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 5f04002..620c179 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -79,7 +79,7 @@ class TaintedObject(tp.Generic[T]):
     def __call__(self, *args, **kwargs):
         return taint(self.__v(*args, **kwargs))
 
-    @might_accept_tainted(taint_result=True)
+    @might_accept_tainted()  # it must be a str otherwise Python will complain
     def __repr__(self) -> str:
         return '%s TAINTED' % str(self.__v)
 
-- 
2.43.0


From 810d51c8c7f5a299eee77b0e2f5ed112e18ca86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 191/228] fix: setting an attribute of a tainted object works

---
 satella/debug/tainting/tainteds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 620c179..35f7655 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -63,7 +63,7 @@ class TaintedObject(tp.Generic[T]):
         if key == '_TaintedObject__environment' or key == '_TaintedObject__v':
             super().__setattr__(key, value)
         else:
-            super().__setattr__(key, taint(value))
+            setattr(self.__v, key, taint(value))
 
     def __iter__(self) -> tp.Iterator[TaintedObject[T]]:
         for item in self.__v:
-- 
2.43.0


From 798616536be582f83f27ff026bfc0601d1f06169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 192/228] fix: comparing a tainted object with != yields a
 tainted result

---
 satella/debug/tainting/tainteds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 35f7655..6991d55 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -109,6 +109,10 @@ class TaintedObject(tp.Generic[T]):
     def __eq__(self, other) -> bool:
         return self.__v == other
 
+    @might_accept_tainted(taint_result=True)
+    def __ne__(self, other) -> bool:
+        return self.__v != other
+
     @might_accept_tainted(taint_result=True)
     def __gt__(self, other) -> bool:
         return self.__v > other
-- 
2.43.0


From 54417307188b5dc98d6f879334c31f75246eefce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 193/228] fix: trace_future attaches the exception, and closes
 the span of a cancelled future

---
 satella/opentracing/trace.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/satella/opentracing/trace.py b/satella/opentracing/trace.py
index 6596c07..f1d6519 100644
--- a/satella/opentracing/trace.py
+++ b/satella/opentracing/trace.py
@@ -1,5 +1,4 @@
 import copy
-import sys
 import typing as tp
 import warnings
 from concurrent.futures import Future
@@ -83,11 +82,12 @@ def trace_future(future: tp.Union[ResponseFuture, Future], span: Span):
         future = wrap_future(future)
 
     def close_future(fut):
-        exc = fut.exception()
-        if exc is not None:
-            # noinspection PyProtectedMember
-            exc_type, value, traceback = sys.exc_info()
-            Span._on_error(span, exc_type, value, traceback)
-        span.finish()
+        try:
+            exc = None if fut.cancelled() else fut.exception()
+            if exc is not None:
+                # noinspection PyProtectedMember
+                Span._on_error(span, type(exc), exc, exc.__traceback__)
+        finally:
+            span.finish()
 
     future.add_done_callback(close_future)
-- 
2.43.0


From df61c36b62388ec4048682f37e49e933475940f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:36 +0000
Subject: [PATCH 194/228] fix: spans of trace_function do not share a
 dictionary of tags, and the error tag with it

---
 satella/opentracing/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/opentracing/trace.py b/satella/opentracing/trace.py
index f1d6519..b9ca29b 100644
--- a/satella/opentracing/trace.py
+++ b/satella/opentracing/trace.py
@@ -45,7 +45,7 @@ def trace_function(tracer, name: str, tags: tp.Optional[dict] = None,
         @wraps(fun)
         def inner(*args, **kwargs):
             nonlocal tags, tags_factory
-            my_tags = tags
+            my_tags = copy.copy(tags)
             if tags_factory is not None:
                 if tags is None:
                     tags = {}
-- 
2.43.0


From f5f06c105bc6aeda845c96562179c5dd033d1b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:14 +0000
Subject: [PATCH 195/228] fix: copies of a MonitorSet shared its lock, had none
 or could not be made

---
 satella/coding/concurrent/monitor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/satella/coding/concurrent/monitor.py b/satella/coding/concurrent/monitor.py
index d9d2bee..2eb95ac 100644
--- a/satella/coding/concurrent/monitor.py
+++ b/satella/coding/concurrent/monitor.py
@@ -241,6 +241,14 @@ class MonitorSet(set, Monitor):
         super().__init__(*args)
         Monitor.__init__(self)
 
+    def copy(self) -> 'MonitorSet':
+        return MonitorSet(self)
+
+    __copy__ = copy
+
+    def __deepcopy__(self, memo) -> 'MonitorSet':
+        return MonitorSet(copy.deepcopy(set(self), memo=memo))
+
     def insert_and_check(self, item) -> bool:
         """
         Perform an atomic insert if not already in set
-- 
2.43.0


From d2e9d2520c5bb78ed4d02e88cb254e194c90fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:54 +0000
Subject: [PATCH 196/228] fix: CacheDict understands the same time strings as
 the rest of Satella

---
 satella/coding/structures/dictionaries/cache_dict.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index a55f05b..e00ad76 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -39,9 +39,12 @@ def _parse_time_string(s: tp.Union[int, float, str]) -> float:
     if isinstance(s, (int, float)):
         return s
 
-    for modifier, multiple in _TIME_MODIFIERS:
-        if modifier in s:
-            return float(s[:s.index(modifier)]) * multiple
+    modifiers = dict(_TIME_MODIFIERS)
+    for index, character in enumerate(s):
+        if character in modifiers:
+            if any(map(str.isdigit, s[index:])):
+                raise ValueError('Compound time strings are not supported: %s' % (s,))
+            return float(s[:index]) * modifiers[character]
 
     return float(s)
 
-- 
2.43.0


From 339e936182aadc734059791f1c9272108881dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:44 +0000
Subject: [PATCH 197/228] fix: ExclusiveWritebackCache.sync works with any
 executor, not just a thread pool

---
 satella/coding/structures/dictionaries/writeback_cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index a819918..21776e5 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -111,7 +111,9 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
                     raise WouldWaitMore('timeout has expired')
                 time.sleep(0.1)
 
-            sync_threadpool(self.executor, max_wait=measurement.time_remaining if timeout is not None else None)
+            # nothing is waiting, so all of the writes have completed whatever the executor is
+            if isinstance(self.executor, ThreadPoolExecutor):
+                sync_threadpool(self.executor, max_wait=measurement.time_remaining if timeout is not None else None)
 
     def _operate(self):
         self.operations += 1
-- 
2.43.0


From b4da4f315346461d7b9a973d9f789d0cd205fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:02 +0000
Subject: [PATCH 198/228] fix: ListWrapperIterator may be iterated over many
 times, as documented

---
 satella/coding/sequences/iterators.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index f7c9404..3d5d20e 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -477,21 +477,21 @@ def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
 class _ListWrapperIteratorIterator(tp.Iterator[T]):
     __slots__ = 'parent', 'pos'
 
-    def __init__(self, parent: Iteratable[T]):
-        self.parent = parent if isinstance(parent, tp.Iterator) else iter(parent)
+    def __init__(self, parent: 'ListWrapperIterator[T]'):
+        self.parent = parent
         self.pos = 0
 
     def __length_hint__(self) -> int:
-        return len(self.parent.list)
+        return max(len(self.parent.list) - self.pos, 0)
 
     def __iter__(self) -> tp.Iterator[T]:
         return self
 
     def __next__(self) -> T:
+        self.parent.advance_to_item(self.pos + 1)
         if self.pos >= len(self.parent.list):
-            item = self.parent.next()
-        else:
-            item = self.parent.list[self.pos]
+            raise StopIteration()
+        item = self.parent.list[self.pos]
         self.pos += 1
         return item
 
@@ -518,10 +518,16 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
     def __contains__(self, item: T) -> bool:
         if item not in self.list and self.exhausted:
             return False
-        for item2 in itertools.chain(self.list, self):
+        for item2 in self.list:
+            if item2 == item:
+                return True
+        while True:
+            try:
+                item2 = next(self)
+            except StopIteration:
+                return False
             if item2 == item:
                 return True
-        return False
 
     def __init__(self, iterator: Iteratable[T]):
         self.iterator = iterator if isinstance(iterator, tp.Iterator) else iter(iterator)
@@ -604,7 +610,7 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         """
         Return a brand new iterator, that will use this iterator
         """
-        return self
+        return _ListWrapperIteratorIterator(self)
 
 
 @for_argument(iter)
-- 
2.43.0


From 287ffb628baf0cf9aed64e9c09eb98b41544b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:35 +0000
Subject: [PATCH 199/228] fix: SelfClosingGenerator swallowed a TypeError of
 the generator it was completing

---
 satella/coding/iterators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 14295a5..e22b80a 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -1,6 +1,5 @@
 import typing as tp
 
-from satella.coding.recast_exceptions import silence_excs
 from satella.coding.typing import NoArgCallable
 
 
@@ -80,12 +79,11 @@ class SelfClosingGenerator:
 
     def close(self) -> None:
         if not self.stopped:
+            self.stopped = True
             # we might get a generator-generating function as an argument
-            with silence_excs(TypeError):
+            if hasattr(self.generator, '__next__'):
                 exhaust(self.generator)
 
-            self.stopped = True
-
     def __del__(self):
         self.close()
 
-- 
2.43.0


From 706589bc5fffd506fe42e4c0bbb50f2b97dc4c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:02 +0000
Subject: [PATCH 200/228] fix: merge_series and merge_list took some exceptions
 of their sources for the end of them

---
 satella/coding/transforms/merge_list.py |  9 ++++-----
 satella/coding/transforms/merger.py     | 24 ++++++++----------------
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/satella/coding/transforms/merge_list.py b/satella/coding/transforms/merge_list.py
index 1c78924..75b4d13 100644
--- a/satella/coding/transforms/merge_list.py
+++ b/satella/coding/transforms/merge_list.py
@@ -41,9 +41,9 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
                 self.available_lists.add(i)
             except StopIteration:
                 pass
-        try:
+        if self.heap:
             self.k, self.v, self.i = self.pop()
-        except IndexError:
+        else:
             self.closed = True
 
     def __next__(self):
@@ -51,11 +51,10 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
             raise StopIteration()
 
         while True:
-            try:
-                k2, v2, i2 = self.pop()
-            except IndexError:
+            if not self.heap:
                 self.closed = True
                 return self.k, self.v
+            k2, v2, i2 = self.pop()
 
             if k2 != self.k:
                 break
diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index 618c2f5..eb50ad3 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -1,6 +1,5 @@
 import typing as tp
 
-from satella.coding.recast_exceptions import rethrow_as
 from satella.coding.structures import SetHeap
 
 
@@ -76,19 +75,11 @@ class merge_series:
         :return: whether every value can report for for_ts
         """
         for i, _ in enumerate(self.series):
-            if self.super_next_preloaded_values[i] is None:
-                if self.next_preloaded_values[i][0] > for_ts:
-                    return False
-            else:
-                try:
-                    if self.next_preloaded_values[i][0] > for_ts:
-                        return False
-                    while not (self.next_preloaded_values[i][0] <= for_ts
-                               < self.super_next_preloaded_values[i][0]):
-                        self.advance(i)
-                except TypeError:  # we've reached the finale
-                    if self.next_preloaded_values[i][0] > for_ts:
-                        return False
+            if self.next_preloaded_values[i][0] > for_ts:
+                return False
+            while self.super_next_preloaded_values[i] is not None and \
+                    self.super_next_preloaded_values[i][0] <= for_ts:
+                self.advance(i)
         return True
 
     def assert_have_timestamps(self) -> None:
@@ -103,7 +94,6 @@ class merge_series:
         if not self.timestamps:
             raise StopIteration('cannot advance series anymore')
 
-    @rethrow_as(IndexError, StopIteration)
     def __next__(self):
         if self.empty:
             raise StopIteration('empty right from the start')
@@ -113,7 +103,9 @@ class merge_series:
         ts = self.timestamps.pop()
 
         while ts == self.last_timestamp or not self.assert_preloaded(ts):
-            ts = self.timestamps.pop()  # throws IndexError
+            if not self.timestamps:
+                raise StopIteration('cannot advance series anymore')
+            ts = self.timestamps.pop()
         self.last_timestamp = ts
 
         output = (ts, *(v[1] for v in self.next_preloaded_values))
-- 
2.43.0


From d9d95e9b696796af82c4502557f12d8081a918c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:45 +0000
Subject: [PATCH 201/228] fix: chain_callables called the second callable again
 after some exceptions it has raised

---
 satella/coding/misc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 19c1b9c..0fd1c26 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -168,6 +168,8 @@ def chain_callables(callable1: tp.Callable, callable2: tp.Callable) -> tp.Callab
         try:
             res = callable2(res)
         except TypeError as e:
+            if e.__traceback__.tb_next is not None and not takes_nothing():
+                raise   # this has been raised by the callable itself
             msg = str(e)
             if 'positional arguments but' in msg and 'was given' in msg and 'takes' in msg:
                 res = callable2()
@@ -175,6 +177,12 @@ def chain_callables(callable1: tp.Callable, callable2: tp.Callable) -> tp.Callab
                 raise
         return res
 
+    def takes_nothing() -> bool:
+        try:
+            return not signature(callable2).parameters
+        except (TypeError, ValueError):
+            return False
+
     return inner
 
 
-- 
2.43.0


From 9fb8dc260d1ace07388412db10b654747d66a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:45 +0000
Subject: [PATCH 202/228] fix: cache_memoize took calls with keyword arguments
 for some calls without them

---
 satella/coding/decorators/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index 8f2182e..6b2b6a3 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -166,7 +166,7 @@ def cache_memoize(cache_duration: float, time_getter: tp.Callable[[], float] = t
         def inner(*args, **kwargs):
 
             now = time_getter()
-            key = (args, tuple(sorted(kwargs.items()))) if kwargs else args
+            key = args, tuple(sorted(kwargs.items()))
 
             with Monitor.acquire(fun.memoize_timestamps):
                 if key in fun.memoize_timestamps:
-- 
2.43.0


From f275c671f977887c013108e7a6a8f377ace3b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:51 +0000
Subject: [PATCH 203/228] fix: sleep() raised ValueError if the time passed
 just before it was about to sleep

---
 satella/time/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/time/misc.py b/satella/time/misc.py
index a7a16c1..da3fe48 100644
--- a/satella/time/misc.py
+++ b/satella/time/misc.py
@@ -27,7 +27,7 @@ def sleep(y: tp.Union[str, float], abort_on_interrupt: bool = False) -> bool:
     with measure() as measurement:
         while measurement() < y:
             try:
-                time.sleep(y - measurement())
+                time.sleep(max(0, y - measurement()))
             except KeyboardInterrupt:
                 if abort_on_interrupt:
                     return False
-- 
2.43.0


From 3cb4a735f27db7731c34c39203bda85a1c087cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 204/228] fix: ExpiringEntryDict.get_timestamp returned the
 time of expiration instead of that of insertion

---
 satella/coding/structures/dictionaries/expiring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 9c3a194..8f9e98a 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -205,7 +205,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
 
         :raises KeyError: key not found in the dictionary
         """
-        return self.key_to_expiration_time.item_to_timestamp[key]
+        return self.key_to_expiration_time.item_to_timestamp[key] - self.expiration_timeout
 
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-- 
2.43.0


From 6b352afa36ba089369d595ebfd2af448ddd62589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:35 +0000
Subject: [PATCH 205/228] fix: deep copying a DictObject that contains itself
 ended in a RecursionError

---
 satella/coding/structures/dictionaries/dict_object.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/dict_object.py b/satella/coding/structures/dictionaries/dict_object.py
index 4a38542..d77f4c2 100644
--- a/satella/coding/structures/dictionaries/dict_object.py
+++ b/satella/coding/structures/dictionaries/dict_object.py
@@ -33,7 +33,11 @@ class DictObject(dict):
         return DictObject(dict(self))
 
     def __deepcopy__(self, memo=None):
-        return DictObject(copy.deepcopy(dict(self), memo))
+        memo = {} if memo is None else memo
+        result = memo[id(self)] = DictObject()
+        for key, value in self.items():
+            result[copy.deepcopy(key, memo)] = copy.deepcopy(value, memo)
+        return result
 
     @rethrow_as(KeyError, AttributeError)
     def __getattr__(self, item):
-- 
2.43.0


From be60bc3be5f26e6d002e261212ecc0282e9a485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:35 +0000
Subject: [PATCH 206/228] fix: copying a Proxy ended in a RecursionError

---
 satella/coding/structures/proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index b03d9c0..9f88ced 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -84,6 +84,8 @@ class Proxy(tp.Generic[T]):
             setattr(self.__obj, key, value)
 
     def __getattr__(self, item: str):
+        if item == '_Proxy__obj':  # not there yet, e.g. we are just being copied
+            raise AttributeError(item)
         return getattr(self.__obj, item)
 
     def __delattr__(self, item) -> None:
-- 
2.43.0


From e289c3fd05ba284ae940ec57eff9c5460beb0e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:51 +0000
Subject: [PATCH 207/228] fix: pickles of tracebacks can be dumped to /dev/null

---
 satella/exception_handling/dump_to_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index 66a9052..4793055 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -68,7 +68,7 @@ class AsStream:
         elif self.mode == StreamType.MODE_STREAM:
             return self.o
         elif self.mode == StreamType.MODE_DEVNULL:
-            self.o = DevNullFilelikeObject()
+            self.o = DevNullFilelikeObject(binary=not self.human_readable)
             return self.o
 
     def __exit__(self, exc_type, exc_val, exc_tp):
-- 
2.43.0


From 6abc1d8b9b1a20c64cc0ab640167125fda647909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 208/228] fix: connections released after a CPManager is closed
 are torn down

---
 satella/coding/resources/cp_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index f7b5e01..f6ff4ea 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -104,7 +104,8 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
             self._kill_connection(connection)
         else:
             with Monitor.acquire(self):
-                is_full = self.connections.qsize() >= self.max_number
+                # after a close() nobody would acquire it or tear it down
+                is_full = self.terminating or self.connections.qsize() >= self.max_number
                 if not is_full:
                     self.connections.put(connection, False)
             if is_full:
-- 
2.43.0


From 5136a8de8471541bbf4202e94bf4b0de3a566ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:40 +0000
Subject: [PATCH 209/228] fix: trace_exception attaches the traceback of the
 exception given, not of the one in progress

---
 satella/opentracing/exceptions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/opentracing/exceptions.py b/satella/opentracing/exceptions.py
index 89eed5c..5500eaa 100644
--- a/satella/opentracing/exceptions.py
+++ b/satella/opentracing/exceptions.py
@@ -1,4 +1,5 @@
 import sys
+import traceback
 import types
 import typing as tp
 
@@ -44,7 +45,10 @@ def trace_exception(span: tp.Optional[Span], exc_type: tp.Optional[ExceptionClas
         if exc_type is None:
             return
 
-    tb = Traceback(exc_tb.tb_frame).pretty_format()
+    tb = Traceback(exc_tb.tb_frame)
+    # the exception given might not be the one in progress, if there is any
+    tb.formatted_traceback = ''.join(traceback.format_exception(exc_type, exc_val, exc_tb))
+    tb = tb.pretty_format()
     if len(tb) > max_tb_length:
         tb = tb[:max_tb_length]
 
-- 
2.43.0


From 09086d5dc099fe04d5bd8c8d8df705ee6c720719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 210/228] fix: HashableWrapper might be neither equal nor
 unequal to another one

---
 satella/coding/structures/hashable_objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/hashable_objects.py b/satella/coding/structures/hashable_objects.py
index 635484b..9818756 100644
--- a/satella/coding/structures/hashable_objects.py
+++ b/satella/coding/structures/hashable_objects.py
@@ -31,3 +31,6 @@ class HashableWrapper(Proxy):
         else:
             obj2 = other
         return id(my_object) == id(obj2)
+
+    def __ne__(self, other) -> bool:
+        return not self == other
-- 
2.43.0


From a450ac407d9e309bddffbbe971b7ba7a2ed4a4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 211/228] fix: ComparableIntEnum might be both equal and
 unequal to an object having __int__()

---
 satella/coding/structures/mixins/enums.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/mixins/enums.py b/satella/coding/structures/mixins/enums.py
index eb5e5f1..8d69eb7 100644
--- a/satella/coding/structures/mixins/enums.py
+++ b/satella/coding/structures/mixins/enums.py
@@ -90,6 +90,9 @@ class ComparableIntEnum(HashableIntEnum):
             return self.value == other
         return self.value == int(other)
 
+    def __ne__(self, other: 'ComparableIntEnum') -> bool:
+        return not self == other
+
 
 class OnStrOnlyName:
     """
-- 
2.43.0


From 295fc7bc957a6aa60d8081fb79d3c1123851a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:23 +0000
Subject: [PATCH 212/228] fix: satella.configuration could not be imported
 first in an interpreter

---
 satella/coding/predicates.py                          | 6 ++++--
 satella/coding/structures/dictionaries/dict_object.py | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 74710e5..9ca42bc 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -2,7 +2,9 @@ import operator
 import typing as tp
 
 from satella.coding.typing import Predicate
-from satella.configuration.schema import Descriptor
+
+if tp.TYPE_CHECKING:
+    from satella.configuration.schema import Descriptor
 
 __all__ = ['x', 'build_structure', 'PredicateClass']
 
@@ -149,7 +151,7 @@ class PredicateClass:
         """
         return PredicateClass(self.operation)
 
-    def is_valid_schema(self, schema: tp.Optional[tp.Union[Descriptor, tp.Dict]] = None, **kwargs):
+    def is_valid_schema(self, schema: tp.Optional[tp.Union['Descriptor', tp.Dict]] = None, **kwargs):
         """
         Check if given value has the correct schema.
         The schema is the same as in
diff --git a/satella/coding/structures/dictionaries/dict_object.py b/satella/coding/structures/dictionaries/dict_object.py
index d77f4c2..c1980d2 100644
--- a/satella/coding/structures/dictionaries/dict_object.py
+++ b/satella/coding/structures/dictionaries/dict_object.py
@@ -2,9 +2,11 @@ import copy
 import typing as tp
 
 from satella.coding.recast_exceptions import rethrow_as
-from satella.configuration.schema import Descriptor, descriptor_from_dict
 from satella.exceptions import ConfigurationValidationError
 
+if tp.TYPE_CHECKING:
+    from satella.configuration.schema import Descriptor
+
 
 class DictObject(dict):
     """
@@ -50,7 +52,7 @@ class DictObject(dict):
     def __delattr__(self, key):
         del self[key]
 
-    def is_valid_schema(self, schema: tp.Optional[tp.Union[Descriptor, tp.Dict]] = None,
+    def is_valid_schema(self, schema: tp.Optional[tp.Union['Descriptor', tp.Dict]] = None,
                         **kwarg_schema) -> bool:
         """
         Check if this dictionary conforms to particular schema.
@@ -64,6 +66,9 @@ class DictObject(dict):
         :return: whether is conformant
         """
 
+        # imported here, since satella.configuration makes use of satella.coding
+        from satella.configuration.schema import Descriptor, descriptor_from_dict
+
         if kwarg_schema:
             schema = kwarg_schema
 
-- 
2.43.0


From d5ade8edff1fd9ebc2770a2f435f66a65e08961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 213/228] fix: MetricAlreadyExists could be neither pickled nor
 copied

---
 satella/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/exceptions.py b/satella/exceptions.py
index 8a1a5d4..b551722 100644
--- a/satella/exceptions.py
+++ b/satella/exceptions.py
@@ -201,7 +201,7 @@ class MetricAlreadyExists(BaseSatellaError):
     """Metric with given name already exists, but with a different type"""
 
     def __init__(self, msg, name, requested_type, existing_type):
-        super().__init__(msg)
+        super().__init__(msg, name, requested_type, existing_type)
         self.name = name
         self.requested_type = requested_type
         self.existing_type = existing_type
-- 
2.43.0


From bac5dca47e22eaef7e58ed1401f68c8c453aab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 214/228] fix: copying an Optional recursed infinitely

---
 satella/coding/optionals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/optionals.py b/satella/coding/optionals.py
index 2da5d02..29d548c 100644
--- a/satella/coding/optionals.py
+++ b/satella/coding/optionals.py
@@ -95,6 +95,8 @@ class Optional(Proxy[T]):
         return False if me is None else me >= other
 
     def __getattr__(self, item):
+        if item == '_Proxy__obj':  # not there yet, e.g. we are just being copied
+            raise AttributeError(item)
         obj = getattr(self, '_Proxy__obj')
         return EMPTY_OPTIONAL if obj is None else getattr(obj, item)
 
-- 
2.43.0


From ca10592df02048e81b6f603374e14a946809d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 215/228] fix: copying a SliceableDeque, a SortedList or a
 Ranking recursed infinitely

---
 satella/coding/structures/sorted_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index 190aef8..47eb956 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -127,6 +127,8 @@ class SliceableDeque(collections.abc.MutableSequence, tp.Generic[T]):
         return item in self.deque
 
     def __getattr__(self, item: str):
+        if item == 'deque':  # not there yet, e.g. we are just being copied
+            raise AttributeError(item)
         return getattr(self.deque, item)
 
     def __getitem__(self, item) -> tp.Union[tp.Iterator[T], T]:
-- 
2.43.0


From 38a30ae438ed9a826e58498cfca5a2bca9832821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 216/228] fix: leaving a nested Context made the enclosing one
 be forgotten

---
 satella/coding/environment.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index 17e2dd9..fde18cc 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -87,13 +87,15 @@ class Context:
             return self.parent.does_exist(val)
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        if self.parent is None:
-            try:
-                del local.thread_context
-            except AttributeError:
-                pass
+        # self is not what has been entered, but what __enter__ was called upon
+        try:
+            parent = local.thread_context.parent
+        except AttributeError:
+            return False
+        if parent is None:
+            del local.thread_context
         else:
-            local.thread_context = self.parent
+            local.thread_context = parent
         return False
 
     @staticmethod
-- 
2.43.0


From 2a196bdb2f24cc4d481691045a15d811f58be90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 217/228] fix: variables given to a Context were not to be
 found after it was entered

---
 satella/coding/environment.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index fde18cc..0ef6793 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -56,8 +56,11 @@ class Context:
             parent = local.thread_context
         except AttributeError:
             parent = None
-        ctxt = Context(parent=parent)
-        ctxt.parent = parent
+        card = parent
+        while card is not None and card is not self:
+            card = card.parent
+        # if it's on the stack, then it's variables are there already
+        ctxt = Context(parent=parent, **({} if card is self else self.variables))
         local.thread_context = ctxt
         return ctxt
 
-- 
2.43.0


From a603b2172626595f7a4b9b42889d0c0477a401df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:39 +0000
Subject: [PATCH 218/228] fix: PeekableQueue.put_many left consumers asleep if
 the iterable raised half way

The items put before that stay in the queue, so those waiting for them need
to be told.
---
 satella/coding/concurrent/queue.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/queue.py b/satella/coding/concurrent/queue.py
index 6532bfa..3a59241 100644
--- a/satella/coding/concurrent/queue.py
+++ b/satella/coding/concurrent/queue.py
@@ -37,10 +37,12 @@ class PeekableQueue(tp.Generic[T]):
 
         :param items: sequence of items to put
         """
-        with self.lock:
-            for item in items:
-                self.queue.append(item)
-        self.inserted_condition.notify_all()
+        try:
+            with self.lock:
+                for item in items:
+                    self.queue.append(item)
+        finally:
+            self.inserted_condition.notify_all()
 
     @rethrow_as(WouldWaitMore, Empty)
     def __get(self, timeout, item_getter) -> T:
-- 
2.43.0


From 8578c297eb0448db0e83051cd6b3f359fbb6408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:18 +0000
Subject: [PATCH 219/228] fix: tainting failed on a bytearray, an array, a
 class and on anything that contains itself

Their items can't be replaced by tainted ones, and what contains itself was
descended into until the stack ran out.
---
 satella/debug/tainting/environment.py |  3 ++-
 satella/debug/tainting/tainteds.py    | 25 +++++++++++++++++--------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/satella/debug/tainting/environment.py b/satella/debug/tainting/environment.py
index fb4eb32..519fcf7 100644
--- a/satella/debug/tainting/environment.py
+++ b/satella/debug/tainting/environment.py
@@ -35,7 +35,7 @@ class TaintingEnvironment:
     .. warning:: Using functions that take at least one tainted argument is supposed to return a tainted result,
         but I couldn't get that shipped in time at this involved some serious tweaking with the Python bytecode.
     """
-    __slots__ = 'enabled', 'old_python'
+    __slots__ = 'enabled', 'old_python', 'being_tainted'
 
     def __init__(self):
         vi = sys.version_info
@@ -52,6 +52,7 @@ class TaintingEnvironment:
                 UserWarning)
 
         self.enabled = False
+        self.being_tainted = set()
 
     def __enter__(self) -> TaintingEnvironment:
         """
diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 6991d55..e039ef4 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -45,19 +45,25 @@ class TaintedObject(tp.Generic[T]):
             return
         self.__environment = TaintingEnvironment.get_session_in_progress()
         self.__v = v
-        if isinstance(v, tp.MutableSequence):
-            for i in range(len(v)):
-                self.__v[i] = taint(v[i])
-        else:
-            try:
+        being_tainted = self.__environment.being_tainted
+        if id(v) in being_tainted:
+            return  # it contains itself, and it's contents are being tainted already
+        being_tainted.add(id(v))
+        try:
+            if isinstance(v, tp.MutableSequence):
+                for i in range(len(v)):
+                    self.__v[i] = taint(v[i])
+            else:
                 if isinstance(v, tp.MutableMapping):
                     dict_to_transform = v
                 else:
                     dict_to_transform = v.__dict__
                 for key in dict_to_transform:
                     dict_to_transform[key] = taint(dict_to_transform[key])
-            except AttributeError:
-                pass  # must have been a primitive type
+        except (AttributeError, TypeError):
+            pass  # must have been a primitive type, or something that takes but primitive types
+        finally:
+            being_tainted.discard(id(v))
 
     def __setattr__(self, key: str, value: tp.Any):
         if key == '_TaintedObject__environment' or key == '_TaintedObject__v':
@@ -170,7 +176,10 @@ class TaintedObject(tp.Generic[T]):
         return taint(self.__v[item])
 
     def __setitem__(self, key, value: T) -> None:
-        self.__v[key] = taint(value)
+        try:
+            self.__v[key] = taint(value)
+        except TypeError:   # eg. a bytearray, it takes but primitive types
+            self.__v[key] = access_tainted(value)
 
     def __delitem__(self, key: str) -> None:
         del self.__v[key]
-- 
2.43.0


From c386910c5c2c25ca6592b4396040434932567ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:23 +0000
Subject: [PATCH 220/228] fix: of threads failing at the same moment only one
 was dumped to files

---
 satella/exception_handling/dump_to_file.py | 25 ++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index 4793055..7631b0d 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -3,6 +3,7 @@ from __future__ import print_function, absolute_import, division
 import enum
 import logging
 import os
+import threading
 import typing as tp
 import uuid
 from logging import Logger
@@ -95,11 +96,12 @@ class DumpToFileHandler(BaseExceptionHandler):
         stack status will be output
     :raises TypeError: invalid stream
     """
-    __slots__ = ('hr', 'tb')
+    __slots__ = ('hr', 'tb', 'lock')
 
     def __init__(self, human_readables: tp.Iterable[AsStreamTypeAcceptHR],
                  trace_pickles: tp.Iterable[AsStreamTypeAcceptIN] = None):
         super(DumpToFileHandler, self).__init__()
+        self.lock = threading.RLock()  # as the streams serve a single dump at a time
         self.hr = [AsStream(x, True)
                    if not isinstance(x, AsStream) else x
                    for x in human_readables]  # type: tp.List[AsStream]
@@ -118,14 +120,15 @@ class DumpToFileHandler(BaseExceptionHandler):
             return False  # no traceback, probably hit KeyboardInterrupt or SystemExit,
             # continue with it
 
-        for q in self.hr:
-            if q.mode == StreamType.MODE_LOGGER:
-                q.logger.log(q.level, str(value), exc_info=value, stack_info=tb.pretty_format())
-            else:
-                with q as f:
-                    f.write('Unhandled exception caught: \n')
-                    tb.pretty_print(output=f)
+        with self.lock:
+            for q in self.hr:
+                if q.mode == StreamType.MODE_LOGGER:
+                    q.logger.log(q.level, str(value), exc_info=value, stack_info=tb.pretty_format())
+                else:
+                    with q as f:
+                        f.write('Unhandled exception caught: \n')
+                        tb.pretty_print(output=f)
 
-        for q in self.tb:
-            with q as f:
-                f.write(tb.pickle())
+            for q in self.tb:
+                with q as f:
+                    f.write(tb.pickle())
-- 
2.43.0


From a05a9b5e5ef27277a3a53773c225a8a5429215fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:18 +0000
Subject: [PATCH 221/228] fix: heaps lost their order or elements when used as
 the lists they are

---
 satella/coding/structures/heaps/base.py | 37 +++++++++++++++++++++++++
 satella/coding/structures/heaps/time.py |  7 +++++
 2 files changed, 44 insertions(+)

diff --git a/satella/coding/structures/heaps/base.py b/satella/coding/structures/heaps/base.py
index 1974d9d..cdbed4d 100644
--- a/satella/coding/structures/heaps/base.py
+++ b/satella/coding/structures/heaps/base.py
@@ -44,6 +44,36 @@ class Heap(collections.UserList, tp.Generic[T]):
         heapq.heapify(self.data)
         return item
 
+    def remove(self, item: T) -> None:
+        """
+        Remove an item from the heap, maintaining the heap invariant
+
+        :raise ValueError: element not found
+        """
+        self.pop_item(item)
+
+    def append(self, item: T) -> None:
+        """
+        Same as :meth:`~satella.coding.structures.Heap.push`
+        """
+        self.push(item)
+
+    def extend(self, other: tp.Iterable[T]) -> None:
+        """
+        Same as :meth:`~satella.coding.structures.Heap.push_many`
+        """
+        self.push_many(list(other))
+
+    def __iadd__(self, other: tp.Iterable[T]) -> 'Heap':
+        self.push_many(list(other))
+        return self
+
+    def copy(self) -> 'Heap':
+        """
+        Return a shallow copy of this heap
+        """
+        return self.__copy__()
+
     def push(self, item: T, *args) -> None:
         """
         Use it like:
@@ -171,6 +201,13 @@ class SetHeap(Heap):
         self.set.remove(item)
         return item
 
+    def clear(self) -> None:
+        """
+        Remove everything from this heap
+        """
+        super().clear()
+        self.set.clear()
+
     def __contains__(self, item: T) -> bool:
         return item in self.set
 
diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 6e54f4c..185abed 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -299,6 +299,13 @@ class TimeBasedSetHeap(Heap):
         """
         self.filter_map(filter_fun=lambda i: i[1] != item)
 
+    def clear(self) -> None:
+        """
+        Remove everything from this heap
+        """
+        super().clear()
+        self.item_to_timestamp.clear()
+
     def push_many(self, items: tp.Iterable[tp.Tuple[Number, T]]) -> None:
         for item in items:
             self.push(item)
-- 
2.43.0


From e1f7d415d7611fb92709bd2c52c9a1c5cf3aa86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:54 +0000
Subject: [PATCH 222/228] fix: a SliceableDeque of bounded length could not be
 appended to once it was full

---
 satella/coding/structures/sorted_list.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index 47eb956..273659e 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -105,6 +105,12 @@ class SliceableDeque(collections.abc.MutableSequence, tp.Generic[T]):
     def insert(self, i: int, item: T):
         self.deque.insert(i, item)
 
+    def append(self, item: T) -> None:
+        self.deque.append(item)
+
+    def extend(self, values: tp.Iterable[T]) -> None:
+        self.deque.extend(self.deque if values is self else values)
+
     def __init__(self, *args, **kwargs):
         self.deque = collections.deque(*args, **kwargs)
 
-- 
2.43.0


From f1726fff3b4f8743bb9728421d73f22cb39c1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:01 +0000
Subject: [PATCH 223/228] fix: attributes in inherited slots, or next to slots
 not yet set, were missing from JSON

---
 satella/json.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/satella/json.py b/satella/json.py
index f02af19..d95a60e 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -46,20 +46,26 @@ class JSONEncoder(json.JSONEncoder):
             try:
                 v = super().default(o)
             except TypeError:
-                v = {}
-                try:
-                    for k, val in o.__dict__.items():
-                        v[k] = self.default(val)
-                except AttributeError:  # o has no attribute '__dict__', try with slots
-                    try:
-                        slots = o.__slots__
-                        for slot in (slots,) if isinstance(slots, str) else slots:
-                            v[slot] = self.default(getattr(o, slot))
-                    except AttributeError:  # it doesn't have __slots__ either?
-                        v = '<an instance of %s>' % (o.__class__.__name__,)
+                if not hasattr(o, '__dict__') and not hasattr(o, '__slots__'):
+                    return '<an instance of %s>' % (o.__class__.__name__,)
+                v = {k: self.default(val) for k, val in getattr(o, '__dict__', {}).items()}
+                for slot in _get_slots(type(o)):
+                    if hasattr(o, slot):
+                        v[slot] = self.default(getattr(o, slot))
         return v
 
 
+def _get_slots(cls: type) -> tp.Iterator[str]:
+    """Return names of attributes kept in slots of given class and the classes it inherits from"""
+    for base in reversed(cls.__mro__):
+        slots = base.__dict__.get('__slots__', ())
+        for slot in (slots,) if isinstance(slots, str) else slots:
+            if slot.startswith('__') and not slot.endswith('__'):
+                slot = '_%s%s' % (base.__name__.lstrip('_'), slot)
+            if slot != '__dict__':
+                yield slot
+
+
 def json_encode(x: tp.Any) -> str:
     """
     Convert an object to JSON. Will properly handle subclasses of JSONAble
-- 
2.43.0


From 460d786dc5b8c609f42cd2f16a5da20c882cc5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:29 +0000
Subject: [PATCH 224/228] fix: data objects lost the fields they inherited

---
 satella/json.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/satella/json.py b/satella/json.py
index d95a60e..b97d0a1 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -152,14 +152,22 @@ class JSONAbleDataObject:
     >>> assert CultureContext.from_json(a.to_json) == a
     """
 
+    @classmethod
+    def _get_fields(cls) -> tp.List[str]:
+        """Return names of all the fields, including the inherited ones"""
+        fields = {}
+        for base in reversed(cls.__mro__):
+            fields.update(getattr(base, '__annotations__', {}))
+        return list(fields)
+
     def __eq__(self, other) -> bool:
         if not isinstance(other, self.__class__):
             return NotImplemented
-        return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self.__class__.__annotations__.keys())
+        return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self._get_fields())
 
     def __hash__(self) -> int:
         hash_ = 0
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             hash_ ^= hash(getattr(self, annotation))
         return hash_
 
@@ -167,7 +175,7 @@ class JSONAbleDataObject:
         """
         :raises ValueError: a non-default value was not provided
         """
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             try:
                 annot_val = kwargs.pop(annotation)
                 setattr(self, annotation, annot_val)
@@ -178,7 +186,7 @@ class JSONAbleDataObject:
     def to_json(self) -> tp.Dict:
         """Convert self to JSONable value"""
         result = {}
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             result[annotation] = getattr(self, annotation)
         return result
 
-- 
2.43.0


From f90478f3fa5d49a0dcba389c336c11c03644711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:19 +0000
Subject: [PATCH 225/228] fix: DevNullFilelikeObject claimed to be closed and
 failed at writelines, readline, iteration and seeking from the end

---
 satella/files.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index f119ea7..6dd3d78 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -78,6 +78,11 @@ class DevNullFilelikeObject(io.FileIO):
         self.is_closed = False
         self.binary = binary
 
+    @property
+    def closed(self) -> bool:
+        """Whether this object has been closed"""
+        return self.is_closed
+
     @closed_devnull
     def tell(self) -> int:
         """
@@ -98,7 +103,17 @@ class DevNullFilelikeObject(io.FileIO):
         return True
 
     @closed_devnull
-    def seek(self, v: int) -> int:
+    def readable(self) -> bool:
+        """Is this object readable"""
+        return True
+
+    @closed_devnull
+    def isatty(self) -> bool:
+        """Is this object connected to a terminal"""
+        return False
+
+    @closed_devnull
+    def seek(self, v: int, whence: int = 0) -> int:
         """Seek to a particular file offset"""
         return 0
 
@@ -115,6 +130,20 @@ class DevNullFilelikeObject(io.FileIO):
         """
         return b'' if self.binary else ''
 
+    @closed_devnull
+    def readline(self, size: tp.Optional[int] = -1) -> tp.Union[str, bytes]:
+        """
+        :raises ValueError: this object has been closed
+        """
+        return b'' if self.binary else ''
+
+    @closed_devnull
+    def readall(self) -> tp.Union[str, bytes]:
+        """
+        :raises ValueError: this object has been closed
+        """
+        return b'' if self.binary else ''
+
     @closed_devnull
     def write(self, y: tp.Union[str, bytes]) -> int:
         """
-- 
2.43.0


From 751a59a0750798bc39d960deeec5425f4c66bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 226/228] fix: a pre-done callback could not turn an exception
 into a result

---
 satella/coding/concurrent/futures/futures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index e988eff..6889569 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -142,6 +142,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
         if self._in_pre_done_callback():
             self._result = result
+            self._exception = None
         else:
             with self._condition:
                 if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
-- 
2.43.0


From 32b607803487b4c6f93dc3dee9ad894f84b82fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 227/228] fix: ExecutorWrapper could not be told to cancel
 futures upon shutdown

---
 satella/coding/concurrent/futures/wrapped_executor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/wrapped_executor.py b/satella/coding/concurrent/futures/wrapped_executor.py
index a59025a..ad9dfdd 100644
--- a/satella/coding/concurrent/futures/wrapped_executor.py
+++ b/satella/coding/concurrent/futures/wrapped_executor.py
@@ -14,7 +14,7 @@ class ExecutorWrapper(Executor):
     def submit(self, fn, *args, **kwargs) -> Future:
         return wrap_if(self.executor.submit(fn, *args, **kwargs))
 
-    def shutdown(self, wait=True):
+    def shutdown(self, wait=True, **kwargs):
         """Clean-up the resources associated with the Executor.
 
         It is safe to call this method several times. Otherwise, no other
@@ -24,5 +24,6 @@ class ExecutorWrapper(Executor):
             wait: If True then shutdown will not return until all running
                 futures have finished executing and the resources used by the
                 executor have been reclaimed.
+            kwargs: Passed to the executor, eg. cancel_futures
         """
-        return self.executor.shutdown(wait=wait)
+        return self.executor.shutdown(wait=wait, **kwargs)
-- 
2.43.0


From 46a2d963bcc45bdb199007afb525e8bfcfedb36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 228/228] fix: exporting a linkfail metric must not zero what
 is being counted at the same time

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index 2cd095e..e1792c1 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -73,15 +73,16 @@ class LinkfailMetric(EmbeddedSubmetrics):
         keys = set(self.consecutive_successes.keys())
         keys = keys.union(set(self.consecutive_failures.keys()))
         for address in keys:
+            # do not add missing keys here, handle() might be adding them at the moment
             labels = self.labels.copy()
             if keys != {0}:
                 labels.update(address=address)
             mdc += MetricData(self.name + '.consecutive_failures',
-                              self.consecutive_failures[address],
+                              self.consecutive_failures.get(address, 0),
                               labels, self.get_timestamp(), self.internal)
             mdc += MetricData(self.name + '.consecutive_successes',
-                              self.consecutive_successes[address],
+                              self.consecutive_successes.get(address, 0),
                               labels, self.get_timestamp(), self.internal)
-            mdc += MetricData(self.name + '.status', int(self.working[address]),
+            mdc += MetricData(self.name + '.status', int(self.working.get(address, True)),
                               labels, self.get_timestamp(), self.internal)
         return mdc
-- 
2.43.0

