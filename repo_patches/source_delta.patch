From 0467e7cd4bb514441958169858d04bfbfd44504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 01/11] fix: Fail senders waiting on a full anycast channel
 when it is closed

A sender blocked on a full channel kept waiting after the channel was
closed, and if a receiver then made room it queued its message on the
closed channel, where it could get lost because waiting receivers had
already been told that the channel is drained.
---
 src/frequenz/channels/_anycast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 2ea0515..d925877 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -350,6 +350,10 @@ class _Sender(Sender[_T]):
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
                     await self._channel._send_cv.wait()
+                if self._channel._closed:
+                    raise SenderError(
+                        "The channel was closed", self
+                    ) from ChannelClosedError(self._channel)
             _logger.info(
                 "Anycast channel [%s] has space again, resuming the blocked sender",
                 self,
-- 
2.43.0


From 06d65a85c09f5f06fc783a7d58b8e083fedceec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 02/11] fix: Don't lose wake ups when a waiting anycast
 operation is cancelled

If a sender or receiver that was already notified was cancelled before
it could run, the notification was lost, and another sender or receiver
kept waiting although there was room or a message for it.
---
 src/frequenz/channels/_anycast.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index d925877..efa8830 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -6,7 +6,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import Condition
+from asyncio import CancelledError, Condition
 from collections import deque
 from typing import Generic, TypeVar
 
@@ -349,7 +349,13 @@ class _Sender(Sender[_T]):
             )
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
-                    await self._channel._send_cv.wait()
+                    try:
+                        await self._channel._send_cv.wait()
+                    except CancelledError:
+                        # The wake up we might have got is for somebody else then.
+                        if len(self._channel._deque) != self._channel._deque.maxlen:
+                            self._channel._send_cv.notify(1)
+                        raise
                 if self._channel._closed:
                     raise SenderError(
                         "The channel was closed", self
@@ -414,7 +420,13 @@ class _Receiver(Receiver[_T]):
             if self._channel._closed:
                 return False
             async with self._channel._recv_cv:
-                await self._channel._recv_cv.wait()
+                try:
+                    await self._channel._recv_cv.wait()
+                except CancelledError:
+                    # The wake up we might have got is for somebody else then.
+                    if self._channel._deque:
+                        self._channel._recv_cv.notify(1)
+                    raise
         self._next = self._channel._deque.popleft()
         async with self._channel._send_cv:
             self._channel._send_cv.notify(1)
-- 
2.43.0


From 2de16b1a0dacde6e19d7523425de738d220a1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 03/11] fix: Resend the latest broadcast message also when it
 is None

None was used to represent that no message was sent yet, so with
resend_latest a new receiver didn't get a latest message that is None.
---
 src/frequenz/channels/_broadcast.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index b217aa0..0f568dc 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -9,7 +9,7 @@ import logging
 import weakref
 from asyncio import Condition
 from collections import deque
-from typing import Generic, TypeVar
+from typing import Generic, TypeVar, cast
 
 from ._exceptions import ChannelClosedError
 from ._generic import ChannelMessageT
@@ -213,8 +213,8 @@ class Broadcast(Generic[ChannelMessageT]):
         self._closed: bool = False
         """Whether the channel is closed."""
 
-        self._latest: ChannelMessageT | None = None
-        """The latest message sent to the channel."""
+        self._latest: ChannelMessageT | type[_Empty] = _Empty
+        """The latest message sent to the channel, `_Empty` if there is none."""
 
         self.resend_latest: bool = resend_latest
         """Whether to resend the latest message to new receivers.
@@ -257,7 +257,7 @@ class Broadcast(Generic[ChannelMessageT]):
         [receive()][frequenz.channels.Receiver.receive] calls will return `None`
         immediately.
         """
-        self._latest = None
+        self._latest = _Empty
         self._closed = True
         async with self._recv_cv:
             self._recv_cv.notify_all()
@@ -284,8 +284,8 @@ class Broadcast(Generic[ChannelMessageT]):
         """
         recv: _Receiver[ChannelMessageT] = _Receiver(self, name=name, limit=limit)
         self._receivers[hash(recv)] = weakref.ref(recv)
-        if self.resend_latest and self._latest is not None:
-            recv.enqueue(self._latest)
+        if self.resend_latest and self._latest is not _Empty:
+            recv.enqueue(cast(ChannelMessageT, self._latest))
         return recv
 
     def __str__(self) -> str:
@@ -297,7 +297,7 @@ class Broadcast(Generic[ChannelMessageT]):
         return (
             f"{type(self).__name__}(name={self._name!r}, "
             f"resend_latest={self.resend_latest!r}):<"
-            f"latest={self._latest!r}, "
+            f"latest={None if self._latest is _Empty else self._latest!r}, "
             f"receivers={len(self._receivers)!r}, "
             f"closed={self._closed!r}>"
         )
@@ -306,6 +306,10 @@ class Broadcast(Generic[ChannelMessageT]):
 _T = TypeVar("_T")
 
 
+class _Empty:
+    """A sentinel value to indicate that no message was sent yet."""
+
+
 class _Sender(Sender[_T]):
     """A sender to send messages to the broadcast channel.
 
-- 
2.43.0


From 146725e04a2d93ca8875e88ab7a44372d2b53d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 04/11] fix: Don't lose messages or sources when a merged
 receiver fails

An error of a merged receiver was raised by ready() while the finished
tasks were being processed, so the messages of other receivers that
were ready at the same time were lost, and the failed receiver was never
listened to again. The error is now delayed until it is consumed.
---
 src/frequenz/channels/_merge.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 6be4302..185ce74 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -120,7 +120,9 @@ class Merger(Receiver[ReceiverMessageT_co]):
             asyncio.create_task(anext(recv), name=name)
             for name, recv in self._receivers.items()
         }
-        self._results: deque[ReceiverMessageT_co] = deque(maxlen=len(self._receivers))
+        self._results: deque[asyncio.Task[ReceiverMessageT_co]] = deque(
+            maxlen=len(self._receivers)
+        )
 
     def __del__(self) -> None:
         """Finalize this merger."""
@@ -165,8 +167,8 @@ class Merger(Receiver[ReceiverMessageT_co]):
                 # if channel is closed, don't add a task for it again.
                 if isinstance(item.exception(), StopAsyncIteration):
                     continue
-                result = item.result()
-                self._results.append(result)
+                # Errors are delayed until the result is consumed.
+                self._results.append(item)
                 self._pending.add(
                     asyncio.create_task(anext(self._receivers[name]), name=name)
                 )
@@ -186,7 +188,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
         assert self._results, "`consume()` must be preceded by a call to `ready()`"
 
-        return self._results.popleft()
+        return self._results.popleft().result()
 
     def __str__(self) -> str:
         """Return a string representation of this receiver."""
-- 
2.43.0


From 95e2408c43843ca00991086224bb7ec3f1b18ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 05/11] fix: Make stopping a merger effective for a waiting
 consumer

A consumer waiting in ready() when stop() was called either got a
CancelledError although nobody cancelled it, or started to listen to the
receivers again after the merger was stopped.
---
 src/frequenz/channels/_merge.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 185ce74..3668bd9 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -116,6 +116,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
             str(id): recv for id, recv in enumerate(receivers)
         }
         self._name: str = name if name is not None else type(self).__name__
+        self._stopped: bool = False
         self._pending: set[asyncio.Task[Any]] = {
             asyncio.create_task(anext(recv), name=name)
             for name, recv in self._receivers.items()
@@ -132,10 +133,11 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
     async def stop(self) -> None:
         """Stop this merger."""
-        for task in self._pending:
+        self._stopped = True
+        pending, self._pending = self._pending, set()
+        for task in pending:
             task.cancel()
-        await asyncio.gather(*self._pending, return_exceptions=True)
-        self._pending = set()
+        await asyncio.gather(*pending, return_exceptions=True)
 
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
@@ -159,9 +161,14 @@ class Merger(Receiver[ReceiverMessageT_co]):
             if len(self._pending) == 0:
                 return False
 
-            done, self._pending = await asyncio.wait(
+            done, pending = await asyncio.wait(
                 self._pending, return_when=asyncio.FIRST_COMPLETED
             )
+            # `stop()` was called while waiting, and it took care of the tasks.
+            if self._stopped:
+                continue
+
+            self._pending = pending
             for item in done:
                 name = item.get_name()
                 # if channel is closed, don't add a task for it again.
-- 
2.43.0


From fa14ad698a394396a3793904ec162c319b7573af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 06/11] fix: Keep a set event ready after it was stopped

Event.ready() returned False when the event was stopped after it was set,
although consume() still yields the pending event. Because of that select()
dropped the receiver after yielding the event and never reported the stop.
---
 src/frequenz/channels/event.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/frequenz/channels/event.py b/src/frequenz/channels/event.py
index 3f3b207..3ab3d59 100644
--- a/src/frequenz/channels/event.py
+++ b/src/frequenz/channels/event.py
@@ -145,12 +145,12 @@ class Event(_receiver.Receiver[None]):
         """Wait until this receiver is ready.
 
         Returns:
-            Whether this receiver is still running.
+            Whether this receiver is still running, or was set before it was stopped.
         """
-        if self._is_stopped:
-            return False
-        await self._event.wait()
-        return not self._is_stopped
+        if not self._is_stopped:
+            await self._event.wait()
+        # An event that was set can still be consumed after the receiver was stopped
+        return self._is_set or not self._is_stopped
 
     def consume(self) -> None:
         """Consume the event.
-- 
2.43.0


From d8a6a2797961dacc9d5f70c1d8d1c27a29548f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 07/11] fix: Report the end of a file watcher once and delay
 its errors

FileWatcher.ready() returned True when the underlying watcher ended, so
select() reported the stop twice, and it raised other errors of the underlying
watcher itself instead of leaving that to consume().
---
 src/frequenz/channels/file_watcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 57c3553..177a8c4 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -183,8 +183,11 @@ class FileWatcher(Receiver[Event]):
 
         try:
             self._changes = await anext(self._awatch)
-        except StopAsyncIteration as err:
+        except Exception as err:  # pylint: disable=broad-except
+            # Both the end and the failure of the underlying watcher stop the receiver,
+            # the error is reported by consume().
             self._awatch_stopped_exc = err
+            return False
 
         return True
 
-- 
2.43.0


From 1e25fa19f2d617b339af55319bdd155cafebc580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:47 +0000
Subject: [PATCH 08/11] fix: Convert big intervals and delays of timers exactly

---
 src/frequenz/channels/timer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 683db7b..5c3b3de 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -116,7 +116,8 @@ def _to_microseconds(time: float | timedelta) -> int:
         The time in microseconds.
     """
     if isinstance(time, timedelta):
-        time = time.total_seconds()
+        # This is exact, `total_seconds()` loses precision for big deltas.
+        return time // timedelta(microseconds=1)
     return round(time * 1_000_000)
 
 
-- 
2.43.0


From 7d48545046a6478c067cf19bc66f125330a23d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:47 +0000
Subject: [PATCH 09/11] fix: Reject a negative start delay also without auto
 start

---
 src/frequenz/channels/timer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 5c3b3de..36095f6 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -510,6 +510,9 @@ class Timer(Receiver[timedelta]):
                 f"The `interval` must be positive and at least 1 microsecond, not {interval}"
             )
 
+        if start_delay < timedelta(0):
+            raise ValueError(f"`start_delay` can't be negative, got {start_delay}")
+
         if start_delay > timedelta(0) and auto_start is False:
             raise ValueError(
                 "`auto_start` must be `True` if a `start_delay` is specified"
-- 
2.43.0


From 0cab569e94246cafaab232a4778787a7c2ae2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 10/11] fix: React to resetting or stopping a timer while
 waiting for it

---
 src/frequenz/channels/timer.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 36095f6..ede68f7 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -565,6 +565,9 @@ class Timer(Receiver[timedelta]):
         to wait again.
         """
 
+        self._rescheduled: asyncio.Event = asyncio.Event()
+        """Set when the timer is reset or stopped, to wake up a waiting `ready()`."""
+
         if auto_start:
             self.reset(start_delay=start_delay)
 
@@ -611,6 +614,7 @@ class Timer(Receiver[timedelta]):
         self._stopped = False
         self._next_tick_time = self._now() + start_delay_ms + self._interval
         self._current_drift = None
+        self._rescheduled.set()
 
     def stop(self) -> None:
         """Stop the timer.
@@ -625,6 +629,7 @@ class Timer(Receiver[timedelta]):
         self._stopped = True
         # We need to make sure it's not None, otherwise `ready()` will start it
         self._next_tick_time = self._now()
+        self._rescheduled.set()
 
     # We need a noqa here because the docs have a Raises section but the documented
     # exceptions are raised indirectly.
@@ -665,10 +670,17 @@ class Timer(Receiver[timedelta]):
 
         # If we didn't reach the tick yet, sleep until we do.
         # We need to do this in a loop also reacting to the reset event, as the timer
-        # could be reset while we are sleeping, in which case we need to recalculate
-        # the time to the next tick and try again.
+        # could be reset or stopped while we are sleeping, in which case we need to
+        # recalculate the time to the next tick and try again.
         while time_to_next_tick > 0:
-            await asyncio.sleep(time_to_next_tick / 1_000_000)
+            self._rescheduled.clear()
+            wake_up = asyncio.get_running_loop().call_later(
+                time_to_next_tick / 1_000_000, self._rescheduled.set
+            )
+            try:
+                await self._rescheduled.wait()
+            finally:
+                wake_up.cancel()
             now = self._now()
             time_to_next_tick = self._next_tick_time - now
 
-- 
2.43.0


From bea4d3ca6e01132e65c1d7eb6203fd4bcdf03525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 11/11] fix: report errors whose truth value is false in
 select()

An exception may define __len__ or __bool__. select() took such an error of
ready() for no error, and lost it while cleaning up.
---
 src/frequenz/channels/_select.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frequenz/channels/_select.py b/src/frequenz/channels/_select.py
index e8b6e80..e237585 100644
--- a/src/frequenz/channels/_select.py
+++ b/src/frequenz/channels/_select.py
@@ -439,7 +439,7 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
                 receiver_active: bool = True
                 name = task.get_name()
                 recv = receivers_map[name]
-                if exception := task.exception():
+                if (exception := task.exception()) is not None:
                     match exception:
                         case asyncio.CancelledError():
                             # If the receiver was cancelled, then it means we want to
@@ -484,7 +484,7 @@ async def _stop_pending_tasks(pending: set[asyncio.Task[bool]]) -> None:
         for task in done:
             if task.cancelled():
                 continue
-            if exception := task.exception():
+            if (exception := task.exception()) is not None:
                 exceptions.append(exception)
         if exceptions:
             # If the select loop is interrupted by a break or exception, then this
-- 
2.43.0

