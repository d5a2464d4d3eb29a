"""A real asyncio BaseEventLoop with a stubbed selector and clock.

Everything but `time()` and `select()` is the asyncio implementation of the interpreter.
Used by both the symbolic engine (clock values may be symbolic) and by the concrete replay
of timer scenarios (clock values given by the counterexample).
"""
from __future__ import annotations

import asyncio
import heapq
import weakref


class Hang(BaseException):
    """Nothing can run any more, and the scenario is not finished."""


class VLoop(asyncio.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._vseq = weakref.WeakKeyDictionary()
        self._vn = 0
        self.clock = None  # env.Clock, or None: constant clock
        self.set_exception_handler(self._vexc)
        self.errors = []

    def _vexc(self, loop, ctx):
        self.errors.append(ctx.get("message"))

    def time(self):
        return 0.0 if self.clock is None else self.clock.read()

    def _run_once(self):
        # As BaseEventLoop._run_once, with the idle select() replaced by the clock model
        # and without the computation of its timeout.
        sch = self._scheduled
        while sch and sch[0]._cancelled:
            self._timer_cancelled_count -= 1
            heapq.heappop(sch)._scheduled = False
        if not self._ready and not self._stopping:
            if not sch:
                raise Hang("deadlock: nothing is scheduled")
            if self.clock is None:
                raise Hang("timer used without a clock model")
            self.clock.idle(sch[0]._when, self._clock_resolution)
        if sch:
            now = 0.0 if self.clock is None else self.clock.peek()
            end_time = now + self._clock_resolution
            while sch:
                if sch[0]._when >= end_time:
                    break
                h = heapq.heappop(sch)
                h._scheduled = False
                self._ready.append(h)
        for _ in range(len(self._ready)):
            h = self._ready.popleft()
            if not h._cancelled:
                h._run()
        h = None

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def call_at(self, when, callback, *args, context=None):
        # cancelled handles are dropped at once (asyncio: when they come up)
        live = [h for h in self._scheduled if not h._cancelled]
        if len(live) != len(self._scheduled):
            for h in self._scheduled:
                if h._cancelled:
                    h._scheduled = False
            heapq.heapify(live)
            self._scheduled = live
            self._timer_cancelled_count = 0
        return super().call_at(when, callback, *args, context=context)

    def create_task(self, coro, **kw):
        t = super().create_task(coro, **kw)
        self._vseq[t] = self._vn
        self._vn += 1
        return t

    def task_seq(self, t):
        return self._vseq.get(t, -1)
