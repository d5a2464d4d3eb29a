"""Helpers shared by the scenarios (z3-free)."""
import asyncio
import copy
import inspect


def owner(env, sel, receivers):
    """The index of the receiver of a selected item, without handling the item."""
    for i, r in enumerate(receivers):
        if env.ch.selected_from(copy.copy(sel), r):
            return i
    env.check(False, "selected from none of the receivers")


def look(env, *things):
    """Everything that only looks at an object."""
    for x in things:
        for f in (str, repr):
            try:
                y = f(x)
            except Exception as e:  # pylint: disable=broad-except
                env.check(False, f"{f.__name__}() failed: {type(e).__name__}")
            env.check(type(y) is str, "not a string")
        for name in dir(type(x)):
            if not name.startswith("_") and isinstance(
                    inspect.getattr_static(type(x), name, None), property) and not (
                    name == "message" and x.exception is not None):
                a = getattr(x, name)
                b = getattr(x, name)
                env.check(a is b or a == b, f"{name} changes by being read")
        if hasattr(x, "__len__"):
            env.check(len(x) == len(x), "len() changes by being called")


class Op:
    """One started operation: a task doing up to n sends or receives in a row."""

    def __init__(self, kind, end, items):
        self.kind, self.end, self.items = kind, end, items
        self.calls = []   # [start stamp, end stamp or None, outcome or None, message]
        self.task = None
        self.cancelled = False

    def waiting(self):
        return not self.task.done()


class End:
    """A sender or receiver (so that the scenario can drop its only reference to it)."""

    def __init__(self, obj):
        self.obj = obj
        self.peek_at = None      # since when a message is held that ready() announced


class Client:
    """Most general client of one channel: every step is an input."""

    def __init__(self, env, chan, senders, receivers):
        self.env, self.chan = env, chan
        self.senders = [End(s) for s in senders]
        self.receivers = [End(r) for r in receivers]
        self.ops = []
        self.stamp = 0
        self.nmsg = 0
        self.close_task = None
        self.closed_at = None
        self.closed_done = None
        styles = env.p.get("styles", [0])
        self.style = styles[env.choice("style", len(styles))]

    def tick(self):
        self.stamp += 1
        return self.stamp

    def begin(self, _op):
        return self.tick()

    async def _call(self, op, msg, aw):
        c = [self.begin(op), None, None, msg]
        op.calls.append(c)
        try:
            r = ("ok", await aw)
        except asyncio.CancelledError:
            c[1], c[2] = self.tick(), ("cancelled",)
            raise
        except Exception as e:  # pylint: disable=broad-except
            r = ("err", e)
        c[1], c[2] = self.tick(), r
        return r

    async def _run(self, op):
        for m in op.items:
            if op.kind == "send":
                r = await self._call(op, m, op.end.obj.send(m))
            else:
                r = await self._call(op, None, self._receive(op.end.obj))
            if r[0] == "err":
                return

    async def _receive(self, obj):
        """One message, taken in the way that was chosen."""
        if self.style == 0:
            return await obj.receive()
        if self.style == 1:
            r = await obj.ready()
            self.env.check(await obj.ready() is r, "ready() changed its mind")
            try:
                m = obj.consume()
            except self.env.ch.ReceiverStoppedError:
                self.env.check(r is False, "ready() was True, but the receiver stopped")
                raise
            self.env.check(r is True, "ready() was False, but there is a message")
            return m
        it = aiter(obj)
        try:
            return await anext(it)
        except StopAsyncIteration as e:
            self.env.check(e.__cause__ is not None, "the end of the iteration has no cause")
            raise e.__cause__

    def start(self, kind, end, n):
        items = []
        for _ in range(n):
            if kind == "send":
                items.append(self.env.msg(f"m{self.nmsg}"))
                self.nmsg += 1
            else:
                items.append(None)
        op = Op(kind, end, items)
        op.task = self.env.spawn(self._run(op))
        self.ops.append(op)
        return op

    # ---- the driver ---------------------------------------------------------------
    def idle_ends(self, kind):
        ends = self.senders if kind == "send" else self.receivers
        busy = [o.end for o in self.ops if o.kind == kind and o.waiting()]
        used = [o.end for o in self.ops if o.kind == kind]
        out, fresh = [], False
        for e in ends:
            if any(e is b for b in busy):
                continue
            if not any(e is u for u in used):
                if fresh:
                    continue  # unused ends are interchangeable
                fresh = True
            out.append(e)
        return out

    def options(self, allow):
        env, p = self.env, self.env.p
        out = []
        if self.env.loop._ready:
            out.append(("tick",))
            if "settle" in allow:
                out.append(("settle",))
        for n in range(1, p.get("burst", 1) + 1):
            if self.nmsg + n <= p["msgs"]:
                out += [("send", e, n) for e in self.idle_ends("send")]
        nrecv = sum(len(o.items) for o in self.ops if o.kind == "recv")
        for n in range(1, p.get("rburst", 1) + 1):
            if nrecv + n <= p["recvs"]:
                out += [("recv", e, n) for e in self.idle_ends("recv")]
        if "cancel" in allow and sum(o.cancelled for o in self.ops) < p.get("cancels", 1):
            out += [("cancel", o) for o in self.ops if o.waiting() and not o.cancelled]
        if "close" in allow and self.close_task is None:
            out.append(("close",))
        return out

    async def step(self, i, allow):
        opts = self.options(allow)
        if not opts:
            return False
        await self.perform(opts[self.env.choice(f"op{i}", len(opts))])
        return True

    async def perform(self, o):
        env = self.env
        if o[0] == "tick":
            await asyncio.sleep(0)
        elif o[0] == "settle":
            await env.settle()
        elif o[0] in ("send", "recv"):
            self.start(*o)
        elif o[0] == "cancel":
            o[1].cancelled = True
            o[1].task.cancel()
        elif o[0] == "close":
            self.begin_close()

    def is_closed(self):
        """Whether the channel is closed; while close() runs, it says so itself."""
        if self.closed_at is None:
            self.env.check(self.chan.is_closed is False, "an open channel says it is closed")
            return False
        if self.closed_done is not None:
            self.env.check(self.chan.is_closed is True, "a closed channel says it is open")
            return True
        return self.chan.is_closed

    def begin_close(self):
        self.closed_at = self.tick()
        self.close_task = self.env.spawn(self._close())

    async def _close(self):
        await self.chan.close()
        self.closed_done = self.tick()

    # ---- observations -------------------------------------------------------------
    def sends(self):
        return [(o, c) for o in self.ops if o.kind == "send" for c in o.calls]

    def recvs(self):
        return [(o, c) for o in self.ops if o.kind == "recv" for c in o.calls]

    def accepted(self):
        return [c for _o, c in self.sends() if c[2] is not None and c[2][0] == "ok"]

    def taken(self):
        return [c for _o, c in self.recvs() if c[2] is not None and c[2][0] == "ok"]

    def waiting(self, kind):
        return [o for o in self.ops if o.kind == kind and o.waiting()]

    def find(self, m):
        """The send call of a received message (by identity)."""
        for _o, c in self.sends():
            if c[3] is m:
                return c
        return None

    def describe(self):
        for o in self.ops:
            self.env.log(o.kind, [(c[0], c[1], c[2] and c[2][0]) for c in o.calls])

    async def drain(self):
        """Receive with every receiver until nothing is left (cancels nothing before)."""
        env = self.env
        for _ in range(self.nmsg + 2):
            progress = False
            for r in self.receivers:
                if any(o.end is r and o.waiting() for o in self.ops if o.kind == "recv"):
                    continue
                op = self.start("recv", r, 1)
                await env.settle()
                if not op.waiting() and op.calls[0][2][0] == "ok":
                    progress = True
            if not progress:
                return

    def check_closed_errors(self):
        """Errors of operations that ended after close(): right type, cause and time."""
        env, chan = self.env, self.chan
        for o, c in self.sends():
            if c[2] is None or c[2][0] == "cancelled":
                continue
            if c[2][0] == "err":
                env.check(env.is_sender_closed(c[2], o.end.obj, chan),
                          "a send on a closed channel raised the wrong error")
                env.check(c[1] > self.closed_at, "a send failed before the close")
                env.cover("send failed")
                if c[0] < self.closed_at:
                    env.cover("waiting send failed")
            else:
                env.check(c[0] < self.closed_done, "a send on a closed channel succeeded")
        for o, c in self.recvs():
            if c[2] is not None and c[2][0] == "err":
                env.check(env.is_recv_closed(c[2], o.end.obj, chan),
                          "a receive on a closed channel raised the wrong error")
                env.check(c[1] > self.closed_at, "a receive failed before the close")
                if c[0] < self.closed_at:
                    env.cover("waiting receive stopped")
