"""Broadcast channel: most general client with symbolic limits, messages and schedule."""
import asyncio
import weakref

from symx.harness_loader import Harness

from ._common import Client, End


class BEnd(End):
    """A receiver with what the reference model needs to know about it."""

    def __init__(self, obj, limit, born, first):
        super().__init__(obj)
        self.limit, self.born, self.first = limit, born, first
        self.dropped_at = None


class BClient(Client):
    def __init__(self, env, chan, nsend, resend):
        super().__init__(env, chan, [chan.new_sender() for _ in range(nsend)], [])
        self.resend = resend
        self.all_ends = []
        self.same_name = bool(env.p.get("names")) and env.flag("same name")

    # ---- steps ----------------------------------------------------------------------
    def new_receiver(self):
        env = self.env
        k = len(self.all_ends)
        limit = env.int(f"limit{k}", 1, 10**6)
        born = self.tick()
        kw = {"name": "same"} if self.same_name else {}
        obj = self.chan.new_receiver(limit=limit, **kw)
        # the last message whose send was started (sends never wait)
        sent = [c for _o, c in self.sends() if c[2] is None or c[2][0] != "err"]
        first = []
        if self.resend and sent and not self.is_closed():
            first = [sent[-1]]
        e = BEnd(obj, limit, born, first)
        self.receivers.append(e)
        self.all_ends.append(e)

    def options(self, allow):
        out = super().options(allow)
        p = self.env.p
        if "new" in allow and len(self.all_ends) < p["receivers"]:
            out.append(("new",))
        if "toggle" in allow:
            out.append(("toggle",))
        if "drop" in allow:
            out += [("drop", e) for e in self.receivers
                    if not any(o.end is e and o.waiting() for o in self.ops)]
        return out

    async def step(self, i, allow):
        env = self.env
        opts = self.options(allow)
        if not opts:
            return False
        o = opts[env.choice(f"op{i}", len(opts))]
        if o[0] == "new":
            self.new_receiver()
        elif o[0] == "toggle":
            self.resend = self.chan.resend_latest = not self.resend
            env.cover("toggled")
        elif o[0] == "drop":
            self.receivers.remove(o[1])
            ref = weakref.ref(o[1].obj)
            o[1].obj = None
            o[1].dropped_at = self.tick()
            if ref() is None:
                env.cover("dropped")
        else:
            await self.perform(o)
        return True

    # ---- reference model --------------------------------------------------------------
    def check_receiver(self, e, drained):
        """What `e` received is what a buffer of its limit yields, at every moment."""
        env = self.env
        events = []
        for _o, c in self.sends():
            if c[2] is not None and c[2][0] == "err":
                continue
            events.append((c[0], "send", c))
        for o, c in self.recvs():
            if o.end is e and c[2] is not None and c[2][0] == "ok":
                events.append((c[1], "recv", c))
        events.sort(key=lambda t: t[0])
        buf = list(e.first)
        overflow = False
        for at, kind, c in events:
            if kind == "send":
                if at < e.born:
                    continue
                if len(buf) >= e.limit:
                    env.cover("overflow")
                    overflow = True
                    buf.pop(0)
                buf.append(c)
            else:
                m = self.find(c[2][1])
                env.check(m is not None, "received a message that was never sent")
                env.check(bool(buf), "received a message that is not due (any more)")
                want = buf.pop(0)
                env.check(m is want, "received a message out of order")
        if drained and e.dropped_at is None:
            env.check(not buf, "messages were lost")
        if not overflow and len(events) > 1:
            env.cover("no overflow")

    def check_all(self, drained):
        for e in self.all_ends:
            self.check_receiver(e, drained)

    def check_quiescent(self):
        """Nobody waits for something that is there, and sends never wait."""
        env = self.env
        env.check(not self.waiting("send"), "a broadcast send waits")
        for o in self.waiting("recv"):
            n = self.undelivered(o.end)
            env.check(n == 0, "a receiver waits although it has a message")
            env.cover("waiting receiver")

    def undelivered(self, e):
        n = len(e.first)
        ev = [(c[0], 1) for _o, c in self.sends()
              if c[0] > e.born and (c[2] is None or c[2][0] == "ok")]
        ev += [(c[1], -1) for o, c in self.recvs()
               if o.end is e and c[2] is not None and c[2][0] == "ok"]
        for _at, d in sorted(ev):
            n += d
            if d > 0 and n > e.limit:
                n -= 1
        return n


def make(env, resend=None):
    if resend is None:
        resend = env.flag("resend")
    chan = env.ch.Broadcast(name="c", resend_latest=resend)
    return chan, BClient(env, chan, env.p["senders"], resend)


async def run(env, cl):
    p = env.p
    for _ in range(p.get("start", 0)):
        cl.new_receiver()
    for i in range(p["steps"]):
        if not await cl.step(i, p["allow"]):
            break
        if not env.loop._ready:
            cl.check_quiescent()


async def b01(env):
    _chan, cl = make(env, False)
    await run(env, cl)
    await env.settle()
    cl.check_quiescent()
    for _o, c in cl.sends():
        env.check(c[2] is not None and c[2][0] == "ok", "a send on an open channel failed")
    await cl.drain()
    cl.describe()
    cl.check_all(drained=True)


async def b02(env):
    """Overflow of one receiver, another one having a different limit and pace."""
    _chan, cl = make(env, False)
    await run(env, cl)
    await env.settle()
    await cl.drain()
    cl.describe()
    cl.check_all(drained=True)


async def b03(env):
    chan, cl = make(env)
    await run(env, cl)
    await env.settle()
    if cl.all_ends and cl.all_ends[-1].first:
        env.cover("resent")
    if len(cl.all_ends) < env.p["receivers"]:
        cl.new_receiver()
    await cl.drain()
    cl.describe()
    cl.check_all(drained=True)
    if cl.closed_at is not None:
        # a receiver of a closed channel gets nothing at all
        r = chan.new_receiver()
        out = await env.guard(r.receive())
        env.check(env.is_recv_closed(out, r, chan),
                  "a receiver created after close() does not stop at once")
        env.cover("created after close")


async def b04(env):
    chan, cl = make(env)
    await run(env, cl)
    await env.settle()
    if cl.close_task is None:
        cl.check_quiescent()
        cl.begin_close()
        await env.settle()
    cl.describe()
    env.expect(env.outcome(cl.close_task), "ok", "close()")
    env.check(chan.is_closed is True, "is_closed is not set after close()")
    for o in cl.ops:
        env.check(not o.waiting(), f"a {o.kind} keeps waiting after close()")
    cl.check_closed_errors()
    for s in cl.senders:
        op = cl.start("send", s, 1)
        await env.settle()
        env.check(not op.waiting(), "a send on a closed channel waits")
        env.check(env.is_sender_closed(op.calls[0][2], s.obj, chan),
                  "a send on a closed channel does not fail properly")
    n = len(cl.taken())
    await cl.drain()
    if len(cl.taken()) > n:
        env.cover("drained after close")
    cl.check_all(drained=True)
    for _ in range(2):
        for r in cl.receivers:
            op = cl.start("recv", r, 1)
            await env.settle()
            env.check(not op.waiting(), "a receive on a closed channel waits")
            env.check(env.is_recv_closed(op.calls[0][2], r.obj, chan),
                      "a receive on a drained closed channel does not stop properly")


async def b04_waiters(env):
    """Several tasks wait in ready() of the same and of different receivers."""
    p = env.p
    chan = env.ch.Broadcast(name="c")
    snd = chan.new_sender()
    recv = [chan.new_receiver() for _ in range(p["receivers"])]
    waits = []       # (receiver, task, cancelled)
    nsend = ncancel = 0
    held = [0] * len(recv)
    closed = False
    close_task = None

    def check():
        for w in waits:
            out = env.outcome(w[1])
            if out[0] == "cancelled":
                env.check(w[2], "a cancellation appeared")
            elif out[0] == "ok":
                env.check(out[1] is True and nsend > 0 or out[1] is False and closed,
                          "ready() returned the wrong value")
            else:
                env.check(out[0] == "pending", "ready() failed")

    for k in range(p["steps"]):
        check()
        opts = [("wait", i) for i in range(len(recv)) if len(waits) < p["waits"]]
        if env.loop._ready:
            opts.append(("tick",))
        if nsend < p["msgs"] and not closed:
            opts.append(("send",))
        if not closed:
            opts.append(("close",))
        if ncancel < p["cancels"]:
            opts += [("cancel", w) for w in waits if not w[1].done() and not w[2]]
        opts += [("take", i) for i in range(len(recv)) if held[i]
                 and not any(w[0] == i and not w[1].done() for w in waits)]
        if not opts:
            break
        o = opts[env.choice(f"op{k}", len(opts))]
        if o[0] == "wait":
            waits.append([o[1], env.spawn(recv[o[1]].ready()), False])
        elif o[0] == "tick":
            await asyncio.sleep(0)
        elif o[0] == "send":
            nsend += 1
            held = [h + 1 for h in held]
            await snd.send(nsend)
        elif o[0] == "take":
            held[o[1]] -= 1
            env.check(await recv[o[1]].ready() is True, "ready() is not True")
            recv[o[1]].consume()
        elif o[0] == "close":
            closed = True
            close_task = env.spawn(chan.close())
        else:
            ncancel += 1
            o[1][2] = True
            o[1][1].cancel()
    await env.settle()
    if not closed and not any(held):
        env.cover("nobody woken")
    for final in (False, True):
        if final and not closed:
            closed = True
            close_task = env.spawn(chan.close())
            await env.settle()
        check()
        for i, t, _c in waits:
            if held[i]:
                env.check(t.done(), "ready() waits although the receiver has a message")
                env.cover("woken by a message")
            if closed:
                env.check(t.done(), "ready() waits although the channel was closed")
                env.cover("woken by the close")
    env.expect(env.outcome(close_task), "ok", "close()")


BOUNDS = ("any buffer limits in 1..10**6; {senders} senders, up to {receivers} receivers, up to "
          "{msgs} sends and {recvs} receives (any None/falsy/equal/unhashable messages), "
          "{steps} steps: a task doing 1..{burst} sends or 1..{rburst} receives starts, one "
          "loop iteration, or {allow}; then everything is drained")
STYLED = BOUNDS + ("; received by receive(), by ready() (twice) and consume(), or by anext(); "
                   "receivers with or without a common name")

HARNESSES = {
    "B01": [Harness(
        "history", b01, BOUNDS,
        quick=dict(senders=2, receivers=2, start=1, msgs=3, recvs=3, steps=6, burst=2, rburst=2,
                   cancels=1, allow=["settle", "new", "drop", "cancel"]),
        thorough=dict(senders=2, receivers=3, start=1, msgs=4, recvs=3, steps=7, burst=2,
                      rburst=2, cancels=1, allow=["settle", "new", "drop", "cancel"]),
        covers=["dropped", "no overflow", "waiting receiver", "overflow"]),
        Harness(
        "styles", b01, STYLED,
        quick=dict(senders=1, receivers=2, start=1, msgs=3, recvs=2, steps=4, burst=2,
                   rburst=2, names=True, styles=[0, 1, 2], allow=["settle", "new", "drop"]),
        thorough=dict(senders=1, receivers=3, start=1, msgs=3, recvs=3, steps=6, burst=2,
                      rburst=2, names=True, styles=[0, 1, 2],
                      allow=["settle", "new", "drop"]),
        covers=["no overflow", "overflow"])],
    "B02": [Harness(
        "history", b02, BOUNDS,
        quick=dict(senders=1, receivers=2, start=2, msgs=5, recvs=4, steps=6, burst=3, rburst=2,
                   allow=["settle"]),
        thorough=dict(senders=2, receivers=2, start=2, msgs=6, recvs=4, steps=8, burst=3,
                      rburst=2, allow=["settle"]),
        covers=["overflow", "no overflow"]),
        Harness(
        "styles", b02, STYLED,
        quick=dict(senders=1, receivers=1, start=1, msgs=5, recvs=3, steps=5, burst=3,
                   rburst=2, styles=[1, 2], allow=["settle"]),
        thorough=dict(senders=1, receivers=2, start=2, msgs=5, recvs=4, steps=6, burst=3,
                      rburst=2, styles=[1, 2], allow=["settle"]),
        covers=["overflow", "no overflow"])],
    "B03": [Harness(
        "history", b03, BOUNDS,
        quick=dict(senders=2, receivers=3, start=0, msgs=3, recvs=2, steps=5, burst=2,
                   rburst=1, allow=["settle", "new", "drop", "close"]),
        thorough=dict(senders=2, receivers=3, start=0, msgs=4, recvs=3, steps=7, burst=2,
                      rburst=1, allow=["settle", "new", "drop", "close"]),
        covers=["resent", "created after close"]),
        Harness(
        "toggle", b03, BOUNDS + " (of resend_latest)",
        quick=dict(senders=1, receivers=2, start=0, msgs=2, recvs=1, steps=5, burst=1,
                   rburst=1, allow=["settle", "new", "toggle", "close"]),
        thorough=dict(senders=1, receivers=3, start=0, msgs=3, recvs=2, steps=7, burst=2,
                      rburst=1, allow=["settle", "new", "toggle", "close"]),
        covers=["resent", "toggled", "created after close"])],
    "B04": [Harness(
        "waiters", b04_waiters,
        "{receivers} receivers, {waits} tasks waiting in ready() of any of them, {msgs} "
        "messages, {cancels} cancellations, {steps} steps, then a close",
        quick=dict(receivers=2, waits=4, msgs=2, cancels=1, steps=7),
        thorough=dict(receivers=2, waits=4, msgs=2, cancels=2, steps=8),
        covers=["woken by a message", "woken by the close", "nobody woken"]),
        Harness(
        "history", b04, BOUNDS,
        quick=dict(senders=1, receivers=2, start=1, msgs=2, recvs=3, steps=6, burst=2,
                   rburst=2, cancels=1, allow=["settle", "new", "cancel", "close"]),
        thorough=dict(senders=2, receivers=2, start=1, msgs=3, recvs=3, steps=7, burst=2,
                      rburst=2, cancels=1, allow=["settle", "new", "cancel", "close"]),
        covers=["waiting receive stopped", "drained after close", "send failed"]),
        Harness(
        "styles", b04, STYLED,
        quick=dict(senders=1, receivers=2, start=1, msgs=2, recvs=2, steps=5, burst=2,
                   rburst=2, styles=[1, 2], names=True, allow=["settle", "new", "close"]),
        thorough=dict(senders=1, receivers=2, start=1, msgs=3, recvs=3, steps=6, burst=2,
                      rburst=2, styles=[1, 2], names=True,
                      allow=["settle", "new", "close"]),
        covers=["waiting receive stopped", "drained after close", "send failed"])],
}
