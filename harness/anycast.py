"""Anycast channel: most general client with symbolic limit, messages and schedule."""
from symx.harness_loader import Harness

from ._common import Client, End


class AnyClient(Client):
    """Also receivers that call ready() only, some time before they receive, or are dropped."""

    def __init__(self, *a):
        super().__init__(*a)
        self.peeks = []          # [end, task]
        self.may_lose = 0        # dropped receivers that had been ready

    def idle_ends(self, kind):
        out = super().idle_ends(kind)
        if kind == "recv":
            out = [e for e in out if not any(x is e and not t.done() for x, t in self.peeks)]
        return out

    def options(self, allow):
        out = super().options(allow)
        if "peek" in allow and len(self.peeks) < self.env.p.get("peeks", 1):
            out += [("peek", e) for e in self.idle_ends("recv")]
        if "drop" in allow and len(self.receivers) > 1:
            out += [("drop", e) for e in self.idle_ends("recv")
                    if any(x is e for x, _t in self.peeks)]
        return out

    def begin(self, op):
        at = self.tick()
        if op.kind == "recv" and op.end.peek_at is not None:
            # it started when ready() was called
            at, op.end.peek_at = op.end.peek_at, None
        return at

    async def perform(self, o):
        if o[0] == "peek":
            if o[1].peek_at is None:
                o[1].peek_at = self.tick()
            self.peeks.append((o[1], self.env.spawn(o[1].obj.ready())))
        elif o[0] == "drop":
            e = o[1]
            self.may_lose += e.peek_at is not None
            self.receivers = [r for r in self.receivers if r is not e]
            self.peeks = [(x, t) for x, t in self.peeks if x is not e]
            e.obj = None
            self.env.cover("dropped")
        else:
            await super().perform(o)

    def check_peeks(self):
        """Whoever waits in ready() is not waiting for something that is there."""
        held = []
        for e, t in self.peeks:
            if e.peek_at is not None and not any(e is x for x, _t in held):
                held.append((e, t))
        for _e, t in self.peeks:
            out = self.env.outcome(t)
            self.env.check(out[0] in ("ok", "pending"), "ready() failed")
            if out[0] == "pending":
                n = (len(self.accepted()) - len(self.taken()) - self.may_lose
                     - sum(1 for e, u in held if u.done()))
                self.env.check(n <= 0, "ready() waits although there is a message")
                self.env.check(self.closed_at is None, "ready() waits after close()")
            else:
                self.env.cover("peeked")

    async def end_peeks(self):
        """Nobody waits in ready() any more (one operation at a time per receiver)."""
        for e, t in self.peeks:
            if not t.done():
                t.cancel()
                e.peek_at = None
        await self.env.settle()

    def check_once(self, complete):
        """A01: no duplicate, nothing invented, and (after a drain) nothing lost."""
        env = self.env
        seen = []
        for c in self.taken():
            s = self.find(c[2][1])
            env.check(s is not None, "received a message that was never sent")
            env.check(not any(s is t for t in seen), "message received twice")
            env.check(s[2] is None or s[2][0] != "err",
                      "received a message whose send failed")
            seen.append(s)
        if complete:
            lost = [s for s in self.accepted() if not any(s is t for t in seen)]
            env.check(len(lost) <= self.may_lose, "accepted message was never received")

    def check_order(self):
        env = self.env
        got = [(self.find(c[2][1]), c, o) for o, c in self.recvs()
               if c[2] is not None and c[2][0] == "ok"]
        for s1, c1, o1 in got:
            for s2, c2, o2 in got:
                if s1 is None or s2 is None or s1[1] is None or not s1[1] < s2[0]:
                    continue
                env.cover("ordered pair")
                # s1 completed before s2 started
                env.check(not c2[1] < c1[0],
                          "a message was received after one that was sent later")
                if o1.end is o2.end:
                    env.check(c1[1] < c2[1], "receiver got messages in the wrong order")

    def check_quiescent(self, limit, label=""):
        """A03/A04 at a quiescent point of an open channel."""
        env = self.env
        buffered = len(self.accepted()) - len(self.taken())
        env.check(buffered <= limit, "more messages buffered than the limit")
        if self.waiting("send"):
            env.cover("blocked sender")
            env.check(buffered >= limit, "a sender waits although there is room")
        if self.waiting("recv"):
            env.check(buffered <= 0, "a receiver waits although there is a message")


def make(env, nsend, nrecv):
    limit = env.int("limit", 1, 10**6)
    chan = env.ch.Anycast(name="c", limit=limit)
    return chan, limit, AnyClient(env, chan, [chan.new_sender() for _ in range(nsend)],
                                  [chan.new_receiver() for _ in range(nrecv)])


async def a01(env):
    p = env.p
    _chan, _limit, cl = make(env, p["senders"], p["receivers"])
    for i in range(p["steps"]):
        if not await cl.step(i, p["allow"]):
            break
    await env.settle()
    cl.check_peeks()
    await cl.end_peeks()
    await cl.drain()
    cl.describe()
    cl.check_once(complete=True)
    if len(cl.accepted()) >= 2:
        env.cover("two accepted")
    if len(cl.taken()) >= 2:
        env.cover("two received")


async def a02(env):
    p = env.p
    _chan, _limit, cl = make(env, p["senders"], p["receivers"])
    for i in range(p["steps"]):
        if not await cl.step(i, p["allow"]):
            break
    await env.settle()
    cl.check_peeks()
    await cl.end_peeks()
    await cl.drain()
    cl.describe()
    cl.check_order()


async def a03(env):
    p = env.p
    chan, limit, cl = make(env, p["senders"], p["receivers"])
    env.check(chan.limit == limit, "the reported limit is not the configured one")
    for i in range(p["steps"]):
        if not await cl.step(i, p["allow"]):
            break
        if not env.loop._ready:
            cl.check_quiescent(limit)
    await env.settle()
    cl.check_quiescent(limit)
    env.check(chan.limit == limit, "the reported limit is not the configured one")
    for _o, c in cl.sends():
        env.check(c[2] is None or c[2][0] == "ok", "a send on an open channel failed")
    await cl.drain()
    cl.check_quiescent(limit)
    env.check(not cl.waiting("send"), "a sender waits although the channel was drained")
    cl.check_once(complete=True)
    cl.describe()


async def a04(env):
    """No lost wake-up, cancelled waiters included.

    At a quiescent point: a waiting receiver must not get, later, a message whose send had
    ended before that point (it was available), and no sender may wait if, counting
    the messages of cancelled sends that turn out to have been accepted, there was room.
    """
    p = env.p
    chan, limit, cl = make(env, p["senders"], p["receivers"])
    for i in range(p["steps"]):
        if not await cl.step(i, p["allow"]):
            break
    await env.settle()
    quiet = cl.tick()
    ws, wr = cl.waiting("send"), cl.waiting("recv")
    before = [c for _o, c in cl.sends() if c[2] is not None]
    taken = len(cl.taken())
    env.check(not (ws and wr), "a sender and a receiver wait for each other")
    if ws:
        env.cover("blocked sender")
    if wr:
        env.cover("blocked receiver")
    if any(o.cancelled for o in cl.ops):
        env.cover("cancelled")
    # wake up everybody who waits for a message
    late = End(chan.new_sender())
    for _ in wr:
        op = cl.start("send", late, 1)
        await env.settle()
        env.check(not op.waiting(), "a send waits although receivers wait for messages")
    for o in wr:
        env.check(not o.waiting(), "a receiver was not woken by a message")
        for c in o.calls:
            if c[2] is not None and c[2][0] == "ok" and c[1] > quiet:
                m = cl.find(c[2][1])
                env.check(not any(m is b for b in before),
                          "a receiver waited although a message was available")
    await cl.drain()
    env.check(not cl.waiting("send"), "a sender waits although the channel was drained")
    got = [c[2][1] for c in cl.taken()]
    acc = sum(1 for c in before if c[2][0] == "ok" or any(c[3] is m for m in got))
    if ws:
        env.check(acc - taken >= limit, "a sender waited although there was room")
    cl.check_once(complete=True)
    cl.describe()


async def a05(env):
    p = env.p
    chan, limit, cl = make(env, p["senders"], p["receivers"])
    for i in range(p["steps"]):
        if not await cl.step(i, p["allow"]):
            break
    if cl.close_task is None:
        cl.begin_close()
    await env.settle()
    cl.describe()
    env.expect(env.outcome(cl.close_task), "ok", "close()")
    env.check(chan.is_closed is True, "is_closed is not set after close()")
    for o in cl.ops:
        env.check(not o.waiting(), f"a {o.kind} keeps waiting after close()")
    cl.check_peeks()
    cl.check_closed_errors()
    # a send now fails, whatever the fill level
    for s in cl.senders:
        op = cl.start("send", s, 1)
        await env.settle()
        env.check(not op.waiting(), "a send on a closed channel waits")
        env.check(env.is_sender_closed(op.calls[0][2], s.obj, chan),
                  "a send on a closed channel does not fail properly")
    # what was accepted is still there; then everything stops, and stays stopped
    left = len(cl.accepted()) - len(cl.taken())
    if left:
        env.cover("drained after close")
    await cl.drain()
    cl.check_once(complete=True)
    for _ in range(2):
        for r in cl.receivers:
            op = cl.start("recv", r, 1)
            await env.settle()
            env.check(not op.waiting(), "a receive on a closed channel waits")
            env.check(env.is_recv_closed(op.calls[0][2], r.obj, chan),
                      "a receive on a drained closed channel does not stop properly")


BOUNDS = ("any limit in 1..10**6; {senders} senders, {receivers} receivers, up to {msgs} sends "
          "and {recvs} receives (any None/falsy/equal/unhashable messages), {steps} steps: "
          "a task doing 1..{burst} sends or 1..{rburst} receives starts, one loop iteration, "
          "or {allow}; then everything is drained")
STYLED = BOUNDS + "; received by receive(), by ready() (twice) and consume(), or by anext()"

PEEKED = BOUNDS + "; a receiver may call ready() alone before, or be dropped after that"

HARNESSES = {
    "A01": [Harness(
        "peek", a01, PEEKED,
        quick=dict(senders=2, receivers=2, msgs=3, recvs=2, steps=7, burst=3, rburst=1,
                   peeks=2, allow=["settle", "peek", "drop"]),
        thorough=dict(senders=2, receivers=3, msgs=4, recvs=3, steps=7, burst=3, rburst=2,
                      peeks=2, allow=["settle", "peek", "drop"]),
        covers=["two accepted", "two received", "peeked", "dropped"]),
        Harness(
        "history", a01,
        BOUNDS,
        quick=dict(senders=2, receivers=2, msgs=3, recvs=2, steps=6, burst=2, rburst=2,
                   allow=["settle"]),
        thorough=dict(senders=2, receivers=2, msgs=4, recvs=3, steps=8, burst=2, rburst=2,
                      allow=["settle"]),
        covers=["two accepted", "two received"]),
        Harness(
        "styles", a01, STYLED,
        quick=dict(senders=1, receivers=2, msgs=3, recvs=2, steps=5, burst=2, rburst=2,
                   styles=[1, 2], allow=["settle"]),
        thorough=dict(senders=2, receivers=2, msgs=3, recvs=3, steps=7, burst=2, rburst=2,
                      styles=[1, 2], allow=["settle"]),
        covers=["two accepted", "two received"])],
    "A02": [Harness(
        "peek", a02, PEEKED,
        quick=dict(senders=2, receivers=2, msgs=3, recvs=2, steps=7, burst=3, rburst=1,
                   peeks=2, allow=["settle", "peek", "drop"]),
        thorough=dict(senders=2, receivers=3, msgs=4, recvs=3, steps=7, burst=3, rburst=2,
                      peeks=2, allow=["settle", "peek", "drop"]),
        covers=["ordered pair", "peeked", "dropped"]),
        Harness(
        "history", a02, BOUNDS,
        quick=dict(senders=2, receivers=2, msgs=4, recvs=3, steps=6, burst=2, rburst=2,
                   allow=["settle"]),
        thorough=dict(senders=2, receivers=2, msgs=4, recvs=4, steps=8, burst=2, rburst=2,
                      allow=["settle"]),
        covers=["ordered pair"]),
        Harness(
        "styles", a02, STYLED,
        quick=dict(senders=1, receivers=2, msgs=3, recvs=2, steps=5, burst=2, rburst=2,
                   styles=[1, 2], allow=["settle"]),
        thorough=dict(senders=2, receivers=2, msgs=4, recvs=3, steps=7, burst=2, rburst=2,
                      styles=[1, 2], allow=["settle"]),
        covers=["ordered pair"])],
    "A03": [Harness(
        "history", a03, BOUNDS,
        quick=dict(senders=2, receivers=2, msgs=4, recvs=3, steps=6, burst=2, rburst=2,
                   allow=["settle"]),
        thorough=dict(senders=3, receivers=2, msgs=4, recvs=4, steps=8, burst=2, rburst=2,
                      allow=["settle"]),
        covers=["blocked sender"])],
    "A04": [Harness(
        "history", a04, BOUNDS + " (up to {cancels} times)",
        quick=dict(senders=3, receivers=3, msgs=4, recvs=3, steps=7, burst=1, rburst=1,
                   cancels=2, allow=["settle", "cancel"]),
        thorough=dict(senders=3, receivers=3, msgs=5, recvs=4, steps=9, burst=1, rburst=1,
                      cancels=2, allow=["settle", "cancel"]),
        covers=["blocked sender", "blocked receiver", "cancelled"])],
    "A05": [Harness(
        "peek", a05, PEEKED,
        quick=dict(senders=2, receivers=2, msgs=2, recvs=2, steps=7, burst=2, rburst=1,
                   peeks=2, allow=["settle", "close", "peek"]),
        thorough=dict(senders=2, receivers=2, msgs=3, recvs=3, steps=7, burst=2, rburst=2,
                      peeks=2, allow=["settle", "close", "peek"]),
        covers=["drained after close", "peeked"]),
        Harness(
        "history", a05, BOUNDS,
        quick=dict(senders=2, receivers=2, msgs=3, recvs=2, steps=6, burst=2, rburst=2,
                   allow=["settle", "close"]),
        thorough=dict(senders=2, receivers=2, msgs=4, recvs=3, steps=8, burst=2, rburst=2,
                      allow=["settle", "close"]),
        covers=["send failed", "waiting send failed", "waiting receive stopped",
                "drained after close"]),
        Harness(
        "styles", a05, STYLED,
        quick=dict(senders=2, receivers=1, msgs=3, recvs=2, steps=5, burst=2, rburst=2,
                   styles=[1, 2], allow=["settle", "close"]),
        thorough=dict(senders=2, receivers=2, msgs=3, recvs=3, steps=7, burst=2, rburst=2,
                      styles=[1, 2], allow=["settle", "close"]),
        covers=["send failed", "waiting send failed", "waiting receive stopped",
                "drained after close"])],
}
