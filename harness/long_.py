"""Long histories: many messages, ends, sources or ticks, few decisions.

The other scenarios decide every step; these follow a script whose parameters (limits,
pattern, position of a disturbance) are inputs, to reach depths that need many steps.
"""
from symx.harness_loader import Harness

from ._common import look, owner
from ._fake import fake_class, source_error
from ._sources import make
from .timer_ import SMALL, Spec


# ---- channels: a cycle of operations, repeated ---------------------------------------------
def cycle_ops(p):
    ops = [("send", 0), ("recv", 0), ("settle", 0)]
    if p["ends"] > 1:
        ops += [("send", 1), ("recv", 1)]
    if p.get("cancel"):
        ops += [("cancel", "send"), ("cancel", "recv")]
    return ops


def anycast(env):
    p = env.p
    limit = env.int("limit", 1, 10**6)
    chan = env.ch.Anycast(name="c", limit=limit)
    n = p["ends"]
    return chan, limit, [chan.new_sender() for _ in range(n)], [
        chan.new_receiver() for _ in range(n)]


async def cyclic(env):
    """A few operations, chosen once and repeated several times, on an anycast channel."""
    p = env.p
    chan, limit, senders, receivers = anycast(env)
    ops = cycle_ops(p)
    cyc = [ops[env.choice(f"cycle{i}", len(ops))] for i in range(p["cycle"])]
    env.assume(any(o[0] == "send" for o in cyc) and any(o[0] == "recv" for o in cyc))
    cl = CycleClient(env, chan, senders, receivers, limit)
    for _ in range(p["reps"]):
        for o in cyc:
            await cl.do(o)
    await env.settle()
    cl.check_quiet()
    await cl.drain_all()
    env.cover("cycle")
    env.log(len(cl.got), len(cl.sent))


class CycleClient:
    """Sends and receives by tasks that may wait; messages are numbered."""

    def __init__(self, env, chan, senders, receivers, limit):
        self.env, self.chan, self.limit = env, chan, limit
        self.senders, self.receivers = senders, receivers
        self.tasks = {"send": [], "recv": []}     # (task, message or end)
        self.sent, self.got, self.n = [], [], 0
        self.after = {}
        self.cancelled = []

    async def _recv(self, i):
        env = self.env
        m = await self.receivers[i].receive()
        env.check(not any(m == g for g in self.got), "message received twice")
        env.check(type(m) is tuple and m[0] == "m" and m[1] < self.n, "invented message")
        self.got.append(m)

    async def _send(self, i, m):
        before = len(self.sent)      # these were accepted before this send began
        await self.senders[i].send(m)
        self.after[m] = before
        self.sent.append(m)

    async def do(self, o):
        env = self.env
        if o[0] == "send":
            m = ("m", self.n)
            self.n += 1
            self.tasks["send"].append((env.spawn(self._send(o[1], m)), m))
        elif o[0] == "recv":
            if not any(t[1] == o[1] for t in self.waiting("recv")):
                self.tasks["recv"].append((env.spawn(self._recv(o[1])), o[1]))
        elif o[0] == "cancel":
            live = [t for t in self.tasks[o[1]] if not t[0].done()]
            if live:
                self.cancelled.append(live[0])
                live[0][0].cancel()
        else:
            await env.settle()
            self.check_quiet()

    def waiting(self, kind):
        return [t for t in self.tasks[kind] if not t[0].done()]

    def check_quiet(self):
        env = self.env
        if env.loop._ready:
            return
        for k in self.tasks:
            for t, _m in self.tasks[k]:
                out = env.outcome(t)
                env.check(out[0] != "err", f"a {k} failed")
                env.check(out[0] != "cancelled" or any(c[0] is t for c in self.cancelled),
                          "a cancellation appeared")
        n = len(self.sent) - len(self.got)
        if not self.cancelled:
            env.check(n <= self.limit, "more messages buffered than the limit")
            if self.waiting("send"):
                env.check(n >= self.limit, "a sender waits although there is room")
            if self.waiting("recv"):
                env.check(n <= 0, "a receiver waits although there is a message")

    async def drain_all(self):
        env = self.env
        for _ in range(self.n + 1):
            if not self.waiting("recv"):
                await self.do(("recv", 0))
            await env.settle()
            self.check_quiet()
        env.check(not self.waiting("send"), "a sender waits although the channel was drained")
        for m in self.sent:
            env.check(m in self.got, "accepted message was never received")
            k = self.got.index(m)
            env.check(all(a in self.got[:k] for a in self.sent[:self.after[m]]),
                      "messages out of order")


async def fill(env):
    """Many senders fill the channel far beyond its limit; then it is emptied in a pattern."""
    p = env.p
    chan, limit, senders, receivers = anycast(env)
    n = p["msgs"]
    accepted, got = [], []
    same, the_one = p.get("same") and env.flag("same"), (0, 0)
    per = n // len(senders)
    style = env.choice("style", 3)     # one task per sender, one per message, receivers first
    waiting = []

    async def produce(s, ms):
        for m in ms:
            await s.send(m)
            accepted.append(m)

    async def take(r, k):
        for _ in range(k):
            got.append(await r.receive())

    def check(bound):
        free = len(accepted) < n
        held = len(accepted) - len(got)
        env.check(held <= limit, "more messages buffered than the limit")
        if free:
            env.check(held >= limit, "a sender waits although there is room")
        env.check(len(got) <= bound, "more messages than were asked for")

    if style == 2:
        waiting = [env.spawn(take(r, 1)) for r in receivers]
        await env.settle()
    tasks = []
    for i, s in enumerate(senders):
        ms = [(i, k) for k in range(per)]
        if same:
            ms = [the_one] * per
        if style == 1:
            tasks += [env.spawn(produce(s, [m])) for m in ms]
        else:
            tasks.append(env.spawn(produce(s, ms)))
    n = per * len(senders)
    await env.settle()
    asked = len(waiting)
    env.check(len(got) == asked, "a waiting receiver got nothing")
    check(asked)
    close = p.get("close") and env.flag("close")
    if close:
        await chan.close()
        await env.settle()
        for t in tasks:
            env.check(t.done(), "a sender waits after close()")
            out = env.outcome(t)
            if out[0] == "err":
                env.check(isinstance(out[1], env.ch.SenderError), "wrong error")
        n = len(accepted)
        env.cover("closed")
    burst = [1, 3, 7][env.choice("burst", 3)]
    k = 0
    while len(got) < n:
        want = min(burst, n - len(got))
        asked += want
        t = [env.spawn(take(receivers[(k + j) % len(receivers)], 1))
             for j in range(min(want, len(receivers)))]
        if want > len(receivers):
            asked -= want - len(receivers)
        await env.settle()
        env.check(all(env.outcome(u)[0] == "ok" for u in t), "a receiver waits or fails")
        if not close:
            check(asked)
        k += 1
    env.check(sorted(got) == sorted(accepted), "messages lost or duplicated")
    if style != 1:
        for i in range(len(senders)):
            mine = [m for m in got if m[0] == i]
            env.check(mine == sorted(mine), "messages of a sender out of order")
    for t in tasks:
        env.check(t.done(), "a sender waits although the channel is empty")
    if close:
        for r in receivers:
            for _ in range(2):
                out = await env.guard(r.receive())
                env.check(env.is_recv_closed(out, r, chan), "no proper stop")
    env.cover("filled")
    env.log(len(got))


async def crowd(env):
    """Many broadcast receivers, some dropped, far more messages than the limit of one."""
    p = env.p
    resend = env.flag("resend") if p.get("resend") else False
    chan = env.ch.Broadcast(name="c", resend_latest=resend)
    snd = [chan.new_sender(), chan.new_sender()]
    limit = env.int("limit", 1, 10**6)
    n = p["msgs"]
    slow = chan.new_receiver(limit=limit)
    quick = [chan.new_receiver(limit=n) for _ in range(p["crowd"])]
    drop_at = env.choice("drop at", p["crowd"]) * (n // p["crowd"])
    dropped = env.choice("dropped", p["crowd"] + 1)    # all of the even ones if it is the last
    pace = [0, 1, 5][env.choice("pace", 3)]     # the slow one takes one every `pace` messages
    close = env.flag("close") if p.get("close") else False
    div = [1, 3, n][env.choice("equal", 3)] if p.get("same") else 1   # equal ones in a row
    msgs = [("m", k // div) for k in range(n)]
    for k in range(n):
        if k % div:
            msgs[k] = msgs[k - 1]
    model = []
    late = None

    async def wait_all(r, out):
        async for m in r:
            out.append(m)

    outs = [[] for _ in quick]
    tasks = []
    for i, r in enumerate(quick):
        if i % 2:
            tasks.append(env.spawn(wait_all(r, outs[i])))
    gone = []
    for k in range(n):
        if k == drop_at and dropped == p["crowd"]:
            gone = list(range(0, p["crowd"], 2))
            for i in gone:
                quick[i] = r = None
        elif k == drop_at and dropped % 2 == 0:
            quick[dropped] = r = None
            gone.append(dropped)
        if k == n // 2:
            late = chan.new_receiver(limit=n)
        await snd[k % 2].send(msgs[k])
        if len(model) >= limit:
            model.pop(0)
        model.append(msgs[k])
        if pace and k % pace == 0:
            env.check(await slow.ready() is True, "no message")
            env.check(slow.consume() == model.pop(0), "wrong message of the slow receiver")
    await env.settle()
    if close:
        await chan.close()
        await env.settle()
    fresh = chan.new_receiver(limit=2)

    async def rest(r):
        out = []
        while True:
            t = env.spawn(r.receive())
            await env.settle()
            o = env.outcome(t)
            if o[0] == "pending":
                env.check(not close, "a receive waits although the channel is closed")
                t.cancel()
                await env.settle()
                return out
            if o[0] == "err":
                env.check(close and env.is_recv_closed(o, r, chan), "a receive failed")
                return out
            out.append(o[1])

    env.check(await rest(slow) == model, "wrong messages of the slow receiver")
    for i, r in enumerate(quick):
        if i in gone:
            continue
        out = outs[i] if i % 2 else await rest(r)
        env.check(out == msgs, "a receiver did not get every message in order")
    first = [msgs[n // 2 - 1]] if resend and n > 1 else []
    env.check(await rest(late) == first + msgs[n // 2:], "wrong messages of a later one")
    env.check(await rest(fresh) == (msgs[n - 1:] if resend and not close else []),
              "wrong messages of a new receiver")
    for t in tasks:
        env.check(t.done() is close, "an iteration ends too early, or not at all")
    env.cover("crowd")
    env.log(len(model))


async def overflow(env):
    """Very many messages to a broadcast receiver, far more than its limit or fewer."""
    p = env.p
    n = p["msgs"]
    chan = env.ch.Broadcast(name="c", resend_latest=env.flag("resend"))
    snd = chan.new_sender()
    limit = env.int("limit", n if p.get("full") else 1, 10**6)
    recv = chan.new_receiver(limit=limit)
    other = chan.new_receiver(limit=10 * n)
    before = [0, 3][env.choice("before", 2)]     # received one by one
    for k in range(before):
        await snd.send(("before", k))
        env.check(await recv.receive() == ("before", k), "a wrong message")
    msgs = [("m", k) for k in range(n)]
    for m in msgs:
        await snd.send(m)
    for back in (0, n // 3):
        # what is left, then some more
        want = list(msgs)
        while len(want) > limit:
            want.pop(0)
        part = want if not back else want[:back]
        for m in part[:back or len(part) // 2]:
            env.check(await recv.receive() == m, "a wrong message")
        del want[:back or len(part) // 2]
        msgs = want + [("more", back, k) for k in range(n // 4)]
        for m in msgs[len(want):]:
            await snd.send(m)
    while len(msgs) > limit:
        msgs.pop(0)
    for m in msgs:
        env.check(await recv.receive() == m, "a wrong message")
    t = env.spawn(recv.receive())
    await env.settle()
    env.check(not t.done(), "more messages than were sent")
    for k in range(before):
        env.check(await other.receive() == ("before", k), "a wrong message")
    for k in range(n):
        env.check(await other.receive() == ("m", k), "a wrong message")
    env.cover("overflow")


async def flood(env):
    """One sender sends very many messages over an anycast channel of any limit."""
    p = env.p
    n = p["msgs"]
    limit = env.int("limit", 1, 10**6)
    chan = env.ch.Anycast(name="c", limit=limit)
    snd, recv = chan.new_sender(), chan.new_receiver()
    accepted, got = [], []

    async def produce():
        for k in range(n):
            await snd.send(k)
            accepted.append(k)

    async def consume():
        while len(got) < n:
            got.append(await recv.receive())

    task = env.spawn(produce())
    await env.settle(30 * n)
    env.check(env.any([len(accepted) >= limit, len(accepted) == n]),
              "a sender waits although there is room")
    env.check(len(accepted) <= limit, "more messages buffered than the limit")
    one = [await recv.receive() for _ in range(3)]
    env.check(one == [0, 1, 2], "messages lost, duplicated or out of order")
    await env.settle(30 * n)
    env.check(env.any([len(accepted) >= limit + 3, len(accepted) == n]),
              "a sender waits although there is room")
    env.check(len(accepted) <= limit + 3, "more messages buffered than the limit")
    got += one
    reader = env.spawn(consume())
    await env.settle(30 * n)
    env.check(task.done() and reader.done(), "a sender or receiver waits")
    env.check(got == accepted == list(range(n)), "messages lost, duplicated or out of order")
    env.cover("flood")


# ---- receivers -----------------------------------------------------------------------------
async def stream(env):
    """Many messages of every kind of receiver, with interruptions, by all ways of receiving."""
    p = env.p
    kinds = p["kinds"]
    kind = kinds[env.choice("kind", len(kinds))]
    env.set_perm(env.choice("order", p.get("orders", 2)))
    s = make(env, kind)
    patterns = p.get("patterns", range(4))       # of messages before each receive
    pattern = patterns[env.choice("pattern", len(patterns))]
    way = p["ways"][env.choice("way", len(p["ways"]))] if "ways" in p else env.choice("way", 4)
    cancel = p.get("cancel") and env.flag("cancel")
    got = 0

    async def by_receive():
        return ("msg", await s.recv.receive())

    async def by_for():
        async for m in s.recv:
            return ("msg", m)
        return ("end", None)

    async def by_ready():
        r = await s.recv.ready()
        for _ in range(2):
            env.check(await s.recv.ready() is r, "ready() changed its mind")
        env.check(r is True, "not ready")
        return ("msg", s.recv.consume())

    async def by_select():
        sel = env.ch.select(s.recv)
        try:
            async for x in sel:
                env.check(env.ch.selected_from(x, s.recv), "another receiver")
                return ("end", None) if x.was_stopped else ("msg", x.message)
        finally:
            await sel.aclose()
        return ("end", None)

    ways = [[by_receive], [by_for], [by_ready, by_receive], [by_select, by_for]][way]
    for k in range(p["rounds"]):
        if cancel and not (kind == "file"):
            # somebody waits, and gives up
            t = env.spawn(ways[k % len(ways)]())
            await env.settle()
            env.check(not t.done() or s.pending() or got < 0, "received nothing")
            if not t.done():
                t.cancel()
                await env.settle()
                env.check(env.outcome(t)[0] == "cancelled", "a cancelled receive did not end")
            else:
                s.take(*env.outcome(t)[1])
                got += 1
        for _ in range([1, 2, 3, 1][pattern]):
            s.push()
        await env.settle()
        n = [9, 1, 9, 0][pattern] if k < p["rounds"] - 1 else 999
        while s.pending() and n:
            n -= 1
            t = env.spawn(ways[got % len(ways)]())
            await env.settle()
            out = env.outcome(t)
            env.check(out[0] == "ok", "a receive waits or fails although there is a message")
            s.take(*out[1])
            got += 1
    s.stop()
    await env.settle()
    for _ in range(3):
        while True:
            t = env.spawn(by_receive())
            await env.settle()
            out = env.outcome(t)
            if out[0] == "ok" and s.noptional():
                s.take(*out[1])
                continue
            break
        env.check(out[0] == "err" and isinstance(out[1], env.ch.ReceiverStoppedError),
                  "it does not stop, or does not stay stopped")
        env.check(out[1].receiver is s.recv, "the stop names another receiver")
        s.check_stop_cause(out[1])
        out = await env.guard(by_for())
        env.check(out == ("ok", ("end", None)), "an iteration over it does not end")
    env.cover("stream")
    env.log(kind, got)


async def mapped(env):
    """Many messages through map(), the function or the source failing at any of them."""
    p = env.p
    n = p["msgs"]
    fail = env.choice("function fails at", n + 1)
    sfail = env.choice("source fails at", n + 1)
    run = [1, 2, n][env.choice("errors", 3)]     # failures in a row
    fails, sfails = range(fail, fail + run), range(sfail, sfail + run)
    depth = env.choice("depth", 3) + 1
    s = fake_class(env)("s")
    calls = [[] for _ in range(depth)]
    err = source_error(env, "f")
    serr = source_error(env, "s")

    def fun(d):
        def f(m):
            calls[d].append(m)
            if d == 0 and m in fails:
                raise err
            return m + 1000
        return f

    r = s
    for d in range(depth):
        r = r.map(fun(d))
    want = []
    for m in range(n):
        if m in sfails:
            for _ in range(run):
                s.push("err", serr)
                want.append(("err", serr))
        s.push("msg", m)
        want.append(("err", err) if m in fails else ("ok", m + 1000 * depth))
    s.stop()
    got = []
    while True:
        out = await env.guard(r.receive())
        if out[0] == "err" and isinstance(out[1], env.ch.ReceiverStoppedError):
            break
        got.append(out)
        env.check(len(got) <= len(want), "more results than messages")
    env.check(len(got) == len(want) and all(a[0] == b[0] and (a[1] is b[1] or a[1] == b[1])
                                            for a, b in zip(got, want)), "wrong results")
    env.check(calls[0] == list(range(n)), "not called exactly once per message")
    for d in range(1, depth):
        env.check(calls[d] == [m + 1000 * d for m in range(n) if m not in fails],
                  "not called exactly once per message")
    env.cover("mapped")


# ---- mergers and selects -------------------------------------------------------------------
async def many_merged(env):
    """Many sources with many messages, errors and stops at chosen places."""
    p = env.p
    n, rounds = p["sources"], p["rounds"]
    env.set_perm(env.choice("order", 3))
    cls = fake_class(env)
    src = [cls(f"s{i}") for i in range(n)]
    m = env.ch.merge(*src)
    way = env.choice("way", 3)
    burst = [1, 2, n * rounds][env.choice("burst", 3)]     # rounds of messages at a time
    stop_round = env.choice("stop round", rounds + 1)
    stopper = env.choice("stopper", n)
    err_round = env.choice("error round", rounds + 1) if p.get("errs") else rounds
    end = env.choice("end", 2) if p.get("stop") else 0
    # the failures of the source after the stopping one: one, many in a row, one each round
    run = env.choice("errors", 3) if err_round < rounds else 0
    errs, expected = [], []
    same = p.get("same") and env.flag("same")      # the same object again and again
    msgs = [[(i, 0 if same else k) for k in range(rounds)] for i in range(n)]
    if same:
        msgs = [[g[0]] * rounds for g in msgs]
    sent = [[] for _ in src]
    got = [[] for _ in src]
    pending = 0

    async def take():
        if way == 0:
            return ("ok", await m.receive())
        if way == 1:
            async for x in m:
                return ("ok", x)
            return ("end",)
        if await m.ready():
            env.check(await m.ready() is True, "ready() changed its mind")
            return ("ok", m.consume())
        return ("end",)

    for k in range(rounds):
        for i, s in enumerate(src):
            if k == stop_round and i == stopper:
                s.stop()
            if s.stopped:
                continue
            if i == (stopper + 1) % n and (k == err_round or run == 2 and k > err_round):
                for _ in range(p.get("run", 6) if run == 1 else 1):
                    expected.append(source_error(env, "e"))
                    s.push("err", expected[-1])
                    pending += 1
            s.push("msg", msgs[i][k])
            sent[i].append(msgs[i][k])
            pending += 1
        if (k + 1) % burst and k < rounds - 1:
            continue
        await env.settle()
        while pending:
            t = env.spawn(take())
            await env.settle()
            out = env.outcome(t)
            if out[0] == "err":
                env.check(len(errs) < len(expected) and out[1] is expected[len(errs)],
                          "an unexpected error")
                errs.append(out[1])
                env.cover("error")
            else:
                env.check(out[0] == "ok", "the merge waits although there is a message")
                env.check(out[1][0] == "ok", "the merge ended too early")
                x = out[1][1]
                env.check(same or not any(x == y for g in got for y in g), "a duplicate")
                got[x[0]].append(x)
            pending -= 1
    env.check(got == sent, "messages lost, or out of order")
    env.check(len(errs) == len(expected), "an error was lost")
    if end == 0:
        for s in src:
            t = env.spawn(take())
            await env.settle()
            env.check(not t.done(), "the merge ended although a source is active")
            t.cancel()
            await env.settle()
            s.stop()
            if s is src[-1] or all(u.stopped for u in src):
                break
    else:
        t = env.spawn(take())
        await env.settle()
        env.check(not t.done(), "the merge ended although a source is active")
        if env.flag("twice"):
            other = env.spawn(m.stop())
            await m.stop()
            await other
        else:
            await m.stop()
        await m.stop()
        own = [u for u in env.other_tasks() if u not in env.spawned]
        env.check(not own, "tasks are alive right after stop()")
        await env.settle()
        out = env.outcome(t)
        env.check(out[0] == "err" and isinstance(out[1], env.ch.ReceiverStoppedError)
                  or out == ("ok", ("end",)), "a waiting consumer is not told of the stop")
        env.cover("stopped")
    await env.settle()
    for _ in range(2):
        out = await env.guard(m.receive())
        env.check(out[0] == "err" and isinstance(out[1], env.ch.ReceiverStoppedError)
                  and out[1].receiver is m, "no proper stop")
        env.check(await m.ready() is False, "ready() of a stopped merge")
    own = [t for t in env.other_tasks() if t not in env.spawned]
    env.check(not own, "tasks are left")
    env.cover("merged")


async def many_selected(env):
    """Many receivers with many messages in a select, and in another one afterwards."""
    p = env.p
    n, rounds = p["receivers"], p["rounds"]
    env.set_perm(env.choice("order", 3))
    cls = fake_class(env)
    src = [cls(f"s{i}") for i in range(n)]
    stop_round = env.choice("stop round", rounds)
    stopper = env.choice("stopper", n)
    err_round = env.choice("error round", rounds + 1) if p.get("errs") else rounds
    # the failures of the receiver after the stopping one: one of ready(), or of consume():
    # one, many in a row, one each round
    run = env.choice("errors", 4) if err_round < rounds else 0
    fails = run == 3
    err = None
    same = p.get("same") and env.flag("same")      # the same object again and again
    msgs = [[(i, 0 if same else k) for k in range(rounds)] for i in range(n)]
    if same:
        msgs = [[g[0]] * rounds for g in msgs]
    sent = [[] for _ in src]
    got = [[] for _ in src]
    leave = env.choice("leave at", p["leave"] + 1) if p.get("leave") else 0
    unhandled = p.get("unhandled") and env.flag("unhandled")
    count = 0

    async def loop():
        nonlocal count
        gen = env.ch.select(*src)
        async for sel in gen:
            last = unhandled and count + 1 == leave
            hits = ([owner(env, sel, src)] if last else
                    [i for i in range(n) if env.ch.selected_from(sel, src[i])])
            env.check(len(hits) == 1, "not selected from exactly one receiver")
            i = hits[0]
            exc = sel.exception
            env.check(sel.was_stopped is isinstance(exc, env.ch.ReceiverStoppedError),
                      "was_stopped is wrong")
            if sel.was_stopped:
                env.check(exc.receiver is src[i], "another receiver stopped")
                got[i].append("stop")
            else:
                got[i].append(exc if exc is not None else sel.message)
            count += 1
            if count == leave and not unhandled:
                break
        else:
            return "end"
        await gen.aclose()
        return "left"

    failed = False
    task = env.spawn(loop())
    for k in range(rounds):
        for i, s in enumerate(src):
            if (i == (stopper + 1) % n and not s.stopped
                    and (k == err_round or run == 2 and k > err_round)):
                for _ in range(p.get("run", 6) if run == 1 else 1):
                    err = source_error(env, "e")
                    s.push("rerr" if fails else "err", err)
                    if not fails:
                        sent[i].append(err)
                    else:
                        failed = True
            if not s.stopped:
                s.push("msg", msgs[i][k])
                sent[i].append(msgs[i][k])
        if k % 2:
            await env.settle()
        if k == stop_round:
            src[stopper].stop()
            sent[stopper].append("stop")
    await env.settle()
    if leave or failed:
        env.check(task.done(), "the loop was not left")
        out = env.outcome(task)
        if failed:
            env.check(out[0] == "err" and isinstance(out[1], env.ch.SelectError)
                      and not isinstance(out[1], env.ch.UnhandledSelectedError)
                      and out[1].__cause__ is err, "no SelectError caused by the error")
            env.cover("failed")
        elif unhandled:
            env.check(out[0] == "err" and isinstance(out[1], env.ch.UnhandledSelectedError),
                      "an unhandled item did not raise")
            unhandled = False
            env.cover("unhandled")
        else:
            env.check(out == ("ok", "left"), "the loop was not left")
        env.check(failed or count == leave, "too many items")
        own = [t for t in env.other_tasks() if t not in env.spawned]
        env.check(len(own) == 0, "tasks are left")
        env.cover("left")
        # a stop that was reported is reported again by the next select
        got = [[x for x in g if x != "stop"] for g in got]
        leave = 0
        task = env.spawn(loop())
        await env.settle()
    env.check(got == sent, "messages lost, duplicated, or out of order")
    env.check(not task.done() or n == 1, "the iteration ended too early")
    for i, s in enumerate(src):
        if not s.stopped:
            s.stop()
            sent[i].append("stop")
    await env.settle()
    env.check(got == sent, "a stop was not reported exactly once")
    env.check(task.done() and env.outcome(task) == ("ok", "end"), "the iteration does not end")
    own = [t for t in env.other_tasks() if t not in env.spawned]
    env.check(len(own) == 0, "tasks are left")
    env.cover("selected")


async def many_unhandled(env):
    """Many handled items, then one that is not handled."""
    p = env.p
    n = p["receivers"]
    env.set_perm(env.choice("order", 3))
    src = [fake_class(env)(f"s{i}") for i in range(n)]
    at = env.choice("at", p["items"] + n + 1)
    div = [1, p["items"]][env.choice("in turn", 2)]    # or always the first receiver
    how = env.choice("how", 3)
    kind = env.choice("kind", 3)        # the unhandled item: message, error or stop
    seen = []

    async def loop():
        async for sel in env.ch.select(*src):
            seen.append(sel)
            k = len(seen) - 1
            mine = src[owner(env, sel, src)]
            if k == at:
                if how == 1:
                    for s in src:
                        if s is not mine:
                            env.check(not env.ch.selected_from(sel, s), "another receiver")
                elif how == 2:
                    look(env, sel)
                continue
            for s in src:
                env.ch.selected_from(sel, s)

    task = env.spawn(loop())
    for k in range(p["items"]):
        s = src[k // div % n]
        if k == at and kind == 1:
            s.push("err", source_error(env, "e"))
        elif k == at and kind == 2:
            s.stop()
        else:
            s.push("msg", k)
        await env.settle()
        if task.done():
            break
        if s.stopped:
            break
    if not task.done():
        for s in src:
            s.stop()
        await env.settle()
    env.check(task.done(), "the iteration does not end")
    out = env.outcome(task)
    if len(seen) > at:
        env.check(out[0] == "err" and isinstance(out[1], env.ch.UnhandledSelectedError),
                  "an unhandled item did not raise")
        env.check(out[1].selected is seen[at] and len(seen) == at + 1, "the wrong item")
        env.cover("unhandled")
    else:
        env.check(out[0] == "ok", "a handled item raised")
        env.cover("handled")


# ---- timers --------------------------------------------------------------------------------
async def many_ticks(env):
    """Many ticks; the loop is busy before one or two of them, the consumer late at one."""
    p = env.p
    iv = p["intervals"]
    i = (env.int("interval", 1, p.get("max", SMALL)) if iv == "any"
         else iv[env.choice("interval", len(iv))])
    clock = env.make_clock("punctual", SMALL)
    spec = Spec(env, p["policy"], i)
    t = env.ns.timer
    timer = t.Timer(env.td(i), spec.policy)
    sched = clock.n + i
    n = p["ticks"]
    busy = {env.choice("busy at", n)}
    if p.get("twice"):
        busy.add(env.choice("busy again at", n))
    other = osched = None
    mode = p["modes"][env.choice("mode", len(p["modes"]))]
    if mode in ("shared", "same"):
        # another timer shares the policy, and possibly the interval
        i2 = i if mode == "same" else 3 * i + 1
        phase = 0 if mode == "shared" else i // 2 + 1 if iv != "any" else env.int(
            "phase", 0, SMALL)
        other = t.Timer(env.td(i2), spec.policy, start_delay=env.td(phase))
        ospec = Spec.__new__(Spec)
        ospec.__dict__.update(spec.__dict__, interval=i2)
        osched = clock.n + phase + i2
    reset_at = env.choice("reset at", n - 2) + 1 if mode == "reset" else 0
    way = env.choice("way", 2)
    for k in range(n):
        if reset_at and k == reset_at:
            clock.busy("before reset", p.get("busy", SMALL))
            timer.reset()
            sched = clock.n + i
        if k in busy:
            clock.busy(f"busy{k}", p.get("busy", SMALL))
            if p.get("busy_intervals"):
                env.assume(env.all([clock.n - sched < p["busy_intervals"] * i]))
        if way == 0:
            late = env.us(await timer.receive())
            now = clock.n
        else:
            env.check(await timer.ready() is True, "not ready")
            now = clock.n
            late = env.us(timer.consume())
        env.check(late >= 0, "a tick is early")
        env.check(late == now - sched, "wrong lateness, or the tick of another time")
        sched = spec.next(sched, now)
        if other is not None and k % 3 == 2:
            late = env.us(await other.receive())
            now = clock.n
            env.check(late == now - osched, "a timer sharing the policy ticks wrongly")
            osched = ospec.next(osched, now)
    env.cover("ticks")


async def restarts(env):
    """A cycle of operations on a timer, repeated."""
    p = env.p
    clock = env.make_clock("punctual", SMALL)
    i = env.int("interval", 1, 2**30)
    t = env.ns.timer
    timer = t.Timer(env.td(i), t.TriggerAllMissed(), auto_start=env.flag("auto"))
    sched = clock.n + i if timer.is_running else None
    state = "running" if timer.is_running else "new"
    ops = ["receive", "stop", "reset", "delayed", "late"]
    cyc = [ops[env.choice(f"cycle{k}", len(ops))] for k in range(p["cycle"])]
    for r in range(p["reps"]):
        for o in cyc:
            if o == "receive":
                if state == "new":
                    state, sched = "running", clock.n + i
                out = await env.guard(timer.receive())
                if state == "stopped":
                    env.check(out[0] == "err" and isinstance(
                        out[1], env.ch.ReceiverStoppedError), "a stopped timer ticks")
                    env.cover("stopped")
                else:
                    env.check(out[0] == "ok", "no tick")
                    env.check(env.us(out[1]) == clock.n - sched, "wrong lateness")
                    env.check(clock.n >= sched, "an early tick")
                    sched = sched + i
                    env.cover("tick")
            elif o == "stop":
                timer.stop()
                state = "stopped"
            elif o == "reset":
                timer.reset()
                state, sched = "running", clock.n + i
            elif o == "delayed":
                d = env.int(f"delay{r}", 0, 2**30)
                timer.reset(start_delay=env.td(d))
                state, sched = "running", clock.n + d + i
            else:
                clock.busy(f"busy{r}", 2**31)
            env.check(timer.is_running is (state == "running"), "is_running is wrong")
            if p.get("look"):
                look(env, timer, timer.missed_tick_policy)
    env.cover("end")


# ---- events and file watchers --------------------------------------------------------------
async def many_sets(env):
    p = env.p
    ev = env.ns.event.Event()
    ops = ["set", "wait", "take", "settle", "gone"]
    cyc = [ops[env.choice(f"cycle{k}", len(ops))] for k in range(p["cycle"])]
    is_set, task, got = False, None, 0

    async def receive():
        nonlocal is_set, got
        await ev.receive()
        env.check(is_set, "received although it was not set")
        is_set = False
        got += 1

    for _ in range(p["reps"]):
        for o in cyc:
            if task is not None and task.done():
                task = None
            if o == "set":
                ev.set()
                is_set = True
            elif o == "wait" and task is None:
                task = env.spawn(receive())
            elif o == "take" and task is None and is_set:
                env.check(await ev.ready() is True, "ready() is not True")
                env.check(ev.consume() is None, "not None")
                is_set = False
            elif o == "settle":
                await env.settle()
                env.check(task is None or task.done() or not is_set, "it was not woken")
            elif o == "gone" and task is not None:
                task.cancel()
                await env.settle()
            env.check(ev.is_set is is_set, "is_set is wrong")
    await env.settle()
    if task is not None and not task.done():
        env.check(not is_set, "it was not woken")
    ev.stop()
    await env.settle()
    env.check(task is None or task.done(), "it was not woken by the stop")
    out = await env.guard(ev.receive())
    env.check((out[0] == "ok") is is_set, "not received exactly once per set")
    out = await env.guard(ev.receive())
    env.check(out[0] == "err" and isinstance(out[1], env.ch.ReceiverStoppedError), "no stop")
    env.cover("end")
    env.log(got)


async def many_changes(env):
    """Big batches of changes, one after the other, read in a pattern."""
    p = env.p
    fw = env.ns.file_watcher
    env.set_perm(env.choice("order", 3))
    s = make(env, "file")
    n = p["size"]
    pace = [1, 4, 1000][env.choice("pace", 3)]
    way = env.choice("way", 2)
    k = 0

    async def take():
        if way == 0:
            return await s.recv.receive()
        async for e in s.recv:
            return e

    for b in range(p["batches"]):
        size = [1, n, n // 2][(b + pace) % 3]
        s.push_batch([(s.changes[(b + j) % 3], f"/w/{b % 2}/f{j}") for j in range(size)])
        await env.settle()
        left = pace if b < p["batches"] - 1 else 10**6
        while s.pending() and left:
            t = env.spawn(take())
            await env.settle()
            out = env.outcome(t)
            env.check(out[0] == "ok", "a receive waits or fails although there is a change")
            s.take("msg", out[1])
            left -= 1
            k += 1
    s.stop()
    await env.settle()
    for _ in range(2):
        out = await env.guard(s.recv.receive())
        env.check(out[0] == "err" and isinstance(out[1], env.ch.ReceiverStoppedError),
                  "no stop")
        s.check_stop_cause(out[1])
    env.cover("changes")
    env.log(k)


KINDS = ["anycast", "broadcast", "event", "fake", "file", "map:fake", "map:anycast",
         "merge:fake+fake", "merge:anycast+broadcast", "map:merge:map:fake+event"]
FILL = ("any limit in 1..10**6; {ends} senders and receivers, {msgs} messages, sent at once, "
        "one task per sender or per message or to waiting receivers, taken 1, 3 or 7 at a time")
CYCLE = ("any limit in 1..10**6; every cycle of {cycle} operations (send or receive by one of "
         "{ends} ends, cancel, run), repeated {reps} times")
CROWD = ("any limit of one receiver in 1..10**6, {crowd} other ones with or without waiting "
         "tasks, one or half of them dropped at some time; {msgs} messages, "
         "(except B03, B04) also the same one 3 or {msgs} times in a row")
OVERFLOW = ("{msgs} messages over a broadcast channel to a receiver of any limit{full}; some are "
            "received, more are sent, the rest is received")
FLOOD = "{msgs} messages of one sender, any limit in 1..10**6"


def endless(kinds, ways, covers=("stream",)):
    """The same stream, much longer."""
    return Harness("endless stream", stream, STREAM,
                   quick=dict(kinds=kinds, ways=ways, rounds=120, in_turn=True, patterns=[0, 2],
                              orders=1),
                   thorough=dict(kinds=kinds, ways=ways, rounds=500, in_turn=True,
                                 patterns=[0, 2]),
                   covers=list(covers), path_timeout=120.0)


STREAM = ("{rounds} rounds of 1 to 3 messages on one of {kinds}; received by receive, async for,"
          " ready and consume, or a select")
MERGED = ("{sources} sources with {rounds} messages each; one stops in any round, one fails from any "
          "round on: once, 6 times in a row, or in every round; 3 orders of the tasks that asyncio.wait returns")
SELECTED = ("{receivers} receivers with {rounds} messages each; one stops in any round, one fails from "
            "any round on: once, 6 times in a row, or in every round, or in ready(); 3 orders of "
            "the tasks that asyncio.wait returns")
TICKS = ("{ticks} ticks of an otherwise punctual loop that is busy for any time before one (or "
         "two) of them; intervals: {intervals}; sharing the policy with a timer of another or of "
         "the same interval, or reset once ({modes})")

HARNESSES = {
    "A01": [Harness("long cycle", cyclic, CYCLE,
                    quick=dict(ends=2, cycle=4, reps=4, cancel=True),
                    thorough=dict(ends=2, cycle=5, reps=6, cancel=True), covers=["cycle"]),
            Harness("long fill", fill, FILL + "; also the same one again and again",
                    quick=dict(ends=2, msgs=16, same=True),
                    thorough=dict(ends=3, msgs=48, same=True), covers=["filled"])],
    "A02": [Harness("long fill", fill, FILL, quick=dict(ends=3, msgs=24),
                    thorough=dict(ends=4, msgs=60), covers=["filled"])],
    "A03": [Harness("long fill", fill, FILL, quick=dict(ends=2, msgs=40),
                    thorough=dict(ends=4, msgs=80), covers=["filled"]),
            Harness("long cycle", cyclic, CYCLE,
                    quick=dict(ends=2, cycle=4, reps=4),
                    thorough=dict(ends=2, cycle=5, reps=6), covers=["cycle"])],
    "A04": [Harness("long cycle", cyclic, CYCLE,
                    quick=dict(ends=2, cycle=4, reps=4, cancel=True),
                    thorough=dict(ends=2, cycle=5, reps=5, cancel=True), covers=["cycle"])],
    "A05": [Harness("long fill", fill, FILL + "; closed before", quick=dict(
                    ends=4, msgs=24, close=True), thorough=dict(ends=4, msgs=60, close=True),
                    covers=["filled", "closed"])],
    "B01": [Harness("long crowd", crowd, CROWD, quick=dict(crowd=10, msgs=20, same=True),
                    thorough=dict(crowd=16, msgs=64, same=True), covers=["crowd"])],
    "B02": [Harness("long crowd", crowd, CROWD, quick=dict(crowd=2, msgs=56, same=True),
                    thorough=dict(crowd=3, msgs=120, same=True), covers=["crowd"])],
    "B03": [Harness("long crowd", crowd, CROWD, quick=dict(crowd=4, msgs=16, resend=True),
                    thorough=dict(crowd=6, msgs=40, resend=True), covers=["crowd"])],
    "B04": [Harness("long crowd", crowd, CROWD, quick=dict(
                    crowd=4, msgs=16, resend=True, close=True), thorough=dict(
                    crowd=6, msgs=40, resend=True, close=True), covers=["crowd"])],
    "R01": [Harness("long stream", stream, STREAM, quick=dict(kinds=KINDS, in_turn=True, rounds=8),
                    thorough=dict(kinds=KINDS, in_turn=True, rounds=20), covers=["stream"])],
    "R02": [Harness("long map", mapped,
                    "{msgs} messages, up to 3 functions; the function and the source fail "
                    "anywhere, once, twice or ever after", quick=dict(msgs=10, errtypes=5), thorough=dict(msgs=20, errtypes=5),
                    covers=["mapped"])],
    "R03": [Harness("long stream", stream, STREAM, quick=dict(kinds=KINDS, in_turn=True, rounds=10),
                    thorough=dict(kinds=KINDS, in_turn=True, rounds=20), covers=["stream"])],
    "R04": [Harness("long stream", stream, STREAM + "; with cancelled attempts",
                    quick=dict(kinds=KINDS, in_turn=True, rounds=8, cancel=True),
                    thorough=dict(kinds=KINDS, in_turn=True, rounds=20, cancel=True), covers=["stream"])],
    "M01": [Harness("long merge", many_merged, MERGED, quick=dict(sources=12, rounds=3, same=True),
                    thorough=dict(sources=20, rounds=8, same=True), covers=["merged"])],
    "M02": [Harness("long merge", many_merged, MERGED, quick=dict(
                    sources=5, rounds=4, stop=True), thorough=dict(
                    sources=10, rounds=8, stop=True), covers=["merged", "stopped"])],
    "M03": [Harness("long merge", many_merged, MERGED, quick=dict(
                    sources=5, rounds=4, errs=True, errtypes=5), thorough=dict(
                    sources=8, rounds=8, errs=True, errtypes=5), covers=["merged", "error"])],
    "S01": [Harness("long select", many_selected, SELECTED, quick=dict(receivers=12, rounds=3, same=True),
                    thorough=dict(receivers=20, rounds=8, same=True), covers=["selected"])],
    "S02": [Harness("long select", many_unhandled,
                    "{receivers} receivers, {items} items in turn or of one receiver, one of "
                    "them not handled: ignored, looked at, or compared with the others",
                    quick=dict(receivers=3, items=40), thorough=dict(receivers=8, items=80),
                    covers=["handled", "unhandled"])],
    "S03": [Harness("long select", many_selected,
                    SELECTED + "; left at item 1..{leave}, by break or an unhandled item, and "
                    "selected again", quick=dict(receivers=4, rounds=3, leave=8, unhandled=True),
                    thorough=dict(receivers=6, rounds=6, leave=20, unhandled=True),
                    covers=["selected", "left", "unhandled"])],
    "S04": [Harness("long select", many_selected, SELECTED, quick=dict(
                    receivers=4, rounds=4, errs=True, errtypes=5), thorough=dict(
                    receivers=8, rounds=8, errs=True, errtypes=5), covers=["selected", "failed"])],
    "T01": [Harness("long ticks", many_ticks, TICKS, quick=dict(
                    policy="all", intervals="any", ticks=7, busy_intervals=3,
                    modes=["shared", "same"]), thorough=dict(
                    policy="all", intervals="any", ticks=14, busy_intervals=4,
                    modes=["shared", "same", "reset"]), covers=["ticks"], timers=True,
                    path_timeout=120.0)],
    "T02": [Harness("long ticks", many_ticks, TICKS, quick=dict(
                    policy="resync", intervals=[1, 3, 999_983], ticks=6,
                    modes=["shared", "same", "reset"]), thorough=dict(
                    policy="resync", intervals=[1, 3, 999_983, 10**6], ticks=8, twice=True,
                    modes=["shared", "same", "reset"]), covers=["ticks"], timers=True,
                    path_timeout=120.0)],
    "T03": [Harness("long ticks", many_ticks, TICKS, quick=dict(
                    policy="drift", intervals="any", ticks=6, busy_intervals=4,
                    modes=["shared", "reset"]), thorough=dict(
                    policy="drift", intervals="any", ticks=9, twice=True,
                    modes=["shared", "same", "reset"], busy_intervals=4), covers=["ticks"],
                    timers=True, path_timeout=120.0)],
    "T05": [Harness("long restarts", restarts,
                    "every cycle of {cycle} operations (receive, stop, reset, reset with a delay,"
                    " time passes), repeated {reps} times; any interval and delays",
                    quick=dict(cycle=3, reps=4), thorough=dict(cycle=4, reps=5),
                    covers=["tick", "stopped", "end"], timers=True)],
    "E01": [Harness("long cycle", many_sets,
                    "every cycle of {cycle} operations, repeated {reps} times",
                    quick=dict(cycle=5, reps=5), thorough=dict(cycle=6, reps=8),
                    covers=["end"])],
    "F01": [Harness("long batches", many_changes,
                    "{batches} batches of up to {size} changes, in 3 iteration orders",
                    quick=dict(size=150, batches=4), thorough=dict(size=400, batches=12),
                    covers=["changes"])],
    "F02": [Harness("long batches", many_changes,
                    "{batches} batches of up to {size} changes before the end",
                    quick=dict(size=6, batches=9), thorough=dict(size=30, batches=20),
                    covers=["changes"])],
}

_FLOOD = Harness("flood", flood, FLOOD, quick=dict(msgs=300), thorough=dict(msgs=1500),
                 covers=["flood"], path_timeout=120.0)
for _id in ("A01", "A02", "A03"):
    HARNESSES[_id].append(_FLOOD)
HARNESSES["B01"].append(Harness(
    "overflow", overflow, OVERFLOW, quick=dict(msgs=300, full=" that is not exceeded"),
    thorough=dict(msgs=2000, full=" that is not exceeded"), covers=["overflow"],
    path_timeout=120.0))
HARNESSES["B02"].append(Harness(
    "overflow", overflow, OVERFLOW, quick=dict(msgs=300, full=""),
    thorough=dict(msgs=1500, full=""), covers=["overflow"], path_timeout=120.0))
HARNESSES["R01"].append(endless(KINDS, [2]))
HARNESSES["R03"].append(endless(KINDS, [0, 1]))
HARNESSES["R02"].append(endless([k for k in KINDS if k.startswith("map:")], [0, 1, 2]))
HARNESSES["M01"].append(endless([k for k in KINDS if "merge:" in k], [0, 1, 2]))
HARNESSES["S01"].append(endless(KINDS, [3]))
HARNESSES["E01"].append(endless(["event"], [0, 1, 2, 3]))
HARNESSES["F01"].append(endless(["file"], [0, 1, 2, 3]))
