"""The receiver protocol, on every kind of receiver."""
import asyncio

from symx.harness_loader import Harness

from ._fake import SourceError, fake_class, source_error
from ._sources import FileSource, make


def pick(env):
    """The kind of receiver is an input."""
    kinds = env.p["kinds"]
    return kinds[env.choice("kind", len(kinds))]


async def r01(env):
    """ready() and consume() in any order the protocol allows."""
    p = env.p
    kind = pick(env)
    s = make(env, kind)
    other = None
    if kind == "anycast" and p.get("steal"):
        other = s.chan.new_receiver()
    stolen, nsteal = [], 0
    task = None          # outstanding call of ready()
    known = None         # what the last ready() since the last consume() returned
    ncalls = 0

    def reconcile():
        for t in stolen:
            out = env.outcome(t)
            if out[0] == "ok":
                env.cover("stolen")
                i = [j for j, g in enumerate(s.groups) if g and g[0][1] is out[1]]
                env.check(len(i) == 1, "another receiver got a message twice")
                del s.groups[i[0]]
                stolen.remove(t)
                return

    def collect():
        nonlocal task, known
        reconcile()
        if task is None or not task.done():
            return
        out = env.outcome(task)
        task = None
        env.check(out[0] == "ok", f"ready() did not return normally: {out[0]}")
        if known is not None:
            env.check(out[1] is known, "ready() changed its mind without a consume()")
            env.cover("ready again")
        env.check(out[1] is True or out[1] is False, "ready() does not return a bool")
        if out[1] is False:
            env.check(s.stopped, "ready() returns False for an active receiver")
        known = out[1]

    def consume():
        nonlocal known
        try:
            v = s.recv.consume()
        except env.ch.ReceiverStoppedError as exc:
            env.check(known is False, "consume() reports a stop after ready() was True")
            env.check(not s.pending(), "consume() reports a stop before all was delivered")
            s.check_stop_cause(exc)
            env.cover("stop")
        except SourceError as exc:
            env.check(known is True, "consume() raises after ready() was False")
            s.take("err", exc)
            env.cover("error")
        else:
            env.check(known is True, "consume() yields after ready() was False")
            s.take("msg", v)
            env.cover("message")
        known = None

    for k in range(p["steps"]):
        collect()
        opts = []
        if env.loop._ready:
            opts += ["settle"]
            if p.get("ticks"):
                opts += ["tick"]
        if not s.stopped:
            if s.npush < p["msgs"]:
                opts.append("push")
                if s.can_err and p.get("errs", True):
                    opts.append("error")
            opts.append("stop")
        if task is None and ncalls < p["calls"]:
            opts.append("ready")
        if task is None and known is not None:
            opts.append("consume")
        if other is not None and s.pending() and nsteal == 0:
            opts.append("steal")
        if not opts:
            break
        o = opts[env.choice(f"op{k}", len(opts))]
        if o == "tick":
            await asyncio.sleep(0)
        elif o == "settle":
            await env.settle()
            collect()
            if task is not None:
                env.check(not s.pending(), "ready() waits although a message is there")
                env.check(not s.stopped, "ready() waits although the receiver stopped")
        elif o == "push":
            s.push()
        elif o == "error":
            s.error()
        elif o == "stop":
            s.stop()
        elif o == "ready":
            ncalls += 1
            task = env.spawn(s.recv.ready())
        elif o == "consume":
            consume()
        elif o == "steal":
            nsteal = 1
            stolen.append(env.spawn(other.receive()))
    await env.settle()
    collect()
    for t in stolen:
        t.cancel()
    await env.settle()
    if task is not None:
        env.check(not s.pending() and not s.stopped, "ready() waits for nothing")
        env.cover("ready waits")
        task.cancel()
        await env.settle()
        task = None
        if kind == "file":
            return
    if known is not None:
        consume()
    # whatever happened, the rest is there
    n = 0
    while s.pending():
        n += 1
        task = env.spawn(s.recv.ready())
        await env.settle()
        collect()
        env.check(task is None, "ready() waits although a message is there")
        consume()
        env.check(n < 20, "the messages do not end")
    if not s.stopped:
        s.stop()
        await env.settle()
    n = 0
    while n < 2:
        task = env.spawn(s.recv.ready())
        await env.settle()
        collect()
        env.check(task is None, "ready() waits although the receiver stopped")
        if known and s.noptional():
            consume()
            continue
        n += 1
        env.check(known is False, "ready() is True for a stopped receiver without messages")
        consume()


# ---- R02 ---------------------------------------------------------------------------------
async def r02(env):
    p = env.p
    kind = pick(env)
    inner = make(env, kind)
    calls = []          # what f was called with, in order
    results = []        # ("ok", value) | ("err", error): of each call
    depth2 = []

    def f(m):
        calls.append(m)
        k = len(calls)
        if env.flag(f"ferr{k}"):
            e = source_error(env, f"f{k}")
            results.append(("err", e))
            raise e
        w = env.msg(f"w{k}")
        results.append(("ok", w))
        return w

    recv = inner.recv.map(f)
    two = p.get("twice") and env.flag("two")
    if two:
        def g(m):
            depth2.append(m)
            return (m,)
        recv = recv.map(g)
    got = []
    task = None

    def taken():
        return sum(1 for _k, _v in got)

    async def one():
        return await recv.receive()

    def collect():
        nonlocal task
        if task is None or not task.done():
            return
        out = env.outcome(task)
        task = None
        if out[0] == "cancelled":
            env.cover("cancelled")
            return
        if out[0] == "err" and isinstance(out[1], env.ch.ReceiverStoppedError):
            env.check(inner.stopped and not inner.pending(), "stopped too early")
            env.check(out[1].receiver is recv, "the stop names another receiver")
            inner.check_stop_cause(out[1])
            env.cover("stop")
            return
        n = len(got)
        if out[0] == "err" and any(it[0] == "err" and it[1] is out[1]
                                    for it in inner.front()):
            inner.take("err", out[1])
            env.cover("source error")
            return
        env.check(len(calls) == n + 1 and len(results) == n + 1,
                  "the function was not called exactly once per message")
        inner.take("msg", calls[n])
        kind_, v = results[n]
        env.check(kind_ == out[0], "an error of the function got lost, or appeared")
        if out[0] == "ok" and two:
            env.check(len(depth2) > 0 and depth2[-1] is v, "the second function got wrong input")
            env.check(type(out[1]) is tuple and out[1][0] is v, "wrong result")
        else:
            env.check(out[1] is v, "wrong result")
        if out[0] == "err":
            env.cover("function error")
        got.append(out)

    for k in range(p["steps"]):
        collect()
        opts = []
        if env.loop._ready:
            opts += ["settle", "tick"] if p.get("ticks") else ["settle"]
        if not inner.stopped:
            if inner.npush < p["msgs"]:
                opts.append("push")
                if inner.can_err:
                    opts.append("error")
            opts.append("stop")
        if task is None:
            opts += ["receive", "ready"]
        else:
            opts.append("cancel")
        o = opts[env.choice(f"op{k}", len(opts))]
        if o == "tick":
            await asyncio.sleep(0)
        elif o == "settle":
            await env.settle()
        elif o == "push":
            inner.push()
        elif o == "error":
            inner.error()
        elif o == "stop":
            inner.stop()
        elif o == "receive":
            task = env.spawn(one())
        elif o == "ready":
            # ready() alone never calls the function
            n = len(calls)
            t = env.spawn(recv.ready())
            await env.settle()
            env.check(len(calls) == n, "ready() called the function")
            if not t.done():
                t.cancel()
                await env.settle()
            else:
                env.check(env.outcome(t)[0] == "ok", "ready() raised")
        elif o == "cancel":
            task.cancel()
    await env.settle()
    collect()
    if task is not None:
        env.check(not inner.pending() and not inner.stopped, "the receiver waits")
        task.cancel()
        await env.settle()
        collect()
    n = 0
    while inner.pending():
        n += 1
        task = env.spawn(one())
        await env.settle()
        env.check(task.done(), "the receiver waits")
        collect()
        env.check(n < 20, "the messages do not end")
    if not inner.stopped:
        inner.stop()
    while True:
        task = env.spawn(one())
        await env.settle()
        env.check(task.done(), "the receiver does not stop")
        out = env.outcome(task)
        n = len(got)
        if out[0] == "ok" and inner.noptional() or any(out[1] is v for k, v in results):
            collect()
            continue
        break
    env.check(out[0] == "err" and isinstance(out[1], env.ch.ReceiverStoppedError),
              "the receiver does not stop")
    collect()
    env.check(len(calls) == len(got), "the function was not called once per message")
    env.check(not two or len(depth2) == sum(1 for k, _v in got if k == "ok"),
              "the second function was not called once per message")


# ---- R03 ---------------------------------------------------------------------------------
async def r03(env):
    p = env.p
    kind = pick(env)
    s = make(env, kind)
    if kind == "file" and env.flag("watcher fails"):
        s.fail_with = SourceError("watcher")
    task, mode, stops = None, None, 0

    async def by_for():
        async for m in s.recv:
            return ("msg", m)
        return ("end", None)

    async def by_receive():
        return ("msg", await s.recv.receive())

    def collect():
        nonlocal task, stops
        if task is None or not task.done():
            return
        out = env.outcome(task)
        task = None
        env.check(out[0] != "cancelled", "a receive was cancelled by nobody")
        if out[0] == "err" and isinstance(out[1], env.ch.ReceiverStoppedError):
            env.check(mode == "receive", "async for ends with an error when stopped")
            env.check(s.stopped, "stopped although the source is not")
            env.check(not s.pending(), "stopped before all was delivered")
            env.check(out[1].receiver is s.recv, "the stop names another receiver")
            s.check_stop_cause(out[1])
            stops += 1
            env.cover("receive stopped")
        elif out[0] == "err":
            env.check(stops == 0, "a stopped receiver does not stay stopped")
            env.check(isinstance(out[1], SourceError), "unexpected error")
            s.take("err", out[1])
            env.cover("error by " + mode)
        elif out[1][0] == "end":
            env.check(s.stopped, "async for ended although the source is not stopped")
            env.check(not s.pending(), "async for ended before all was delivered")
            stops += 1
            env.cover("async for ended")
        else:
            env.check(stops == 0, "a stopped receiver does not stay stopped")
            s.take("msg", out[1][1])

    for k in range(p["steps"]):
        collect()
        opts = []
        if env.loop._ready:
            opts += ["settle", "tick"] if p.get("ticks") else ["settle"]
        if not s.stopped:
            if s.npush < p["msgs"]:
                opts.append("push")
                if s.can_err:
                    opts.append("error")
            opts.append("stop")
        if task is None:
            opts += ["receive", "for"]
        o = opts[env.choice(f"op{k}", len(opts))]
        if o == "tick":
            await asyncio.sleep(0)
        elif o == "settle":
            await env.settle()
        elif o == "push":
            s.push()
        elif o == "error":
            s.error()
        elif o == "stop":
            s.stop()
        else:
            mode = o
            task = env.spawn(by_for() if o == "for" else by_receive())
    await env.settle()
    collect()
    if task is not None:
        env.check(not s.pending() and not s.stopped, "a receive waits for nothing")
        s.stop()
        await env.settle()
        env.check(task.done(), "a waiting receive is not woken by the stop")
        collect()
    if not s.stopped:
        s.stop()
    n = 0
    while stops < 3:
        n += 1
        env.check(n < 20, "the receiver does not stop")
        mode = ["receive", "for"][(n + env.choice("tail", 2)) % 2] if n == 1 else (
            "for" if mode == "receive" else "receive")
        task = env.spawn(by_for() if mode == "for" else by_receive())
        await env.settle()
        env.check(task.done(), "a receive waits although the receiver stopped")
        collect()


# ---- R04 ---------------------------------------------------------------------------------
FILE_FINDING = "a file watcher ends when a waiting ready() is cancelled"


async def r04(env):
    """Any waiting operation is cancelled at any moment; then everything is still there."""
    p = env.p
    kind = pick(env)
    s = make(env, kind)
    task, op = None, None
    ncancel = nops = 0
    waited_cancel = False

    def take(v, exc=None):
        if exc is not None:
            s.take("err", exc)
        else:
            s.take("msg", v)

    async def do_receive():
        while True:
            try:
                v = await s.recv.receive()
            except SourceError as e:
                take(None, e)
            else:
                take(v)

    async def do_ready():
        await s.recv.ready()

    async def do_for():
        while True:
            try:
                async for v in s.recv:
                    take(v)
                return
            except SourceError as e:
                take(None, e)

    async def do_select():
        quiet = fake_class(env)("quiet")
        sel = env.ch.select(s.recv, quiet)
        try:
            async for x in sel:
                env.check(env.ch.selected_from(x, s.recv), "selected from another receiver")
                if x.was_stopped:
                    return
                take(None, x.exception) if x.exception is not None else take(x.message)
        finally:
            await sel.aclose()

    runs = {"receive": do_receive, "ready": do_ready, "for": do_for, "select": do_select}

    def collect():
        nonlocal task
        if task is None or not task.done():
            return
        out = env.outcome(task)
        task = None
        if out[0] == "err":
            if kind == "file" and waited_cancel and not s.stopped and s.aw.ended:
                env.finding(FILE_FINDING)
            env.check(isinstance(out[1], env.ch.ReceiverStoppedError) and s.stopped
                      and not s.pending(), f"unexpected {out[1]!r}")
        elif out[0] == "ok" and op in ("for", "select"):
            if kind == "file" and waited_cancel and not s.stopped and s.aw.ended:
                env.finding(FILE_FINDING)
            env.check(s.stopped and not s.pending(), "the iteration ended too early")
        elif out[0] == "cancelled":
            env.check(ncancel > 0, "a cancellation appeared")
            env.cover("cancelled " + op)

    for k in range(p["steps"]):
        collect()
        opts = []
        if env.loop._ready:
            opts += ["tick"]
        if not s.stopped:
            if s.npush < p["msgs"]:
                opts.append("push")
                if s.can_err and p.get("errs"):
                    opts.append("error")
            if p.get("stop"):
                opts.append("stop")
        if task is None and nops < p["ops"]:
            opts += list(runs)
        elif task is not None and ncancel < p["cancels"]:
            opts.append("cancel")
        if not opts:
            break
        o = opts[env.choice(f"op{k}", len(opts))]
        if o == "tick":
            await asyncio.sleep(0)
        elif o == "push":
            s.push()
        elif o == "error":
            s.error()
        elif o == "stop":
            s.stop()
        elif o == "cancel":
            ncancel += 1
            waited_cancel = True
            task.cancel()
        else:
            op = o
            nops += 1
            task = env.spawn(runs[o]())
    await env.settle()
    collect()
    if task is not None:
        ncancel += 1
        waited_cancel = True
        task.cancel()
        await env.settle()
        env.check(task is None or task.done(), "a cancelled operation does not end")
        collect()
    # everything that was not delivered is still there
    op = "receive"
    if not s.stopped:
        task = env.spawn(do_receive())
        await env.settle()
        collect()
        env.check(not s.pending(), "a message got lost")
        s.stop()
        await env.settle()
        env.check(task is None or task.done(), "a receive waits although the source stopped")
        collect()
    else:
        task = env.spawn(do_receive())
        await env.settle()
        collect()
        env.check(task is None, "a receive waits although the source stopped")
        env.check(not s.pending(), "a message got lost")


async def r04_send(env):
    """Cancelled sends on an anycast channel."""
    p = env.p
    limit = env.int("limit", 1, p["maxlimit"])
    chan = env.ch.Anycast(name="c", limit=limit)
    snd = [chan.new_sender() for _ in range(2)]
    recv = [chan.new_receiver() for _ in range(p["receivers"])]
    sends, got, waits = [], [], {}

    async def receiver(i):
        got.append(await recv[i].receive())

    ncancel = 0
    for k in range(p["steps"]):
        opts = []
        if env.loop._ready:
            opts.append(("tick",))
        if len(sends) < p["msgs"]:
            opts.append(("send",))
        for i in range(len(recv)):
            if (i not in waits or waits[i].done()) and len(got) < p["msgs"]:
                if i == 0 or 0 in waits:
                    opts.append(("recv", i))
        if ncancel < p["cancels"]:
            opts += [("cancel", t) for t, _m in sends if not t.done()]
            opts += [("cancel", t) for t in waits.values() if not t.done()]
        if not opts:
            break
        o = opts[env.choice(f"op{k}", len(opts))]
        if o[0] == "tick":
            await asyncio.sleep(0)
        elif o[0] == "send":
            m = env.msg(f"m{len(sends)}")
            sends.append((env.spawn(snd[len(sends) % 2].send(m)), m))
        elif o[0] == "recv":
            waits[o[1]] = env.spawn(receiver(o[1]))
        else:
            ncancel += 1
            o[1].cancel()
    await env.settle()
    for t in waits.values():
        env.check(env.outcome(t)[0] in ("ok", "pending", "cancelled"), "a receive failed")
    for _ in range(p["msgs"] + 1):
        for i, r in enumerate(recv):
            if i not in waits or waits[i].done():
                waits[i] = env.spawn(receiver(i))
        await env.settle()
    for t, m in sends:
        out = env.outcome(t)
        n = sum(1 for g in got if g is m)
        env.check(n <= 1, "a message was delivered twice")
        if n == 0:
            env.check(out[0] == "cancelled",
                      "a message was not delivered, and its send does not say so")
            env.cover("cancelled send")
        else:
            env.check(out[0] in ("ok", "cancelled"), "a send failed")
    env.check(all(any(g is m for _t, m in sends) for g in got), "an unknown message")


ALL = ["anycast", "broadcast", "event", "fake", "file", "map:fake", "map:anycast",
       "merge:fake+fake", "merge:anycast+broadcast"]

TIMERS = ["timer", "map:timer", "merge:timer+fake"]

HARNESSES = {
    "R01": [Harness(
        "protocol", r01,
        "one receiver of each kind ({kinds}); up to {msgs} messages or errors, {calls} calls "
        "of ready(), {steps} steps in any order",
        quick=dict(kinds=ALL, msgs=2, calls=4, steps=7, steal=True, ferr=True),
        thorough=dict(kinds=ALL + ["map:broadcast", "map:event", "map:file",
                                   "merge:fake+event", "map:merge:fake+fake"],
                      msgs=3, calls=4, steps=8, steal=True, ticks=True, ferr=True),
        covers=["message", "stop", "error", "ready again", "ready waits", "stolen"]),
        Harness(
        "timers", r01,
        "ditto for {kinds}, with a timer of any start time and lateness",
        quick=dict(kinds=TIMERS, msgs=2, calls=3, steps=6),
        thorough=dict(kinds=TIMERS + ["map:merge:timer+fake"], msgs=3, calls=4, steps=8, ticks=True),
        covers=["message", "stop", "ready again", "ready waits"], timers=True)],
    "R02": [Harness(
        "map", r02,
        "map() of {kinds} (once or twice); up to {msgs} messages or errors, {steps} steps",
        quick=dict(kinds=["fake", "anycast", "broadcast"], msgs=2, steps=6, twice=True),
        thorough=dict(kinds=["fake", "anycast", "broadcast", "merge:fake+fake"], msgs=3,
                      steps=7, twice=True, ticks=True),
        covers=["stop", "function error", "source error", "cancelled"]),
        Harness(
        "timers", r02,
        "ditto for {kinds}, with a timer of any start time and lateness",
        quick=dict(kinds=TIMERS, msgs=2, steps=5),
        thorough=dict(kinds=TIMERS + ["map:merge:timer+fake"], msgs=3, steps=7, ticks=True),
        covers=["stop", "function error"], timers=True)],
    "R03": [Harness(
        "receive", r03,
        "one receiver of each kind ({kinds}); up to {msgs} messages or errors, {steps} "
        "steps; each receive by receive() or by async for",
        quick=dict(kinds=ALL, msgs=2, steps=6, ferr=True),
        thorough=dict(kinds=ALL + ["map:broadcast", "map:event", "map:file",
                                   "merge:fake+event", "map:merge:fake+fake"],
                      msgs=3, steps=7, ticks=True, ferr=True),
        covers=["receive stopped", "async for ended", "error by receive", "error by for"]),
        Harness(
        "timers", r03,
        "ditto for {kinds}, with a timer of any start time and lateness",
        quick=dict(kinds=TIMERS, msgs=2, steps=6),
        thorough=dict(kinds=TIMERS + ["map:merge:timer+fake"], msgs=3, steps=7, ticks=True),
        covers=["receive stopped", "async for ended"], timers=True)],
    "R04": [Harness(
        "receive", r04,
        "one receiver of each kind ({kinds}); receive(), ready(), async for and select "
        "cancelled at any moment; up to {msgs} messages, {ops} operations, {steps} steps",
        quick=dict(kinds=ALL, msgs=2, ops=2, cancels=1, steps=6),
        thorough=dict(kinds=ALL + ["map:merge:fake+fake"], msgs=3, ops=2, cancels=2, steps=8,
                      errs=True, stop=True),
        covers=["cancelled receive", "cancelled ready", "cancelled for",
                "cancelled select"]),
        Harness(
        "send", r04_send,
        "anycast, any limit in 1..{maxlimit}; 2 senders, {receivers} receivers, {msgs} "
        "messages, {cancels} cancellations, {steps} steps",
        quick=dict(maxlimit=10**6, receivers=2, msgs=3, cancels=2, steps=7),
        thorough=dict(maxlimit=10**6, receivers=2, msgs=4, cancels=3, steps=10),
        covers=["cancelled send"]),
        Harness(
        "timers", r04,
        "ditto for {kinds}, with a timer of any start time and lateness",
        quick=dict(kinds=TIMERS, msgs=2, ops=2, cancels=1, steps=6),
        thorough=dict(kinds=TIMERS + ["map:merge:timer+fake"], msgs=3, ops=2, cancels=2, steps=8, stop=True),
        covers=["cancelled receive", "cancelled ready", "cancelled for", "cancelled select"], timers=True)],
}
