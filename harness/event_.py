"""The event receiver."""
import asyncio

from symx.harness_loader import Harness

from ._fake import fake_class


async def e01(env):
    """set, stop, ready/consume, receive, async for and cancellations in any order."""
    p = env.p
    name = [None, "e"][env.choice("name", 2)]
    ev = env.ns.event.Event(name=name)
    env.check(name is None or ev.name == name, "wrong name")
    is_set = stopped = False          # the specification
    task, op, cancelled, ncancel = None, None, False, 0
    ready = None                      # result of a ready() not followed by a consume

    def state():
        env.check(ev.is_set is is_set, "is_set is wrong")
        env.check(ev.is_stopped is stopped, "is_stopped is wrong")

    async def do_receive():
        nonlocal is_set
        v = await ev.receive()
        env.check(is_set, "received although it was not set")
        is_set = False
        env.check(v is None, "an event receives something else than None")
        return "got"

    async def do_for():
        nonlocal is_set
        async for v in ev:
            env.check(is_set, "received although it was not set")
            is_set = False
            env.check(v is None, "an event receives something else than None")
            return "got"
        return "end"

    def collect():
        nonlocal task, ready
        state()
        if task is None or not task.done():
            return
        out = env.outcome(task)
        task = None
        if out[0] == "cancelled":
            env.check(cancelled, "a cancellation appeared")
            return
        if op == "ready":
            env.check(out[0] == "ok", "ready() raised")
            env.check(out[1] is (is_set or not stopped), "ready() returned the wrong value")
            env.check(is_set or stopped, "ready() returned although nothing happened")
            ready = out[1]
            return
        if out[0] == "err":
            env.check(isinstance(out[1], env.ch.ReceiverStoppedError), "unexpected error")
            env.check(out[1].receiver is ev, "the stop names another receiver")
            env.check(op == "receive", "async for raised")
        if out[0] == "err" or out[1] == "end":
            env.check(stopped and not is_set, "stopped too early")
            env.cover("stopped")
        else:
            env.cover("received")
            if stopped:
                env.cover("received after stop")

    for k in range(p["steps"]):
        collect()
        opts = ["stop"] if stopped else ["set", "stop"]
        if env.loop._ready:
            opts.append("tick")
        if task is None:
            opts += ["ready", "receive", "for"]
            if ready is not None:
                opts.append("consume")
        elif ncancel < p["cancels"]:
            opts.append("cancel")
        o = opts[env.choice(f"op{k}", len(opts))]
        if o == "set":
            if is_set:
                env.cover("set twice")
            ev.set()
            is_set = True
        elif o == "stop":
            ev.stop()
            stopped = True
        elif o == "tick":
            await asyncio.sleep(0)
        elif o == "cancel":
            ncancel += 1
            cancelled = True
            task.cancel()
        elif o == "consume":
            r, ready = ready, None
            try:
                v = ev.consume()
            except env.ch.ReceiverStoppedError as e:
                env.check(stopped and not is_set, "consume() reports a stop too early")
                env.check(e.receiver is ev, "the stop names another receiver")
            else:
                env.check(r is True or is_set, "consume() yields after ready() was False")
                env.check(is_set, "consumed although it was not set")
                env.check(v is None, "an event yields something else than None")
                is_set = False
        else:
            op, cancelled, ready = o, False, None
            task = env.spawn({"ready": ev.ready, "receive": do_receive, "for": do_for}[o]())
    await env.settle()
    collect()
    if task is not None:
        env.check(not is_set and not stopped, "it waits although it was set or stopped")
        env.cover("waiting")
        how = env.choice("wake", 2)
        if how == 0:
            ev.set()
            is_set = True
        else:
            ev.stop()
            stopped = True
        await env.settle()
        env.check(task.done(), "a waiting receive is not woken")
        collect()
    env.log(is_set, stopped)
    # whatever is left is received once, and then the stop
    if not stopped:
        ev.stop()
        stopped = True
    for _ in range(3):
        op = "receive"
        was = is_set
        task = env.spawn(do_receive())
        await env.settle()
        env.check(task.done(), "a receive waits although it was stopped")
        env.check((env.outcome(task)[0] == "ok") == was, "not received exactly once per set")
        collect()


async def e01_select(env):
    """In a select: every set that was consumed, then the stop, each exactly once."""
    p = env.p
    ev = env.ns.event.Event()
    other = fake_class(env)("other")
    got = []
    owed = 0          # sets not consumed yet (0 or 1)
    stopped = False

    async def loop():
        nonlocal owed
        async for sel in env.ch.select(ev, other):
            if env.ch.selected_from(sel, ev):
                if sel.was_stopped:
                    got.append("stop")
                else:
                    env.check(sel.message is None, "wrong message")
                    env.check(owed == 1, "selected although it was not set")
                    owed = 0
                    got.append("set")
            elif env.ch.selected_from(sel, other):
                pass
            await env.gap(f"body{len(got)}", p["gap"])

    task = env.spawn(loop())
    for k in range(p["steps"]):
        opts = (["stop"] if stopped else ["set", "stop"]) + ["other"] + (["tick", "settle"] if env.loop._ready else [])
        o = opts[env.choice(f"op{k}", len(opts))]
        if o == "set":
            owed = 1
            ev.set()
        elif o == "stop":
            stopped = True
            ev.stop()
        elif o == "other":
            other.push("msg", k)
        elif o == "settle":
            await env.settle()
        else:
            await asyncio.sleep(0)
    await env.settle()
    env.check(owed == 0, "an event was not selected")
    env.check(got.count("stop") == int(stopped), "the stop was not reported exactly once")
    env.check(not stopped or got[-1] == "stop", "an event after the stop")
    other.stop()
    if not stopped:
        ev.stop()
    await env.settle()
    env.check(task.done() and env.outcome(task)[0] == "ok", "the select does not end")
    env.check(got.count("stop") == 1, "the stop was not reported exactly once")
    env.cover("end")
    env.log(got)


async def e01_waiters(env):
    """Several tasks wait for one event: a set or stop wakes all of them."""
    p = env.p
    ev = env.ns.event.Event()
    waits = []
    is_set = stopped = False
    ncancel = nset = 0
    for k in range(p["steps"]):
        opts = ["set", "stop"] if not stopped else []
        if len(waits) < p["waits"]:
            opts.append("wait")
        if is_set and all(w[0].done() for w in waits):
            opts.append("consume")
        if env.loop._ready:
            opts.append("tick")
        if ncancel < p["cancels"]:
            opts += [w for w in waits if not w[0].done() and not w[1]]
        if not opts:
            break
        o = opts[env.choice(f"op{k}", len(opts))]
        if o == "set":
            is_set = True
            nset += 1
            ev.set()
        elif o == "stop":
            stopped = True
            ev.stop()
        elif o == "wait":
            waits.append([env.spawn(ev.ready()), False])
        elif o == "consume":
            is_set = False
            env.check(await ev.ready() is True, "ready() is not True")
            ev.consume()
        elif o == "tick":
            await asyncio.sleep(0)
        else:
            ncancel += 1
            o[1] = True
            o[0].cancel()
    await env.settle()
    if not is_set and not stopped:
        for t, c in waits:
            env.check(t.done() is c or nset > 0, "ready() returned although nothing happened")
        stopped = env.flag("wake")
        if stopped:
            ev.stop()
        else:
            ev.set()
        await env.settle()
        env.cover("waiting")
    for t, c in waits:
        out = env.outcome(t)
        env.check(out[0] != "pending", "a waiting task was not woken")
        if out[0] == "cancelled":
            env.check(c, "a cancellation appeared")
            continue
        env.expect(out, "ok", "ready()")
        env.check(out[1] is True or stopped, "ready() returned the wrong value")
        if nset == 0 and stopped:
            env.check(out[1] is False, "ready() returned the wrong value")
    env.cover("end")


HARNESSES = {
    "E01": [Harness(
        "waiters", e01_waiters,
        "one event, {waits} tasks waiting in ready(), {cancels} cancellations; set, stop, "
        "consume in any order, {steps} steps, then a set or stop",
        quick=dict(steps=7, waits=3, cancels=1), thorough=dict(steps=9, waits=4, cancels=2),
        covers=["waiting", "end"]),
        Harness(
        "history", e01,
        "one event; set, stop, ready, consume, receive, async for, cancel in any order, "
        "{steps} steps, then a set or stop while somebody waits",
        quick=dict(steps=7, cancels=1), thorough=dict(steps=8, cancels=2),
        covers=["received", "stopped", "received after stop", "set twice", "waiting"]),
        Harness(
        "select", e01_select,
        "an event and another receiver in a select; {steps} steps, loop body of up to {gap} "
        "loop iterations",
        quick=dict(steps=4, gap=1), thorough=dict(steps=7, gap=2), covers=["end"])],
}
