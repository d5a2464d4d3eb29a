"""The file watcher, over a model of watchfiles.awatch (everything but the file system)."""
import asyncio
import gc
import pathlib

from symx.harness_loader import Harness

from ._fake import SourceError, fake_class
from ._sources import ODD, FileSource


async def one(env, s, how):
    """One message: ("ok", event) | ("end",) | outcome of a failed receive."""
    if how == 0:
        return await env.guard(s.recv.receive())
    if how == 1:
        async for e in s.recv:
            return ("ok", e)
        return ("end",)
    try:
        r = await s.recv.ready()
        e = s.recv.consume()
    except Exception as exc:  # pylint: disable=broad-except
        return ("err", exc)
    env.check(r is True, "ready() was False, but there was a message")
    return ("ok", e)


SUBSETS = [None] + [[i for i in range(3) if m >> i & 1] for m in range(8)]
PATHSETS = [["/w"], ["/w/a", pathlib.Path("/w/sub"), "relative/x"],
            [pathlib.Path("/p"), pathlib.Path("/p")]]


async def f01(env):
    """Batches of any size and content, consumed in any way, types selected or not."""
    p = env.p
    fw = env.ns.file_watcher
    types = [fw.EventType.CREATE, fw.EventType.MODIFY, fw.EventType.DELETE]
    subsets = p.get("subsets", SUBSETS)
    sub = subsets[env.choice("types", len(subsets))]
    if sub is None:
        chosen = None
    else:
        chosen = [types[i] for i in sub]
        if len(subsets) > 3 and env.flag("as iterator"):
            chosen_arg = iter(chosen)
        else:
            chosen_arg = chosen
    paths = PATHSETS[env.choice("paths", len(PATHSETS))] if p.get("paths") else ["/w"]
    s = FileSource.__new__(FileSource)
    FileSource.setup(s, env, "s", paths, chosen, None if sub is None else chosen_arg,
                     sizes=p["sizes"])
    s.free_types = p.get("free", True)
    s.same_path = p.get("same_path", False)
    if p.get("odd") and env.flag("odd"):
        s.names = ODD[env.choice("names", len(ODD))]
    wait = env.spawn(one(env, s, env.choice("how", 3)))
    await env.settle()
    env.check(not wait.done(), "a message before any change")
    env.check(len(s.aw.calls) == 1, "not exactly one underlying watcher")
    env.check([pathlib.Path(x) for x in s.aw.calls[0][0]] == [pathlib.Path(x) for x in paths],
              "does not watch exactly the given paths")
    env.check(s.aw.calls[0][1] is not None, "the watcher cannot be stopped")
    ngot = 0

    def collect():
        nonlocal wait, ngot
        if not wait.done():
            return False
        out = env.outcome(wait)[1]
        env.check(out[0] == "ok", "a receive failed")
        env.check(type(out[1]) is fw.Event, "not an event")
        env.check(isinstance(out[1].path, pathlib.Path), "the path is not a Path")
        s.take("msg", out[1])
        ngot += 1
        wait = env.spawn(one(env, s, (ngot + sum(map(len, s.groups))) % 3))
        return True

    for k in range(p["batches"]):
        what = env.choice(f"what{k}", 2 if k < p["batches"] - 1 else 1)
        if what == 1:
            s.aw.add("timeout")
        else:
            s.push()
        if env.choice(f"gap{k}", 2):
            await env.settle()
            while collect():
                await env.settle()
            env.check(not s.pending(), "a change was not delivered")
    await env.settle()
    while collect():
        await env.settle()
    env.check(not s.pending(), "a change was not delivered")
    if ngot > 1:
        env.cover("several")
    if ngot == 0:
        env.cover("all filtered")
    env.log(ngot)
    wait.cancel()
    await env.settle()


async def f02(env):
    """The watcher ends, fails or is deleted, at any moment."""
    p = env.p
    s = FileSource(env, "s")
    s.sizes = p["sizes"]
    end = ["end", "fail", "delete"][env.choice("end", 3)]
    if end == "fail":
        s.fail_with = SourceError("watcher")
    mode = env.choice("mode", 3 if end != "delete" else 1)   # receive / for / select
    before = env.choice("before", p["batches"] + 1)
    for k in range(before):
        s.push()
    if end == "delete":
        n = env.choice("read", 3)
        for _ in range(n):
            if not s.pending():
                break
            s.take("msg", await s.recv.receive())
        if env.flag("waited"):
            # a consumer waited, and was cancelled
            while s.pending():
                s.take("msg", await s.recv.receive())
            t = env.spawn(s.recv.receive())
            await env.settle()
            t.cancel()
            await env.settle()
            t = None
        stop = s.aw.calls[0][1]
        env.check(stop is not None, "the watcher cannot be stopped")
        s.recv = s.orig = None
        gc.collect()
        env.check(stop.is_set(), "deleting the file watcher does not stop the watcher")
        env.cover("deleted")
        return
    got = []
    other = fake_class(env)("other")

    async def consume():
        if mode == 0:
            while True:
                out = await env.guard(s.recv.receive())
                if out[0] != "ok":
                    return out
                s.take("msg", out[1])
        if mode == 1:
            async for e in s.recv:
                s.take("msg", e)
            return ("end",)
        async for sel in env.ch.select(s.recv, other):
            if env.ch.selected_from(sel, s.recv):
                if sel.was_stopped:
                    got.append("stop")
                    s.check_stop_cause(sel.exception)
                else:
                    env.check(not got, "an event after the stop")
                    s.take("msg", sel.message)
            elif env.ch.selected_from(sel, other):
                pass
        return ("end",)

    early = env.flag("early")
    if early:
        task = env.spawn(consume())
        await env.settle()
    s.stop()
    if not early:
        task = env.spawn(consume())
    if env.flag("push late"):
        s.aw.raw.insert(0, ("timeout",))
        s.aw.wake()
    await env.settle()
    env.check(not s.pending(), "a change was not delivered before the stop")
    if mode == 2:
        env.check(got == ["stop"], "the stop was not reported exactly once")
        other.stop()
        await env.settle()
        env.cover("select")
    env.check(task.done(), "the consumer is not told that the watcher stopped")
    out = env.outcome(task)
    env.check(out[0] == "ok", "the consumer failed")
    out = out[1]
    if mode == 0:
        env.check(out[0] == "err" and isinstance(out[1], env.ch.ReceiverStoppedError),
                  "no ReceiverStoppedError")
        s.check_stop_cause(out[1])
        env.check(out[1].receiver is s.recv, "the stop names another receiver")
    else:
        env.check(out == ("end",), "the iteration did not end normally")
    env.cover(end)
    for k in range(2):
        out = await env.guard(s.recv.receive())
        env.check(out[0] == "err" and isinstance(out[1], env.ch.ReceiverStoppedError),
                  "a stopped file watcher does not stay stopped")
        s.check_stop_cause(out[1])
        env.check(await s.recv.ready() is False, "ready() of a stopped file watcher")
    env.log(end, mode)


HARNESSES = {
    "F01": [Harness(
        "types", f01,
        "{batches} batches (or timeouts) of {sizes} changes of any type, of one or different "
        "paths, any subset of "
        "types selected, any iteration order of every batch, consumed by receive/async for/"
        "ready+consume, promptly or late",
        quick=dict(batches=1, sizes=[1, 2, 3], same_path=True),
        thorough=dict(batches=2, sizes=[1, 2], same_path=True, odd=True), covers=["several", "all filtered"]),
        Harness(
        "batches", f01,
        "{batches} batches (or timeouts) of {sizes} changes of given types, types selected: "
        "all or one, any iteration order of every batch, consumed promptly or late",
        quick=dict(batches=3, sizes=[1, 2], subsets=[None, [1]], free=False),
        thorough=dict(batches=4, sizes=[1, 2, 3], subsets=[None, [1]], free=False),
        covers=["several"]),
        Harness(
        "paths", f01,
        "the paths given as str or Path, {batches} batch of {sizes} changes of paths that are "
        "ordinary, or hidden, temporary, relative, not normalised, or outside",
        quick=dict(batches=1, sizes=[1, 2, 3], paths=True, subsets=[None, [0, 1]], odd=True), covers=["several"])],
    "F02": [Harness(
        "end", f02,
        "up to {batches} batches of {sizes} changes, then the watcher ends, fails or is "
        "deleted, with a consumer that is waiting or comes later",
        quick=dict(batches=2, sizes=[1, 2]), thorough=dict(batches=3, sizes=[1, 2, 3]),
        covers=["end", "fail", "deleted", "select"])],
}
