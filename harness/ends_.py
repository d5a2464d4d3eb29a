"""Leaving and dropping things: failures while a select is left, dropped mergers."""
import asyncio
import contextlib
import gc
import weakref

from symx.harness_loader import Harness

from ._common import owner
from ._fake import SourceError, fake_class, source_error
from .select_ import BodyError, ChanSource


def stubborn_class(env):
    """A receiver whose ready() reacts to a cancellation slowly, or with an error."""
    base = fake_class(env)

    class Stubborn(base):
        def __init__(self, name):
            super().__init__(name)
            self.slow = 0            # loop iterations from the cancellation to the end
            self.on_cancel = None    # the error that a cancelled ready() raises
            self.raised = []         # (stamp, error) raised by ready()
            self.stamp = lambda: 0

        async def ready(self):
            try:
                return await super().ready()
            except asyncio.CancelledError:
                for _ in range(self.slow):
                    await asyncio.sleep(0)
                if self.on_cancel is None:
                    raise
                e, self.on_cancel = self.on_cancel, None
                self.raised.append((self.stamp(), e))
                raise e
            except SourceError as e:
                self.raised.append((self.stamp(), e))
                raise

    return Stubborn


async def s05(env):
    """A select is left while receivers fail."""
    p = env.p
    n = p["receivers"]
    cls = stubborn_class(env)
    src = [cls(f"s{i}") for i in range(n)]
    how = ["break", "raise", "unhandled", "cancel"][env.choice("how", 4)]
    at = env.choice("at", p["at"])
    stamp = 0
    pushed = [[] for _ in src]
    got = [[] for _ in src]
    end = error = left_at = item_at = None
    count = 0
    before = env.other_tasks() + [asyncio.current_task()]

    def tick():
        nonlocal stamp
        stamp += 1
        return stamp

    for i, s in enumerate(src):
        s.stamp = tick
        k = env.choice(f"cancelled{i}", 1 + p["slow"] + 1)
        if k <= p["slow"]:
            s.slow = k
        else:
            s.slow = p["slow"]
            s.on_cancel = source_error(env, f"c{i}")

    def alive():
        return [t for t in env.other_tasks()
                if not any(t is b for b in before) and t not in env.spawned]

    async def loop():
        nonlocal end, error, left_at, item_at, count
        try:
            async with contextlib.aclosing(env.ch.select(*src)) as gen:
                async for sel in gen:
                    item_at = tick()
                    i = owner(env, sel, src)
                    if sel.exception is None:
                        got[i].append(sel.message)
                    elif not sel.was_stopped:
                        got[i].append(sel.exception)
                    if count == at:
                        await env.gap("body", p["gap"])
                        left_at = tick()
                        if how == "break":
                            break
                        if how == "raise":
                            raise BodyError()
                        if how == "cancel":
                            await asyncio.get_running_loop().create_future()
                    if not (how == "unhandled" and count == at):
                        env.ch.selected_from(sel, src[i])
                    count += 1
            end = "left"
        except asyncio.CancelledError as e:
            left_at = left_at or tick()
            end, error = "cancelled", e
        except BaseException as e:  # pylint: disable=broad-except
            end, error = "error", e
        env.check(not alive(), "tasks are alive right after the end")

    task = env.spawn(loop())
    nmsg = 0
    for k in range(p["steps"]):
        opts = [("settle",), ("tick",)] if env.loop._ready else []
        if nmsg < p["msgs"]:
            fresh = False
            for i in range(n):
                if not pushed[i]:
                    if fresh:
                        continue
                    fresh = True
                opts += [("push", i), ("fail", i)]
        opts.append(("end",))
        o = opts[env.choice(f"op{k}", len(opts))]
        if o[0] == "end":
            break
        if o[0] == "settle":
            await env.settle()
        elif o[0] == "tick":
            await asyncio.sleep(0)
        else:
            v = env.msg(f"m{nmsg}") if o[0] == "push" else source_error(env, f"e{nmsg}")
            nmsg += 1
            pushed[o[1]].append(v)
            src[o[1]].push("msg" if o[0] == "push" else "rerr", v)
    await env.settle()
    if not task.done():
        left_at = left_at or tick()
        task.cancel()
        await env.settle()
    env.check(task.done(), "the select does not end")
    env.check(env.outcome(task)[0] == "ok", "a check failed")

    raised = [(t, e) for s in src for t, e in s.raised]
    group = []
    outer = error
    if isinstance(error, BaseExceptionGroup):
        group = list(error.exceptions)
        outer = error.__context__
        env.cover("group")
        env.check(bool(group), "an empty group")
        if len(group) > 1:
            env.cover("two in a group")
    for i, e in enumerate(group):
        env.check(any(e is r for _t, r in raised), "the group has an error nobody raised")
        env.check(not any(e is g for g in group[:i]), "the group has an error twice")
    reported = None
    if isinstance(outer, env.ch.SelectError) and not isinstance(
            outer, env.ch.UnhandledSelectedError):
        reported = outer.__cause__
        env.check(any(reported is e for _t, e in raised), "wrong cause of the SelectError")
        env.check(not any(reported is e for e in group), "an error was reported twice")
        env.cover("select error")
    elif left_at is not None:
        # errors of after the last item was yielded cannot have been lost
        for t, e in raised:
            if t > item_at if item_at is not None else True:
                env.check(any(e is g for g in group), "an error of the cleanup got lost")
        if end == "left":
            env.check(how == "break", "the select ended")
        elif how == "raise" and count == at and not group and end != "cancelled":
            env.check(isinstance(outer, BodyError), "the error of the body got lost")
        elif how == "unhandled" and count == at and end == "error" and not isinstance(
                outer, asyncio.CancelledError):
            env.check(isinstance(outer, env.ch.UnhandledSelectedError),
                      "an unhandled item did not raise")
        if not group:
            env.check(end != "error" or isinstance(
                error, (BodyError, env.ch.UnhandledSelectedError)), "an unexpected error")
            env.cover("no failure")
    else:
        env.check(False, "the select ended by itself")
    # what was not yielded is still there
    for i, s in enumerate(src):
        s.on_cancel = None
        rest = [v for v in pushed[i] if not any(v is e for _t, e in s.raised)]
        rest = rest[len(got[i]):]
        for v in rest:
            t = env.spawn(s.receive())
            await env.settle()
            out = env.outcome(t)
            env.check(out[0] in ("ok", "err") and out[1] is v, "a message got lost")
            env.cover("left message")
    env.log(end, count, len(group))


async def m04(env):
    """A merged receiver is dropped while its sources go on."""
    p = env.p
    cls = stubborn_class(env)
    kinds = p["kinds"][env.choice("kinds", len(p["kinds"]))]
    src = []
    slow = env.choice("slow", 2) if p.get("slow") else 0
    for i, k in enumerate(kinds):
        s = cls(f"s{i}") if k == "fake" else ChanSource(env, k, f"s{i}")
        src.append(s)
        if k == "fake":
            s.recv = s
            s.slow = slow
    pushed = [[] for _ in src]
    got = []
    before = env.other_tasks()
    merged = env.ch.merge(*[s.recv for s in src])
    outer = env.ch.merge(merged, cls("o")) if p.get("nested") and kinds[1] == "fake" and env.flag("nested") else None
    ref = weakref.ref(merged)
    top = merged if outer is None else outer
    del merged, outer
    dropped = False
    nmsg = takes = 0
    for k in range(p["steps"]):
        opts = [("settle",), ("tick",)] if env.loop._ready else []
        for i in range(len(src)):
            if nmsg < p["msgs"]:
                opts.append(("push", i))
        if not dropped:
            opts.append(("drop",))
            if takes < p["takes"] and nmsg > takes:
                opts.append(("take",))
        if not opts:
            break
        o = opts[env.choice(f"op{k}", len(opts))]
        if o[0] == "settle":
            await env.settle()
        elif o[0] == "tick":
            await asyncio.sleep(0)
        elif o[0] == "push":
            v = env.msg(f"m{nmsg}")
            nmsg += 1
            pushed[o[1]].append(v)
            src[o[1]].push("msg", v)
        elif o[0] == "take":
            takes += 1
            t = env.spawn(top.receive())
            await env.settle()
            out = env.outcome(t)
            env.check(out[0] == "ok", "a merge waits although there is a message")
            got.append(out[1])
            del t
        else:
            del top
            dropped = True
            env.cover("dropped")
    if not dropped:
        del top
    gc.collect()
    await env.settle()
    gc.collect()
    env.check(ref() is None, "something keeps the dropped merge")
    await env.settle()
    own = [t for t in env.other_tasks()
           if not any(t is b for b in before) and t not in env.spawned]
    env.check(not own, "tasks of the dropped merge are alive")
    for i, s in enumerate(src):
        mine = [v for v in pushed[i] if any(v is g for g in got)]
        v = env.msg(f"last{i}")
        pushed[i].append(v)
        s.push("msg", v)
        await env.settle()
        rest = []
        while True:
            t = env.spawn(s.recv.receive())
            await env.settle()
            out = env.outcome(t)
            if out[0] == "pending":
                t.cancel()
                await env.settle()
                break
            env.check(out[0] == "ok", "a source failed")
            rest.append(out[1])
            env.check(len(rest) <= len(pushed[i]), "too many messages")
        k = len(pushed[i]) - len(rest)
        env.check(k >= len(mine), "a message was received twice")
        env.check(all(a is b for a, b in zip(pushed[i][k:], rest)), "wrong messages are left")
        env.check(k < len(pushed[i]), "a message of after the drop got lost")
        if kinds[i] == "fake":
            env.check(all(a[1] is b for a, b in zip(s.taken, pushed[i]))
                      and len(s.taken) == len(pushed[i]), "a message got lost")
        else:
            env.check(k <= len(mine) + 2, "the merge fetched more than it could use")
        if len(rest) > 1:
            env.cover("left message")
    env.log(len(got))


HARNESSES = {
    "S05": [Harness(
        "errors", s05,
        "as failures, with {errtypes} types of errors, {steps} steps",
        quick=dict(receivers=2, slow=0, at=1, gap=1, msgs=2, steps=3, errtypes=5),
        thorough=dict(receivers=2, slow=1, at=1, gap=1, msgs=2, steps=4, errtypes=5),
        covers=["group", "select error", "no failure"]),
        Harness(
        "failures", s05,
        "{receivers} receivers that react to a cancellation at once, {slow} iterations later,"
        " or with an error; up to {msgs} messages or failures of ready(), {steps} steps; left at"
        " item 0..{at}-1 by break, an error, an unhandled item or cancellation",
        quick=dict(receivers=2, slow=1, at=1, gap=1, msgs=2, steps=4, errtypes=1),
        thorough=dict(receivers=3, slow=2, at=2, gap=2, msgs=3, steps=6),
        covers=["group", "two in a group", "select error", "no failure", "left message"])],
    "M04": [Harness(
        "drop", m04,
        "a merge of {kinds}, up to {msgs} messages, {takes} of them received, {steps} steps, "
        "dropped at any time; sources end at once or later when cancelled",
        quick=dict(kinds=[["fake", "fake"], ["fake", "anycast"], ["broadcast", "anycast"]],
                   msgs=3, takes=1, steps=4, slow=True, nested=True),
        thorough=dict(kinds=[["fake", "fake"], ["fake", "anycast"], ["broadcast", "anycast"],
                             ["fake", "fake", "broadcast"]],
                      msgs=4, takes=3, steps=7, slow=True, nested=True),
        covers=["dropped", "left message"])],
}
