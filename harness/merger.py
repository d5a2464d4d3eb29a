"""merge(): scripted sources, any schedule, any way of consuming."""
import asyncio

from symx.harness_loader import Harness

from ._fake import SourceError, fake_class, source_error
from .receivers import r01, r03


class MergeClient:
    def __init__(self, env, n):
        self.env = env
        cls = fake_class(env)
        self.src = [cls("s" if env.p.get("same_name") else f"s{i}") for i in range(n)]
        self.before = env.other_tasks() + [asyncio.current_task()]
        self.m = env.ch.merge(*self.src)
        self.pushed = []       # (source index, kind, value)
        self.got = []          # ("ok", m) | ("err", e) in order
        self.consumer = None
        self.stop_task = None
        self.nmsg = self.nerr = self.ncancel = 0
        self.ended = None      # how the merge reported its end

    # ---- consuming ------------------------------------------------------------------
    async def _take(self, style):
        """Takes one item. Records it; returns False at the end."""
        env, m = self.env, self.m
        try:
            if style == 0:
                self.got.append(("ok", await m.receive()))
            elif style == 1:
                async for x in m:
                    self.got.append(("ok", x))
                    break
                else:
                    self.ended = "loop end"
                    return False
            else:
                r = await m.ready()
                if r is False:
                    try:
                        m.consume()
                    except env.ch.ReceiverStoppedError as e:
                        env.check(e.receiver is m, "stop of the wrong receiver")
                        self.ended = "ready"
                        return False
                    env.check(False, "ready() was False, but consume() yields a message")
                for _ in range(style - 2):
                    env.check(await m.ready() is True, "ready() changed its mind")
                self.got.append(("ok", m.consume()))
        except env.ch.ReceiverStoppedError as e:
            env.check(e.receiver is m, "the stop error names the wrong receiver")
            self.ended = "stop error"
            return False
        except SourceError as e:
            self.got.append(("err", e))
        return True

    async def _consume(self, style, n):
        for _ in range(n):
            if not await self._take(style):
                return

    # ---- driver ---------------------------------------------------------------------
    def options(self):
        env, p = self.env, self.env.p
        allow = p["allow"]
        out = []
        if env.loop._ready:
            out += [("tick",), ("settle",)]
        fresh = False
        for i, s in enumerate(self.src):
            new = not any(j == i for j, _k, _v in self.pushed) and not s.stopped
            if s.stopped or new and fresh and not p.get("asym"):
                continue
            fresh = fresh or new
            if self.nmsg < p["msgs"]:
                out.append(("push", i))
            if "err" in allow and self.nerr < p["errs"]:
                out.append(("err", i))
            if "srcstop" in allow:
                out.append(("srcstop", i))
        if self.consumer is None or self.consumer.done():
            out += [("take", n) for n in range(1, p["takes"] + 1)]
        elif "cancel" in allow and self.ncancel < p.get("cancels", 1):
            out.append(("cancel",))
        if "stop" in allow and self.stop_task is None:
            out.append(("stop",))
        return out

    def push(self, i, kind):
        if kind == "msg":
            v = self.env.msg(f"m{self.nmsg}")
            self.nmsg += 1
        else:
            v = source_error(self.env, f"e{self.nerr}")
            kind = ["err", "rerr"][self.env.choice(f"ek{self.nerr}", 2)]
            self.nerr += 1
        self.pushed.append((i, kind, v))
        self.src[i].push(kind, v)

    async def run(self, style):
        env = self.env
        for k in range(env.p["steps"]):
            o = self.options()
            o = o[env.choice(f"op{k}", len(o))]
            if o[0] == "tick":
                await asyncio.sleep(0)
            elif o[0] == "settle":
                await env.settle()
            elif o[0] == "push":
                self.push(o[1], "msg")
            elif o[0] == "err":
                self.push(o[1], "err")
            elif o[0] == "srcstop":
                self.src[o[1]].stop()
            elif o[0] == "take":
                self.check_consumer()
                self.consumer = env.spawn(self._consume(style, o[1]))
            elif o[0] == "cancel":
                self.ncancel += 1
                self.consumer.cancel()
            elif o[0] == "stop":
                self.stop_task = env.spawn(self._stop())
        await env.settle()

    async def _stop(self):
        self.at_stop = [len(s.taken) for s in self.src]
        await self.m.stop()
        self.env.check(not [t for t in self.new_tasks() if t is not self.stop_task],
                       "tasks are alive right after stop()")

    def check_consumer(self):
        """A consumer only ends by its number of items, the end, or a cancellation."""
        env = self.env
        if self.consumer is None or not self.consumer.done():
            return
        out = env.outcome(self.consumer)
        if out[0] == "cancelled":
            env.check(self.ncancel > 0, "the consumer got a cancellation")
            return
        env.expect(out, "ok", "consumer")

    async def drain(self, style):
        """Consume until the end, or until nothing more comes."""
        env = self.env
        self.check_consumer()
        for _ in range(len(self.pushed) + 3):
            if self.consumer is None or self.consumer.done():
                self.check_consumer()
                if self.ended:
                    return
                self.consumer = env.spawn(self._consume(style, 1))
            await env.settle()
            if not self.consumer.done():
                return
        self.check_consumer()

    # ---- checks ---------------------------------------------------------------------
    def check_content(self, complete):
        """Every item of every source exactly once, in the order of the source."""
        env = self.env
        pos = [0] * len(self.src)
        for kind, v in self.got:
            for i in range(len(self.src)):
                seq = [(k, x) for j, k, x in self.pushed if j == i]
                if pos[i] < len(seq) and seq[pos[i]][1] is v:
                    env.check((seq[pos[i]][0] == "msg") == (kind == "ok"), "wrong kind of item")
                    pos[i] += 1
                    break
            else:
                dup = any(v is x for _j, _k, x in self.pushed)
                env.check(False, "item duplicated or out of order" if dup
                          else "item invented or modified")
        if complete:
            n = sum(pos)
            env.check(n == len(self.pushed), "an item of a source was lost")
        for s in self.src:
            env.check(s.misuse is None, "a source was consumed without being ready")

    def new_tasks(self):
        return [t for t in self.env.other_tasks()
                if not any(t is b for b in self.before) and t is not self.consumer]


async def finish(env, c):
    """Stops the sources and checks the end of the merge."""
    for s in c.src:
        s.stop()
    await env.settle()
    return c


def log(env, c):
    env.log([k for k, _v in c.got], c.ended, [len(s.taken) for s in c.src])


async def m01(env):
    p = env.p
    c = MergeClient(env, p["sources"])
    style = p["styles"][env.choice("style", len(p["styles"]))]
    await c.run(style)
    if style == 0:
        env.cover("receive")
    elif style == 1:
        env.cover("async for")
    else:
        env.cover("ready/consume")
    await c.drain(style)
    c.check_content(complete=True)
    if len({i for i, _k, _v in c.pushed}) > 1:
        env.cover("two sources")
    live = any(not s.stopped for s in c.src)
    env.check(not (c.ended and live), "the merge ended although a source is active")
    log(env, c)


async def m02(env):
    p = env.p
    c = MergeClient(env, p["sources"])
    style = p["styles"][env.choice("style", len(p["styles"]))]
    await c.run(style)
    stopped = c.stop_task is not None
    if stopped:
        env.expect(env.outcome(c.stop_task), "ok", "stop()")
        waiting = c.consumer is not None and not c.consumer.done()
        env.check(not waiting, "a consumer keeps waiting after stop()")
        env.check(not c.new_tasks(), "stop() left tasks behind")
        env.cover("stopped")
        for i, s in enumerate(c.src):
            if not s.stopped:
                s.push("msg", env.msg(f"late{i}"))
        await env.settle()
        for i, s in enumerate(c.src):
            env.check(len(s.taken) == c.at_stop[i], "a message was fetched after stop()")
    else:
        live = any(not s.stopped for s in c.src)
        env.check(not (c.ended and live), "the merge ended although a source is active")
        await finish(env, c)
    await c.drain(style)
    c.check_content(complete=not stopped)
    env.check(c.ended is not None, "the merge does not report that it is stopped")
    if not stopped:
        env.cover("sources stopped")
        env.check(not c.new_tasks(), "tasks are left after the end of the merge")
    # it stays stopped
    for st in range(3):
        c.ended = None
        n = len(c.got)
        t = env.spawn(c._consume(st, 1))
        await env.settle()
        env.expect(env.outcome(t), "ok", "consumer of a stopped merge")
        env.check(c.ended is not None and len(c.got) == n, "a stopped merge did not stay stopped")
    log(env, c)


async def m03(env):
    p = env.p
    c = MergeClient(env, p["sources"])
    style = p["styles"][env.choice("style", len(p["styles"]))]
    await c.run(style)
    await c.drain(style)
    c.check_content(complete=True)
    if any(k == "err" for k, _v in c.got):
        env.cover("error delivered")
    # the merge goes on with all sources that are not stopped
    if not all(s.stopped for s in c.src):
        env.check(c.ended is None, "the merge ended although a source is active")
        for i, s in enumerate(c.src):
            if not s.stopped:
                c.push(i, "msg")
        await c.drain(style)
        c.check_content(complete=True)
        env.cover("goes on")
    else:
        env.check(c.ended is not None, "the merge did not end")
    log(env, c)


BOUNDS = ("{sources} scripted sources, up to {msgs} messages (any None/falsy/equal/unhashable), "
          "{steps} steps: a source gets a message, {allow}, the consumer takes 1..{takes} "
          "items, one loop iteration, or all; styles {styles} (0: receive, 1: async for, 2+: "
          "ready once or more and consume); any order of the tasks that asyncio.wait returns")

KBOUNDS = ("{kinds}; up to {msgs} messages or errors, {steps} steps: a source gets a message "
           "or stops, all stop, the consumer takes one, or everything runs")
MERGES = ["merge:map:event+anycast", "merge:file+broadcast", "merge:map:fake+fake",
          "merge:map:event+map:event"]

HARNESSES = {
    "M01": [Harness(
        "three", m01, BOUNDS,
        quick=dict(sources=3, msgs=4, steps=5, takes=2, styles=[0, 1, 2], allow=["srcstop"]),
        thorough=dict(sources=3, msgs=4, steps=7, takes=2, styles=[0, 1, 2, 3], allow=["srcstop"]),
        covers=["receive", "async for", "ready/consume", "two sources"]),
        Harness(
        "two", m01, BOUNDS + "; both sources have the same name",
        quick=dict(sources=2, same_name=True, msgs=4, steps=6, takes=2, styles=[0, 1, 2], allow=["srcstop"]),
        thorough=dict(sources=2, same_name=True, msgs=5, steps=8, takes=3, styles=[0, 1, 2, 3], allow=["srcstop"]),
        covers=["receive", "async for", "ready/consume", "two sources"]),
        Harness(
        "kinds", r01, KBOUNDS,
        quick=dict(kinds=MERGES, msgs=2, calls=3, steps=5, ferr=True, partial=True),
        thorough=dict(kinds=MERGES, msgs=3, calls=4, steps=8, ticks=True, ferr=True, partial=True),
        covers=["message", "stop", "error"])],
    "M02": [Harness(
        "history", m02, BOUNDS,
        quick=dict(sources=2, msgs=3, steps=5, takes=2, styles=[0, 1, 2],
                   allow=["srcstop", "stop"]),
        thorough=dict(sources=3, msgs=3, steps=7, takes=2, styles=[0, 1, 2],
                   allow=["srcstop", "stop"]),
        covers=["stopped", "sources stopped"]),
        Harness(
        "kinds", r03, KBOUNDS + "; each receive by receive() or by async for",
        quick=dict(kinds=MERGES, msgs=3, steps=5, partial=True),
        thorough=dict(kinds=MERGES, msgs=3, steps=8, ticks=True, partial=True),
        covers=["receive stopped", "async for ended"]),
        Harness(
        "timers", r03, KBOUNDS + "; a timer of any start time and lateness",
        quick=dict(kinds=["merge:timer+event"], msgs=2, steps=5, partial=True),
        thorough=dict(kinds=["merge:timer+event", "merge:timer+anycast"], msgs=3, steps=8,
                      ticks=True, partial=True),
        covers=["receive stopped", "async for ended"], timers=True)],
    "M03": [Harness(
        "history", m03, BOUNDS + "; {errs} errors (of ready() or consume())",
        quick=dict(sources=2, msgs=2, errs=2, steps=5, takes=1, styles=[0, 2],
                   allow=["srcstop", "err"]),
        thorough=dict(sources=2, msgs=2, errs=2, steps=6, takes=2, styles=[0, 1, 2],
                      allow=["srcstop", "err"]),
        covers=["error delivered", "goes on"]),
        Harness(
        "kinds", r03, KBOUNDS + "; each receive by receive() or by async for",
        quick=dict(kinds=["merge:map:fake+fake", "merge:map:anycast+fake"], msgs=2, steps=5,
                   ferr=True, partial=True),
        thorough=dict(kinds=["merge:map:fake+fake", "merge:map:anycast+fake"], msgs=3,
                      steps=8, ticks=True, ferr=True, partial=True),
        covers=["error by receive", "error by for"])],
}
