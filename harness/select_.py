"""select(): scripted and real receivers, any schedule, any behaviour of the loop body."""
import asyncio

from symx.harness_loader import Harness

from ._common import look, owner
from ._fake import SourceError, fake_class, source_error
from ._sources import make


class BodyError(Exception):
    """Raised by the loop body."""


class ChanSource:
    """A real channel behind the interface of the scripted receiver."""

    def __init__(self, env, kind, name):
        ch = env.ch
        self.chan = (ch.Anycast(name=name, limit=100) if kind == "anycast"
                     else ch.Broadcast(name=name))
        self.env, self.kind = env, kind
        self.recv = self.chan.new_receiver()
        self.sender = self.chan.new_sender()
        self.stopped = False
        self.n = 0

    def push(self, kind, value):
        self.n += 1
        self.env.spawn(self.sender.send(value))

    def stop(self):
        self.stopped = True
        self.env.spawn(self.chan.close())


class FakeSource:
    def __init__(self, env, name):
        self.recv = fake_class(env)(name)

    def push(self, kind, value):
        self.recv.push(kind, value)

    def stop(self):
        self.recv.stop()

    @property
    def stopped(self):
        return self.recv.stopped


class SelectClient:
    def __init__(self, env, kinds):
        self.env = env
        same = env.p.get("same_name")
        self.src = [FakeSource(env, "s" if same else f"s{i}") if k == "fake" else ChanSource(env, k, f"s{i}")
                    for i, k in enumerate(kinds)]
        self.pushed = []          # (source, kind, value)
        self.got = []             # (source, kind, value): "msg" | "stop" | "err"
        self.items = []           # Selected objects, in order
        self.nmsg = self.nerr = 0
        self.end = None
        self.before = env.other_tasks()
        self.main = asyncio.current_task()
        self.leave_at = None
        self.agen = None
        self.expect_unhandled = None

    # ---- what the loop body does -------------------------------------------------------
    def identify(self, sel):
        """The source of a selected item according to selected_from()."""
        env = self.env
        hits = [i for i, s in enumerate(self.src) if env.ch.selected_from(sel, s.recv)]
        env.check(len(hits) == 1, "selected_from() is not true for exactly one receiver")
        return hits[0]

    def record(self, sel):
        env = self.env
        i = self.identify(sel)
        exc = sel.exception
        env.check(sel.was_stopped is isinstance(exc, env.ch.ReceiverStoppedError),
                  "was_stopped is wrong")
        if exc is None:
            self.got.append((i, "msg", sel.message))
        else:
            try:
                _ = sel.message
                env.check(False, "reading the message of a failed item does not raise")
            except Exception as e:  # pylint: disable=broad-except
                env.check(e is exc, "reading the message raises another error")
            if sel.was_stopped:
                env.check(exc.receiver is self.src[i].recv, "stop error of another receiver")
            self.got.append((i, "stop" if sel.was_stopped else "err", exc))
        self.items.append(sel)
        return i

    async def body(self, sel, k):
        """Handles item number k. Overridden behaviour through self.policy."""
        self.record(sel)
        await self.policy(self, sel, k)

    async def loop(self, order):
        env = self.env
        k = 0
        try:
            try:
                self.agen = env.ch.select(*[self.src[i].recv for i in order])
                async for sel in self.agen:
                    if k == self.leave_at and self.leave_how == "break":
                        self.record(sel)
                        break
                    await self.body(sel, k)
                    k += 1
                else:
                    self.end = "end"
                    self.check_now()
                    return
                await self.agen.aclose()
                self.end = "left"
                self.check_now()
            finally:
                self.agen = None
        except BodyError:
            self.end = "body error"
        except env.ch.UnhandledSelectedError as e:
            self.end = "unhandled"
            self.error = e
            self.check_now()
        except env.ch.SelectError as e:
            self.end = "select error"
            self.error = e
            self.check_now()
        except asyncio.CancelledError:
            self.end = "cancelled"
            raise

    def check_now(self):
        """At the very moment of the end, no task of the select is alive any more."""
        if not any("merge" in k for k in self.env.p.get("kinds", [])):
            alive = [t for t in self.new_tasks()
                     if t is not self.main and t not in self.env.spawned]
            self.env.check(not alive, "tasks are alive right after the end")

    # ---- driver -------------------------------------------------------------------------
    def options(self):
        env, p = self.env, self.env.p
        allow = p["allow"]
        out = []
        if env.loop._ready:
            out += [("tick",), ("settle",)]
        fresh = {}
        for i, s in enumerate(self.src):
            new = not any(j == i for j, _k, _v in self.pushed) and not s.stopped
            kind = p["kinds"][i] if not p.get("asym") else i
            if s.stopped or new and fresh.get(kind):
                continue
            fresh[kind] = fresh.get(kind) or new
            if self.nmsg < p["msgs"]:
                out.append(("push", i))
            if "err" in allow and self.nerr < p["errs"]:
                out.append(("err", i))
            if "srcstop" in allow:
                out.append(("srcstop", i))
        if "cancel" in allow and self.task is not None and not self.task.done() \
                and not self.cancelled:
            out.append(("cancel",))
        if "start" in allow and self.task is None:
            out.append(("start",))
        return out

    def push(self, i, kind):
        if kind == "msg":
            v = self.env.msg(f"m{self.nmsg}")
            self.nmsg += 1
        else:
            v = source_error(self.env, f"e{self.nerr}")
            kinds = self.env.p["errkinds"]
            kind = kinds[self.env.choice(f"ek{self.nerr}", len(kinds))]
            self.nerr += 1
        self.pushed.append((i, kind, v))
        self.src[i].push(kind, v)

    def start(self):
        n = len(self.src)
        order = list(range(n))
        if self.env.p.get("dup"):
            order += [0] * self.env.choice("dup", 2)
        self.task = self.env.spawn(self.loop(order))

    async def run(self):
        env = self.env
        self.task, self.cancelled = None, False
        if "start" not in env.p["allow"]:
            self.start()
        for k in range(env.p["steps"]):
            o = self.options()
            if not o:
                break
            o = o[env.choice(f"op{k}", len(o))]
            if o[0] == "tick":
                await asyncio.sleep(0)
            elif o[0] == "settle":
                await env.settle()
            elif o[0] == "push":
                self.push(o[1], "msg")
            elif o[0] == "err":
                self.push(o[1], "err")
            elif o[0] == "srcstop":
                self.src[o[1]].stop()
            elif o[0] == "cancel":
                self.cancelled = True
                self.task.cancel()
            elif o[0] == "start":
                self.start()
        if self.task is None:
            self.start()
        await env.settle()

    # ---- checks ---------------------------------------------------------------------------
    def check_task(self):
        out = self.env.outcome(self.task)
        if out[0] == "cancelled":
            self.env.check(self.cancelled, "the select loop got a cancellation")
        elif out[0] == "err":
            self.env.check(False, f"the select loop raised {out[1]!r}")

    def check_content(self, complete):
        """Each message/error once, in the order of its receiver, stops once and last."""
        env = self.env
        for i, s in enumerate(self.src):
            seq = [(k, v) for j, k, v in self.pushed if j == i]
            got = [(k, v) for j, k, v in self.got if j == i]
            stops = [g for g in got if g[0] == "stop"]
            env.check(len(stops) <= 1, "a stop was reported twice")
            if stops:
                env.check(got[-1][0] == "stop", "an item was yielded after the stop")
                env.check(s.stopped, "a stop was reported for an active receiver")
                got.pop()
            env.check(len(got) <= len(seq), "more items than messages")
            for (gk, gv), (sk, sv) in zip(got, seq):
                env.check(gv is sv, "wrong message, or wrong order")
                env.check((gk == "err") == (sk != "msg"), "wrong kind of item")
            if complete:
                env.check(len(got) == len(seq), "a message was not yielded")
                env.check(bool(stops) == s.stopped, "a stop was not reported")

    def new_tasks(self):
        return [t for t in self.env.other_tasks()
                if not any(t is b for b in self.before) and t is not self.task]

    async def check_rest(self):
        """What was not yielded can still be received, in order."""
        env = self.env
        for i, s in enumerate(self.src):
            seq = [(k, v) for j, k, v in self.pushed if j == i]
            n = sum(1 for j, k, _v in self.got if j == i and k != "stop")
            for k, v in seq[n:]:
                t = env.spawn(s.recv.receive())
                await env.settle()
                out = env.outcome(t)
                env.expect(out, "ok" if k == "msg" else "err", "receive after select")
                env.check(out[1] is v, "wrong message after leaving the select")
                env.cover("left message")
            t = env.spawn(s.recv.receive())
            await env.settle()
            out = env.outcome(t)
            env.check(out[0] != "ok", "more messages than were sent")
            t.cancel()
            await env.settle()


async def handle(c, sel, k):
    """Policy: the item is handled (record() called selected_from); sometimes slowly."""
    await c.env.gap(f"body{k}", c.env.p.get("bodygap", 0))


def log(env, c):
    env.log(c.end, [(i, k) for i, k, _v in c.got])


async def s01(env):
    c = SelectClient(env, env.p["kinds"])
    c.policy = handle
    await c.run()
    c.check_content(complete=True)
    done = all(s.stopped for s in c.src)
    c.check_task()
    env.check(done == c.task.done(), "the iteration ends too early or too late")
    if not done:
        for s in c.src:
            if not s.stopped:
                s.stop()
        await env.settle()
        c.check_content(complete=True)
        env.check(c.task.done(), "the iteration does not end")
    else:
        env.cover("all stopped")
    c.check_task()
    env.check(c.end == "end", "the iteration did not end normally")
    env.check(not c.new_tasks(), "tasks are left after the end")
    if len(c.got) > len(c.src) + 1:
        env.cover("messages")
    log(env, c)


async def s02_policy(c, sel, k):
    env = c.env
    await env.gap(f"body{k}", env.p.get("bodygap", 0))


class S02Client(SelectClient):
    """The body handles the item, compares with other receivers only, or does nothing."""

    async def body(self, sel, k):
        env = self.env
        self.items.append(sel)
        what = env.choice(f"handle{k}", 5)
        mine = self.src[owner(env, sel, [s.recv for s in self.src])].recv
        hit = None
        if what == 0:      # if-chain: stops at the first match
            for i, s in enumerate(self.src):
                if env.ch.selected_from(sel, s.recv):
                    hit = i
                    break
        elif what == 1:    # compares with everything, in reverse order
            for s in reversed(self.src):
                if env.ch.selected_from(sel, s.recv):
                    hit = s
        elif what == 2:    # compares with receivers that are not selected only
            other = fake_class(env)("other")
            env.check(not env.ch.selected_from(sel, other), "matches an unknown receiver")
            for s in self.src:
                if s.recv is not mine:
                    env.check(not env.ch.selected_from(sel, s.recv), "matches two receivers")
            env.cover("not handled")
        elif what == 3:    # looks at it, compares with nothing
            look(env, sel)
            if sel.exception is None:
                _ = sel.message
            env.cover("not handled")
        else:              # handles it after having waited
            await asyncio.sleep(0)
            for s in self.src:
                hit = hit or env.ch.selected_from(sel, s.recv)
        self.handled = what not in (2, 3)
        if not self.handled:
            self.expect_unhandled = sel


async def s02(env):
    c = S02Client(env, env.p["kinds"])
    await c.run()
    for s in c.src:
        s.stop()
    await env.settle()
    env.check(c.task.done(), "the iteration does not end")
    c.check_task()
    if c.expect_unhandled is not None:
        env.check(c.end == "unhandled", "an unhandled item did not raise")
        env.check(c.error.selected is c.expect_unhandled, "the error has the wrong item")
        env.check(c.items[-1] is c.expect_unhandled, "another item was yielded")
        env.cover("unhandled raised")
    else:
        env.check(c.end == "end", "a handled item raised")
        env.cover("all handled")
    env.check(not c.new_tasks(), "tasks are left after the end")
    env.log(c.end, len(c.items))


class S03Client(SelectClient):
    async def body(self, sel, k):
        env = self.env
        if k != self.leave_at:
            self.record(sel)
            return
        how = self.leave_how
        if how == "raise":
            self.record(sel)
            raise BodyError()
        if how == "unhandled":
            # recorded without selected_from
            i = owner(env, sel, [s.recv for s in self.src])
            exc = sel.exception
            self.got.append((i, "msg", sel.message) if exc is None else
                            (i, "stop" if sel.was_stopped else "err", exc))
            return
        if how == "wait":
            self.record(sel)
            self.parked = True
            await asyncio.get_running_loop().create_future()
        self.record(sel)
        await env.gap(f"body{k}", 1)


async def s03(env):
    p = env.p
    kinds = p["kindsets"][env.choice("kinds", len(p["kindsets"]))]
    env.p = dict(p, kinds=kinds)
    c = S03Client(env, kinds)
    c.leave_how = ["break", "raise", "unhandled", "cancel", "wait"][env.choice("how", 5)]
    c.leave_at = env.choice("at", p["at"])
    c.policy = handle
    c.parked = False
    await c.run()
    if not c.task.done():
        if c.leave_how in ("cancel", "wait"):
            c.cancelled = True
            c.task.cancel()
        else:
            for s in c.src:
                if not s.stopped:
                    s.stop()
    await env.settle()
    env.check(c.task.done(), "the select loop does not end")
    c.check_task()
    env.cover("end: " + str(c.end))
    if c.parked:
        env.cover("cancelled in the body")
    env.check(not c.new_tasks(), "tasks are left after leaving the loop")
    c.check_content(complete=False)
    log(env, c)
    await c.check_rest()


async def s04(env):
    p = env.p
    c = SelectClient(env, p["kinds"])
    c.policy = handle
    await c.run()
    rerr = [v for _i, k, v in c.pushed if k == "rerr"]
    if rerr:
        env.check(c.task.done(), "an error of ready() does not end the iteration")
        c.check_task()
        env.check(c.end == "select error", "an error of ready() ends with a SelectError")
        env.check(any(c.error.__cause__ is v for v in rerr), "wrong cause of the SelectError")
        env.check(not isinstance(c.error, env.ch.UnhandledSelectedError), "wrong error")
        env.check(not c.new_tasks(), "tasks are left after the error")
        for i, s in enumerate(c.src):
            if not any(j == i and k == "rerr" for j, k, _v in c.pushed):
                continue
        env.cover("select error")
        c.check_content_rerr()
    else:
        c.check_content(complete=True)
        if any(k == "err" for _i, k, _v in c.got):
            env.cover("consume error")
        # it goes on after the errors
        for i, s in enumerate(c.src):
            if not s.stopped:
                c.push(i, "msg")
        await env.settle()
        c.check_content(complete=True)
        for s in c.src:
            s.stop()
        await env.settle()
        c.check_content(complete=True)
        c.check_task()
        env.check(c.end == "end", "the iteration did not end normally")
    log(env, c)


def check_content_rerr(self):
    """Nothing is duplicated or reordered; the error of ready() is not an item."""
    env = self.env
    for i in range(len(self.src)):
        seq = [(k, v) for j, k, v in self.pushed if j == i and k != "rerr"]
        got = [(k, v) for j, k, v in self.got if j == i and k != "stop"]
        env.check(len(got) <= len(seq), "more items than messages")
        for (_gk, gv), (_sk, sv) in zip(got, seq):
            env.check(gv is sv, "wrong message, or wrong order")


SelectClient.check_content_rerr = check_content_rerr

# ---- real receivers of every kind ----------------------------------------------------------
FILE_FINDING = "a file watcher ends when a waiting ready() is cancelled"


class KindsClient(S03Client):
    """The oracle of each receiver is its source."""

    def __init__(self, env, kinds):
        super().__init__(env, [])
        self.kinds = kinds
        self.src = [make(env, k, f"s{i}") for i, k in enumerate(kinds)]
        self.stops = [0] * len(kinds)
        self.before = env.other_tasks()
        self.parked = False
        self.leave_how = None

    def account(self, i, sel):
        env, s = self.env, self.src[i]
        exc = sel.exception
        env.check(self.stops[i] == 0, "an item was yielded after the stop")
        if exc is None:
            s.take("msg", sel.message)
        elif sel.was_stopped:
            env.check(s.stopped, "a stop was reported for an active receiver")
            env.check(not s.pending(), "a stop was reported before the last message")
            s.check_stop_cause(exc)
            self.stops[i] += 1
        else:
            s.take("err", exc)
        self.got.append((i, "stop" if sel.was_stopped else "item", None))
        self.items.append(sel)

    def record(self, sel):
        env = self.env
        i = self.identify(sel)
        env.check(sel.was_stopped is isinstance(sel.exception, env.ch.ReceiverStoppedError),
                  "was_stopped is wrong")
        self.account(i, sel)
        return i

    async def body(self, sel, k):
        if k == self.leave_at and self.leave_how == "unhandled":
            self.account(owner(self.env, sel, [s.recv for s in self.src]), sel)
            return
        await super().body(sel, k)

    def options(self):
        env, p = self.env, self.env.p
        out = []
        if env.loop._ready:
            out += [("tick",), ("settle",)] if p.get("ticks") else [("settle",)]
        for i, s in enumerate(self.src):
            if s.stopped:
                continue
            if self.nmsg < p["msgs"]:
                out.append(("push", i))
            if s.can_err and self.nerr < p.get("errs", 0):
                out.append(("err", i))
            out.append(("srcstop", i))
        if "cancel" in p["allow"] and not self.task.done() and not self.cancelled:
            out.append(("cancel",))
        return out

    def push(self, i, kind):
        if kind == "msg":
            self.nmsg += 1
            self.src[i].push()
        else:
            self.nerr += 1
            self.src[i].error()

    def check_content(self, complete):
        if not complete:
            return
        for i, s in enumerate(self.src):
            self.env.check(not s.pending(), "a message was not yielded")
            self.env.check((self.stops[i] == 1) is s.stopped, "a stop was not reported")

    async def check_rest(self):
        env = self.env
        for k, s in zip(self.kinds, self.src):
            while True:
                n = s.pending() or bool(s.noptional())
                t = env.spawn(s.recv.receive())
                await env.settle()
                out = env.outcome(t)
                if out[0] == "pending":
                    env.check(not s.pending(), "a message got lost")
                    env.check(not s.stopped, "a receive waits although the receiver stopped")
                    t.cancel()
                    await env.settle()
                    break
                if out[0] == "ok":
                    s.take("msg", out[1])
                    env.cover("left message")
                elif isinstance(out[1], env.ch.ReceiverStoppedError):
                    if k == "file" and s.aw.cancelled and (s.pending() or not s.stopped):
                        env.finding(FILE_FINDING)
                    env.check(s.stopped and not s.pending(), "stopped too early")
                    break
                else:
                    s.take("err", out[1])


def pick_kinds(env):
    sets = env.p["kindsets"]
    kinds = sets[env.choice("kinds", len(sets))]
    env.p = dict(env.p, kinds=kinds)
    return kinds


async def s01_kinds(env):
    c = KindsClient(env, pick_kinds(env))
    c.policy = handle
    await c.run()
    c.check_content(complete=True)
    c.check_task()
    env.check(all(s.stopped for s in c.src) == c.task.done(),
              "the iteration ends too early or too late")
    for s in c.src:
        if not s.stopped:
            s.stop()
    await env.settle()
    c.check_content(complete=True)
    env.check(c.task.done(), "the iteration does not end")
    c.check_task()
    env.check(c.end == "end", "the iteration did not end normally")
    if not any("merge" in k for k in c.kinds):
        env.check(not c.new_tasks(), "tasks are left after the end")
    env.cover("end")
    log(env, c)


async def s03_kinds(env):
    c = KindsClient(env, pick_kinds(env))
    c.leave_how = ["break", "raise", "unhandled", "cancel", "wait"][env.choice("how", 5)]
    c.leave_at = env.choice("at", env.p["at"])
    c.policy = handle
    await c.run()
    if not c.task.done():
        if c.leave_how in ("cancel", "wait"):
            c.cancelled = True
            c.task.cancel()
        else:
            for s in c.src:
                if not s.stopped:
                    s.stop()
    await env.settle()
    env.check(c.task.done(), "the select loop does not end")
    c.check_task()
    env.cover("end: " + str(c.end))
    if not any("merge" in k for k in c.kinds):
        env.check(not c.new_tasks(), "tasks are left after leaving the loop")
    log(env, c)
    await c.check_rest()


BOUNDS = ("receivers: {kinds}; up to {msgs} messages, {steps} steps: a receiver gets a message, "
          "{allow}, one loop iteration, or all; any order of the tasks that asyncio.wait "
          "returns")

KBOUNDS = ("receivers: one of {kindsets}; up to {msgs} messages, {steps} steps: a receiver "
           "gets a message (or an error) or stops, {allow}, or everything runs")
KINDSETS = [["event", "anycast"], ["event", "event"], ["file", "broadcast"],
            ["map:fake", "fake"], ["merge:fake+event", "fake"], ["anycast", "broadcast"]]
TRIPLES = [["event", "file", "fake"], ["map:event", "map:anycast"],
           ["merge:anycast+broadcast", "merge:fake+fake"]]
TIMERS = [["timer", "fake"], ["timer", "event"], ["map:timer", "broadcast"],
          ["merge:timer+fake", "anycast"]]

HARNESSES = {
    "S01": [Harness(
        "three", s01, BOUNDS,
        quick=dict(kinds=["fake"] * 3, msgs=4, steps=5, allow=["srcstop"], dup=True, asym=True),
        thorough=dict(kinds=["fake"] * 3, msgs=4, steps=7, allow=["srcstop"], dup=True),
        covers=["all stopped", "messages"]),
        Harness(
        "two", s01, BOUNDS + "; both have the same name",
        quick=dict(kinds=["fake"] * 2, same_name=True, msgs=3, steps=6, allow=["srcstop", "start"], bodygap=1),
        thorough=dict(kinds=["fake"] * 2, same_name=True, msgs=4, steps=8,
                      allow=["srcstop", "start"],
                      bodygap=1),
        covers=["all stopped", "messages"]),
        Harness(
        "kinds", s01_kinds, KBOUNDS,
        quick=dict(kindsets=KINDSETS, msgs=3, errs=1, ferr=True, steps=5, allow=[]),
        thorough=dict(kindsets=KINDSETS + TRIPLES, msgs=3, errs=1, ferr=True, steps=7,
                      allow=[], ticks=True),
        covers=["end"]),
        Harness(
        "timers", s01_kinds, KBOUNDS + "; a timer of any start time and lateness",
        quick=dict(kindsets=TIMERS, msgs=3, steps=5, allow=[]),
        thorough=dict(kindsets=TIMERS, msgs=3, steps=7, allow=[], ticks=True),
        covers=["end"], timers=True)],
    "S02": [Harness(
        "history", s02, BOUNDS + "; 5 ways to handle or not to handle each item",
        quick=dict(kinds=["fake"] * 2, msgs=3, steps=4, allow=["srcstop"]),
        covers=["unhandled raised", "all handled", "not handled"])],
    "S03": [Harness(
        "history", s03,
        "receivers: one of {kindsets}; up to {msgs} messages, {steps} steps; left at item "
        "0..{at}-1 by break, an error, an unhandled item or cancellation (also in the body)",
        quick=dict(kindsets=[["fake", "fake"], ["anycast", "broadcast"]], msgs=3, steps=5,
                   at=2, allow=["srcstop", "cancel"]),
        covers=["end: left", "end: body error", "end: unhandled", "end: cancelled",
                "cancelled in the body", "left message"]),
        Harness(
        "kinds", s03_kinds, KBOUNDS + "; left at item 0..{at}-1 in all ways",
        quick=dict(kindsets=KINDSETS, msgs=2, steps=4, at=2, allow=["cancel"]),
        thorough=dict(kindsets=KINDSETS + TRIPLES, msgs=3, errs=1, steps=6, at=2,
                      allow=["cancel"], ticks=True),
        covers=["end: left", "end: body error", "end: unhandled", "end: cancelled",
                "left message"]),
        Harness(
        "timers", s03_kinds, KBOUNDS + "; a timer of any start time and lateness",
        quick=dict(kindsets=TIMERS, msgs=2, steps=3, at=2, allow=["cancel"]),
        thorough=dict(kindsets=TIMERS, msgs=3, steps=6, at=2, allow=["cancel"], ticks=True),
        covers=["end: left", "end: body error", "end: unhandled", "end: cancelled",
                "left message"], timers=True)],
    "S04": [Harness(
        "history", s04, BOUNDS + "; {errs} errors of kind {errkinds} (of consume/ready)",
        quick=dict(kinds=["fake"] * 2, msgs=3, errs=2, errkinds=["err", "rerr"], steps=5,
                   allow=["srcstop", "err"]),
        covers=["select error", "consume error"])],
}
