"""What is kept, who gets a turn, and what looking at something does."""
import asyncio
import collections
import contextvars
import copy
import gc
import types
import weakref

from symx.harness_loader import Harness

from ._common import look
from ._fake import fake_class
from ._sources import make
from .long_ import restarts


class Token:
    """A message that can be watched."""

    def __init__(self, n):
        self.n = n


# ---- nothing that was handed out is kept ---------------------------------------------------
ATOMS = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, types.CodeType,
         types.FrameType, contextvars.Context, asyncio.AbstractEventLoop, str, bytes, int,
         float, bool, type(None), types.MethodDescriptorType, types.WrapperDescriptorType,
         property, staticmethod, classmethod)


def module_roots(env):
    """Containers that live as long as the modules of the package do."""
    out = []
    for name, m in vars(env.ns).items():
        if not isinstance(m, types.ModuleType):
            continue
        names = [m] + [v for v in vars(m).values() if isinstance(v, types.ModuleType)
                       and v.__name__.startswith(m.__name__.split(".")[0] + ".")]
        for mod in names:
            for v in vars(mod).values():
                if isinstance(v, type) and str(v.__module__).startswith("frequenz"):
                    out += [x for x in vars(v).values() if not isinstance(x, ATOMS)]
                    funs = [x for x in vars(v).values() if isinstance(x, types.FunctionType)]
                elif isinstance(v, types.FunctionType):
                    funs = [v]
                else:
                    funs = []
                    if isinstance(v, (list, dict, set, collections.deque,
                                      weakref.WeakSet, weakref.WeakValueDictionary,
                                      weakref.WeakKeyDictionary)) and v is not vars(mod):
                        out.append(v)
                for f in funs:
                    out += [x for x in f.__defaults__ or ()]
                    out += list((f.__kwdefaults__ or {}).values())
    return [x for x in out if not isinstance(x, ATOMS)]


def reach(env, roots):
    """The number of objects that can be reached from these."""
    seen = {id(env): env, id(env.ns): env.ns, id(env.p): env.p}
    skip = len(seen)
    todo = list(roots)
    while todo:
        x = todo.pop()
        if isinstance(x, ATOMS) or id(x) in seen:
            continue
        if str(getattr(type(x), "__module__", "")).startswith(("z3", "symx.core")):
            continue
        seen[id(x)] = x
        todo += gc.get_referents(x)
    return len(seen) - skip


class Subject:
    """Receivers over channels with known small limits, and how to use them."""

    def __init__(self, env, kind):
        self.env, self.kind = env, kind
        self.others = 3 * env.choice("others", 2)
        self.unread = []         # receivers that nobody reads
        self.recv, self.sends, self.chans, self.extra = self.build(kind)
        self.nsent = 0
        self.refs = []

    def build(self, kind):
        env, ch = self.env, self.env.ch
        if kind in ("anycast", "broadcast", "resend"):
            c = (ch.Anycast(name="c", limit=2) if kind == "anycast" else
                 ch.Broadcast(name="c", resend_latest=kind == "resend"))
            r = c.new_receiver() if kind == "anycast" else c.new_receiver(limit=2)
            others = ([c.new_receiver(limit=1) for _ in range(self.others)]
                      if kind != "anycast" else [])
            self.unread += others
            return r, [c.new_sender()], [c], []
        if kind == "event":
            e = env.ns.event.Event(name="e")

            class Set:
                async def send(self, _m):
                    e.set()
            return e, [Set()], [], []
        if kind.startswith("map:"):
            r, s, c, x = self.build(kind[4:])
            return r.map(lambda m: (m, )), s, c, x + [r]
        if kind.startswith(("merge:", "select:")):
            parts = [self.build(k) for k in kind.split(":", 1)[1].split("+")]
            s = [y for q in parts for y in q[1]]
            c = [y for q in parts for y in q[2]]
            x = [y for q in parts for y in q[3]] + [q[0] for q in parts]
            if kind.startswith("merge:"):
                return ch.merge(*[q[0] for q in parts]), s, c, x
            return self.selecting(ch.select(*[q[0] for q in parts]),
                                  [q[0] for q in parts]), s, c, x
        raise ValueError(kind)

    def selecting(self, gen, recvs):
        env = self.env

        class Selecting:
            """receive() by the next item of a select."""

            def __init__(self):
                self.gen = gen

            async def receive(self):
                sel = await anext(self.gen)
                env.check(any([env.ch.selected_from(sel, r) for r in recvs]), "whose is it?")
                return sel.message
        return Selecting()

    def token(self):
        t = Token(self.nsent)
        self.nsent += 1
        self.refs.append(weakref.ref(t))
        return t

    def roots(self):
        return [self.recv, self.sends, self.chans, self.extra, self.unread]

    def alive(self):
        return sum(r() is not None for r in self.refs)


async def growth(env):
    """A cycle of operations, repeated: what can be reached afterwards stays the same."""
    p = env.p
    env.set_perm(env.choice("order", 2))
    kind = p["kinds"][env.choice("kind", len(p["kinds"]))]
    s = Subject(env, kind)
    selects = kind.startswith("select:")
    ops = ["send", "recv", "gone recv", "gone send", "new", "guest", "settle"]
    if not selects:
        ops.append("peek")
    else:
        ops.remove("gone recv")       # (that ends the select)
    cyc = [ops[env.choice(f"op{i}", len(ops))] for i in range(p["cycle"])]
    fixed = module_roots(env)
    tasks = []

    async def send(i):
        await s.sends[i % len(s.sends)].send(s.token())

    async def recv():
        await s.recv.receive()

    async def give_up(coro):
        t = env.spawn(coro)
        await env.settle()
        if t.done():
            return
        t.cancel()
        await env.settle()

    async def drain():
        """Every waiting send and receive ends, the buffers are emptied."""
        for i in range(20):
            await env.settle()
            if not tasks:
                t = env.spawn(recv())
                await env.settle()
                if t.done():
                    env.check(env.outcome(t)[0] == "ok", "a receive failed")
                    continue
                # (every channel gets a message, so that it can forget what is gone)
                tasks.append(t)
            live = [t for t in tasks if not t.done()]
            tasks[:] = live
            if not live:
                break
            await give_up(send(i))
        for i in range(len(s.sends)):
            await give_up(send(i))
            await give_up(recv())
        while True:
            if selects:
                n = sum(len(r) for r in s.extra if hasattr(r, "__len__"))
                if not n:
                    break
            t = env.spawn(recv())
            await env.settle()
            if not t.done():
                t.cancel()
                await env.settle()
                break

    async def once():
        guests = []      # receivers that nobody uses, dropped at the end of the cycle
        for k, o in enumerate(cyc):
            tasks[:] = [t for t in tasks if not t.done()]
            if o == "send":
                tasks.append(env.spawn(send(k)))
            elif o == "recv":
                if not any(t.get_name() == "recv" for t in tasks):
                    t = env.spawn(recv())
                    t.set_name("recv")
                    tasks.append(t)
            elif o == "gone recv":
                if not any(t.get_name() == "recv" for t in tasks):
                    await give_up(recv())
            elif o == "gone send":
                await give_up(send(k))
            elif o == "new":
                for c in s.chans:
                    c.new_sender()
                    c.new_receiver()
            elif o == "guest":
                if kind != "anycast":
                    guests.extend(c.new_receiver(limit=3) for c in s.chans
                                  if isinstance(c, env.ch.Broadcast))
            elif o == "peek":
                if not any(t.get_name() == "recv" for t in tasks):
                    await give_up(s.recv.ready())
            else:
                await env.settle()

    sizes = []
    for r in range(p["reps"]):
        await once()
        await drain()
        tasks.clear()
        t = None
        if r in (1, p["reps"] - 1):
            gc.collect()
            sizes.append((s.alive(), reach(env, s.roots() + fixed)))
    env.check(sizes[1][0] <= sizes[0][0], "messages are kept that everybody received or lost")
    env.check(sizes[1][1] <= sizes[0][1], "more and more is kept")
    env.check(sizes[1][0] <= 4 * len(s.chans), "old messages are kept")
    env.cover("cycle")
    env.log(kind, cyc)


async def freed(env):
    """After any history: what is alive can still be received, or is the latest message."""
    p = env.p
    env.set_perm(env.choice("order", 2))
    kind = p["kinds"][env.choice("kind", len(p["kinds"]))]
    s = Subject(env, kind)
    selects = kind.startswith("select:")
    simple = kind in ("anycast", "broadcast", "resend")
    ops = ["send", "recv", "settle"] + ["gone recv", "peek"] * (not selects) + ["drop"] * simple
    latest = {}              # channel -> number of its latest message
    last = None              # number of the message received last
    tasks = []
    dropped = False

    async def send(i):
        i = i % len(s.sends)
        t = s.token()
        latest[i] = t.n
        await s.sends[i].send(t)

    async def recv():
        nonlocal last
        x = await s.recv.receive()
        while type(x) is tuple:
            x = x[0]
        last = x.n

    async def ready():
        await s.recv.ready()

    for k in range(p["steps"]):
        o = ops[env.choice(f"op{k}", len(ops))]
        reading = any(t.get_name() == "recv" and not t.done() for t in tasks)
        if o == "send":
            tasks.append(env.spawn(send(k)))
            dropped = False
        elif o == "settle":
            await env.settle()
        elif o == "drop":
            if not reading:
                c = s.chans[0]
                s.recv = None
                s.recv = (c.new_receiver() if kind == "anycast" else c.new_receiver(limit=2))
                dropped = True
        elif not reading:
            t = env.spawn(ready() if o == "peek" else recv())
            t.set_name("recv")
            tasks.append(t)
            t = None
            if o in ("gone recv", "peek"):
                await env.settle()
                tasks[-1].cancel()       # (if it still waits)
                await env.settle()
    if dropped:
        tasks.append(env.spawn(send(0)))
    await env.settle()
    tasks = [t for t in tasks if not t.done()]
    waiting = ([t for t in tasks if t.get_name() == "recv"] or [None])[0]
    gc.collect()
    kept = {n for n, r in enumerate(s.refs) if r() is not None}
    kept -= set(latest.values())
    if selects and last is not None:
        kept.discard(last)               # (the item is the one that is yielded)
    got = set()
    for _ in range(s.nsent + 2):
        if waiting is None or waiting.done():
            waiting = env.spawn(recv())
        await env.settle()
        if not waiting.done():
            break
        env.check(env.outcome(waiting)[0] == "ok", "a receive failed")
        got.add(last)
    env.check(kept <= got, "a message is kept that nobody can receive any more")
    if kept:
        env.cover("due")
    if len(kept) < s.nsent:
        env.cover("freed")
    env.log(kind, sorted(kept), sorted(got))


async def timer_growth(env):
    """The same for a timer that is received from, stopped and reset."""
    p = env.p
    clock = env.make_clock("punctual", 2**40)
    t = env.ns.timer
    policy = [t.TriggerAllMissed, t.SkipMissedAndResync, t.SkipMissedAndDrift][
        p["policies"][env.choice("policy", len(p["policies"]))]]()
    timer = t.Timer(env.td(1000), policy)
    ops = ["recv", "stop", "reset", "gone recv", "waited reset"]
    cyc = [ops[env.choice(f"op{i}", len(ops))] for i in range(p["cycle"])]
    fixed = module_roots(env)
    start = clock.n
    rested = env.flag("rested")          # every cycle ends with a normal tick

    async def once():
        for o in cyc:
            if o == "recv":
                await env.guard(timer.receive())
            elif o == "stop":
                timer.stop()
            elif o == "reset":
                timer.reset()
            else:
                x = env.spawn(env.guard(timer.receive()))
                await asyncio.sleep(0)
                await asyncio.sleep(0)
                if o == "waited reset":
                    timer.reset()
                    await x
                else:
                    x.cancel()
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)

    sizes = []
    for r in range(p["reps"]):
        await once()
        timer.reset()
        if rested:
            await timer.receive()
        if r in (1, p["reps"] - 1):
            gc.collect()
            sizes.append((sum(not h._cancelled for h in env.loop._scheduled),
                          reach(env, [timer] + fixed)))
    env.check(sizes[1][0] <= sizes[0][0], "more and more timers of the loop")
    env.check(sizes[1][1] <= sizes[0][1], "more and more is kept")
    env.check(clock.n > start or not rested, "no time passes")
    env.cover("cycle")
    env.log(cyc)


# ---- everybody gets a turn -----------------------------------------------------------------
async def turns(env):
    """Sources that always have something; one of them (or all) from some time on."""
    p = env.p
    env.set_perm(env.choice("order", 6))
    kinds = p["kinds"][env.choice("kinds", len(p["kinds"]))]
    n = len(kinds)
    how = env.choice("how", 4)           # select; a merge by receive, async for, ready
    late = env.choice("late", n + 1)     # its first message comes later
    late_at = env.choice("late at", p["late"]) if late < n else 0
    naps = env.choice("naps", 3)         # loop iterations that the consumer waits per item
    total = p["items"]
    recvs, sends = [], []
    for i, k in enumerate(kinds):
        if k == "fake":
            f = fake_class(env)(f"s{i}")
            recvs.append(f)
            sends.append(lambda m, f=f: f.push("msg", m))
        else:
            mapped = k.startswith("map:")
            c = (env.ch.Anycast(name="c", limit=10**4) if k.endswith("anycast")
                 else env.ch.Broadcast(name="c"))
            r = c.new_receiver() if k.endswith("anycast") else c.new_receiver(limit=10**4)
            recvs.append(r.map(lambda m: m) if mapped else r)
            snd = c.new_sender()
            sends.append(lambda m, snd=snd: env.spawn(snd.send(m)))

    def fill(i, k):
        for j in range(k):
            sends[i]((i, j))

    for i in range(n):
        if i != late:
            fill(i, total + 2)
    await env.settle()
    since = [0] * n if late == n else [0 if i != late else None for i in range(n)]
    got = [[0] * n for _ in range(n)]     # items of j since i could have been yielded

    async def items():
        if how == 0:
            async for sel in env.ch.select(*recvs):
                for i, r in enumerate(recvs):
                    if env.ch.selected_from(sel, r):
                        env.check(sel.message[0] == i, "from another receiver")
                yield sel.message
            return
        m = env.ch.merge(*recvs)
        if how == 1:
            while True:
                yield await m.receive()
        elif how == 2:
            async for x in m:
                yield x
        else:
            while await m.ready():
                yield m.consume()

    k = 0
    it = items()
    async for x in it:
        i = x[0]
        for j in range(n):
            if j == i:
                got[j] = [0] * n
            elif since[j] is not None:
                got[j][i] += 1
                env.check(got[j][i] <= p["bound"], "a source with messages gets no turn")
        k += 1
        if k == total:
            break
        if k == late_at + 1 and late < n:
            fill(late, total + 2)
            # (the sends have to happen before it counts)
            await asyncio.sleep(0)
            since[late] = k
        for _ in range(naps):
            await asyncio.sleep(0)
    await it.aclose()
    env.check(k == total, "it ended")
    if late < n and since[late] is not None:
        env.cover("late")
    env.cover("turns")


# ---- looking does nothing ------------------------------------------------------------------
async def watched(env):
    """The same operations twice: while nobody looks, and being looked at all the time."""
    p = env.p
    env.set_perm(env.choice("order", p.get("orders", 1)))
    kind = p["kinds"][env.choice("kind", len(p["kinds"]))]
    ops = ["push", "take", "ready", "wait", "gone", "stop"]
    plan = []
    gaps = env.choice("gaps", 3)         # the loop runs after every step, or the odd or even ones
    for i in range(p["steps"]):
        o = ops[env.choice(f"op{i}", len(ops))]
        plan.append((o, gaps == 2 or i % 2 == gaps))
        if o == "stop":
            ops.remove("stop")
            ops.remove("push")
    selected = p.get("select") and env.flag("select")
    ignored = env.choice("ignored", 3) - 1 if selected else -1
    first = await play(env, kind, plan, selected, ignored, False)
    second = await play(env, kind, plan, selected, ignored, True)
    env.check(first == second, "being looked at makes a difference")
    env.cover("same")
    if any(x[1] == "ok" for x in first):
        env.cover("received")
    env.log(kind, first)


LOOKED = ["anycast", "resend", "event", "fake", "file", "map:anycast",
          "merge:broadcast+fake", "map:merge:event+anycast"]


async def play(env, kind, plan, selected, ignored, looking):
    """Perform the plan; returns what could be seen."""
    seen, made = [], []

    def msg(_name):
        made.append(Token(len(made)))
        return made[-1]

    env.msg = msg
    s = make(env, kind)
    things = [s.recv]
    i = s
    while hasattr(i, "inner"):
        i = i.inner if not isinstance(i.inner, list) else i.inner[0]
        things.append(i.recv)
    for a in ("chan", "sender"):
        if hasattr(i, a):
            things.append(getattr(i, a))

    def see():
        if looking:
            look(env, *things)

    def note(what, out):
        v = out[1] if len(out) > 1 else None
        if out[0] == "err":
            if looking:
                look(env, v)
                e = v
                while e.__cause__ is not None:
                    e = e.__cause__
                    look(env, e)
            seen.append((what, "err", type(v).__name__, [type(x).__name__ for x in s.chain(v)]))
        else:
            while type(v) is tuple and len(v) == 2 and v[0] == "mapped":
                v = v[1]
            seen.append((what, out[0], v.n if isinstance(v, Token) else str(v)))

    gen = env.ch.select(s.recv) if selected else None
    items = 0

    async def take():
        if gen is None:
            return await s.recv.receive()
        try:
            sel = await anext(gen)
        except StopAsyncIteration:
            return "the end"
        nonlocal items
        items += 1
        if looking:
            look(env, sel, copy.copy(sel))
        if items != ignored + 1:
            env.check(env.ch.selected_from(sel, s.recv), "from another receiver")
        if looking:
            look(env, sel)
        if sel.exception is not None:
            raise sel.exception
        return sel.message

    see()
    task = None
    for o, settle in plan:
        if task is not None and task.done():
            note("wait", env.outcome(task))
            task = None
        if o == "push":
            s.push()
        elif o == "stop":
            s.stop()
        elif task is None and o in ("take", "ready", "wait", "gone"):
            if o == "wait" or kind.endswith("file"):
                task = env.spawn(take())
            elif o == "ready" and gen is None:
                task = env.spawn(s.recv.ready())
            elif gen is None or s.pending():
                t = env.spawn(take())
                await env.settle()
                if not t.done() and gen is None:
                    t.cancel()
                    await env.settle()
                if t.done():
                    note(o, env.outcome(t))
                else:
                    task = t
        see()
        if settle:
            await env.settle()
            see()
    if not s.stopped:
        s.stop()
    await env.settle()
    see()
    if task is not None:
        note("wait", env.outcome(task))
    for _ in range(len(plan) + 2):
        t = env.spawn(take())
        await env.settle()
        see()
        note("end", env.outcome(t))
    if gen is not None:
        await gen.aclose()
    return seen


FREED = ["anycast", "broadcast", "resend", "map:anycast", "merge:anycast+broadcast",
         "select:anycast+broadcast", "map:merge:broadcast+resend"]

HARNESSES = {
    "K01": [Harness("cycle", growth,
                    "every cycle of {cycle} operations (send, receive, peek, cancelled send or "
                    "receive, new ends that are dropped), repeated {reps} times, on {kinds}",
                    quick=dict(cycle=3, reps=5, kinds=[
                        "anycast", "broadcast", "resend", "map:anycast", "merge:anycast+broadcast",
                        "select:anycast+broadcast", "map:merge:broadcast+resend", "event",
                        "map:event"]),
                    thorough=dict(cycle=4, reps=6, kinds=[
                        "anycast", "broadcast", "resend", "map:anycast", "merge:anycast+broadcast",
                        "select:anycast+broadcast", "map:merge:broadcast+resend", "event",
                        "map:event"]),
                    covers=["cycle"]),
            Harness("freed", freed,
                    "every history of {steps} operations (send, receive, cancelled receive, "
                    "peek, a dropped receiver) on {kinds}",
                    quick=dict(steps=4, kinds=FREED), thorough=dict(steps=6, kinds=FREED),
                    covers=["due", "freed"]),
            Harness("timer", timer_growth,
                    "every cycle of {cycle} operations (receive, stop, reset, cancelled "
                    "receive, reset of a waiting one), repeated {reps} times, policies {policies} of "
                    "all, resync, drift",
                    quick=dict(cycle=3, reps=4, policies=[0, 2]),
                    thorough=dict(cycle=4, reps=5, policies=[0, 1, 2]),
                    covers=["cycle"], timers=True, path_timeout=120.0)],
    "K02": [Harness("turns", turns,
                    "{items} items of a select or a merge over {kinds}, all of which have "
                    "messages all the time, or one of them only from item 1..{late} on; the "
                    "consumer waits 0, 1 or 2 iterations per item; no more than {bound} items "
                    "of another source before its turn",
                    quick=dict(items=24, late=5, bound=3, kinds=[
                        ["fake", "fake"], ["fake", "anycast", "broadcast"],
                        ["map:broadcast", "broadcast", "fake", "anycast", "fake"]]),
                    thorough=dict(items=60, late=12, bound=3, kinds=[
                        ["fake", "fake"], ["fake", "anycast", "broadcast"],
                        ["map:broadcast", "broadcast", "fake", "anycast", "fake"],
                        ["anycast"] * 10, ["fake"] * 10]),
                    covers=["turns", "late"])],
    "K03": [Harness("looking", watched,
                    "every history of {steps} operations (push, receive, ready, cancelled "
                    "receive, stop) on {kinds}, by receive or select, twice",
                    quick=dict(steps=4, select=True, in_turn=True, callables=True,
                               kinds=LOOKED),
                    thorough=dict(steps=5, orders=2, select=True, in_turn=True,
                                  callables=True, kinds=LOOKED),
                    covers=["same", "received"]),
            Harness("timer", restarts,
                    "every cycle of {cycle} operations (receive, stop, reset, reset with a delay,"
                    " time passes), repeated {reps} times; any interval and delays; looked at "
                    "after every step",
                    quick=dict(cycle=2, reps=3, look=True),
                    thorough=dict(cycle=4, reps=4, look=True),
                    covers=["tick", "stopped", "end"], timers=True)],
}
