"""Timers over a symbolic clock."""
import asyncio

from symx.harness_loader import Harness

MAX = 2**50
SMALL = 2**40


class Spec:
    """Next scheduled time according to the documentation of each policy."""

    def __init__(self, env, kind, interval):
        self.env, self.kind, self.interval = env, kind, interval
        t = env.ns.timer
        self.tol = 0
        self.asked = []
        if kind == "all":
            self.policy = t.TriggerAllMissed()
        elif kind == "resync":
            self.policy = t.SkipMissedAndResync()
        elif kind == "drift":
            if env.p.get("default_tolerance"):
                self.policy = t.SkipMissedAndDrift()
            else:
                self.tol = env.int("tolerance", 0, MAX)
                self.policy = t.SkipMissedAndDrift(delay_tolerance=env.td(self.tol))
        else:
            self.policy = self.custom()

    def custom(self):
        """A policy whose answers are inputs."""
        spec, env = self, self.env

        class Custom(env.ns.timer.MissedTickPolicy):
            def calculate_next_tick_time(self, *, interval, scheduled_tick_time, now):
                n = env.int("next", 0, MAX)
                spec.asked.append((interval, scheduled_tick_time, now, n))
                return n
        return Custom()

    def next(self, sched, r):
        """The next scheduled time after a tick scheduled at sched and delivered at r."""
        env, i = self.env, self.interval
        if self.kind == "all":
            return sched + i
        if self.kind == "resync":
            return r + i - env.mod(r - sched, i)
        if self.kind == "drift":
            return env.ite(r - sched > self.tol, r + i, sched + i)
        asked = self.asked.pop(0)
        env.check(not self.asked, "the policy was asked twice for one tick")
        env.check(asked[0] == i, "the policy got another interval")
        env.check(asked[1] == sched, "the policy got another scheduled time")
        env.check(asked[2] == r, "the policy got another current time")
        return asked[3]


def interval(env):
    """The interval in microseconds: any, or one of a list."""
    iv = env.p["intervals"]
    if iv == "any":
        return env.int("interval", 1, env.p.get("max", MAX))
    return iv[env.choice("interval", len(iv))]


async def ticks(env):
    """Receive some ticks; the loop is busy or idle in between for any time."""
    p = env.p
    i = interval(env)
    clock = env.make_clock(p.get("clock", "us"), p.get("max", MAX), p.get("jitter", 0))
    if p.get("coarse"):
        env.loop._clock_resolution = 1 / 64
    spec = Spec(env, p["policy"], i)
    delay = env.int("delay", 0, p.get("max", MAX)) if p.get("delay") else 0
    busy = p.get("busy", 1)
    n0 = len(clock.readings)
    timer = env.ns.timer.Timer(env.td(i), spec.policy, start_delay=env.td(delay))
    jitter = p.get("jitter", 0)
    if jitter:
        env.check(len(clock.readings) > n0, "the timer does not read the clock of the loop")
        env.assume(env.all([x == clock.n for x in clock.readings[n0:]]))
        start = clock.readings[-1] + delay
    else:
        start = clock.n + delay
    sched = start + i
    for k in range(p["ticks"]):
        if busy:
            clock.busy(f"busy{k}", p.get("max", MAX))
        how = env.choice(f"how{k}", p.get("hows", 1))
        n0 = len(clock.readings)
        if how == 0:
            drift = await timer.receive()
            now = clock.n
        elif how == 1:
            # consumed later than it triggered
            env.check(await timer.ready() is True, "ready() is not True")
            now = clock.n
            clock.busy(f"late{k}", p.get("max", MAX))
            env.check(await timer.ready() is True, "ready() is not True any more")
            drift = timer.consume()
            env.cover("consumed late")
        else:
            async for drift in timer:
                break
            now = clock.n
        late = env.us(drift)
        env.check(late >= 0, "a tick is early")
        if jitter:
            r = sched + late
            env.check(env.any([r == x for x in clock.readings[n0:]]),
                      "the lateness does not match any reading of the clock")
        else:
            r = now
            env.check(late == r - sched, "wrong lateness, or the tick of another time")
        if p.get("punctual"):
            env.check(late == 0, "a tick of an idle loop is late")
        sched = spec.next(sched, r)
    env.check(timer.is_running is True, "the timer stopped")
    env.check(env.us(timer.interval) == i, "the interval changed")
    env.check(timer.missed_tick_policy is spec.policy, "the policy changed")
    env.cover("ticks")


async def ragged(env):
    """Clock readings are arbitrary doubles: ticks stay within rounding of the ideal ones."""
    p = env.p
    i = interval(env)
    clock = env.make_clock("ragged", SMALL)
    spec = Spec(env, p["policy"], i)
    timer = env.ns.timer.Timer(env.td(i), spec.policy)
    t0 = clock.t
    for k in range(p["ticks"]):
        clock.busy(f"busy{k}", None)
        late = env.us(await timer.receive())
        env.check(late >= 0, "a tick is early")
        # in microseconds: late = (t - t0) - (k + 1) * interval, rounded twice
        env.check(env.near_us(clock.t, t0, late + (k + 1) * i, 2),
                  "the ticks are not where they should be")
    env.cover("ticks")


UNREAD = "consume() fails if reset() was called after ready() returned True"


async def lifecycle(env):
    """reset, stop, receive, ready/consume, cancel and passing time in any order."""
    p = env.p
    i = interval(env)
    clock = env.make_clock("us", SMALL)
    spec = Spec(env, p["policy"], i)
    auto = env.flag("auto_start")
    T = env.ns.timer.Timer
    if auto:
        delay = env.int("delay", 0, SMALL)
        timer = T(env.td(i), spec.policy, start_delay=env.td(delay))
        sched = clock.n + delay + i
        state = "running"
    else:
        timer = T(env.td(i), spec.policy, auto_start=False)
        sched, state = None, "new"
    task = op = None
    unread = None        # the lateness of a tick that ready() announced
    discarded = False    # reset() was called in between
    woken = False        # an unread tick of before a reset was delivered to a ready() task
    ncancel = 0

    async def do_receive():
        return await timer.receive()

    async def do_for():
        async for d in timer:
            return d
        raise env.ch.ReceiverStoppedError(timer)

    def started():
        """A receiving operation starts a new timer."""
        nonlocal state, sched
        if state == "new":
            state, sched = "running", clock.n + i

    def settled():
        """Whatever is due happened; nothing else did."""
        nonlocal task, sched, unread, discarded
        env.check(timer.is_running is (state == "running"), "is_running is wrong")
        if task is None:
            return
        if not task.done():
            env.check(state != "stopped", "it waits although the timer is stopped")
            env.check(unread is None or discarded, "it waits although there is a tick")
            env.check(clock.n < sched, "it waits although the tick is due")
            return
        out = env.outcome(task)
        task = None
        if out[0] == "cancelled":
            return
        if unread is not None and not discarded:
            late = unread
            unread = None if op != "ready" else unread
            env.cover("unread tick")
        elif state == "stopped":
            if op == "ready":
                env.check(out[0] == "ok" and out[1] is False, "ready() of a stopped timer")
            else:
                env.check(out[0] == "err", "a stopped timer ticks")
                env.check(isinstance(out[1], env.ch.ReceiverStoppedError), "wrong error")
                env.check(out[1].receiver is timer, "the stop names another receiver")
            env.cover("stopped")
            return
        else:
            env.check(clock.n >= sched, "a tick is early")
            late = clock.n - sched
            sched = spec.next(sched, clock.n)
            env.cover("tick")
            if op == "ready":
                unread, discarded = late, False
        env.check(out[0] == "ok", "a tick is missing")
        if op == "ready":
            env.check(out[1] is True, "ready() is not True")
        else:
            env.check(env.us(out[1]) == late, "wrong lateness")

    hurried = False
    prefix = p.get("prefix", [])
    for k in range(len(prefix) + p["steps"]):
        opts = ["time", "reset", "stop"]
        if task is None:
            opts += p["ops"]
            if unread is not None:
                opts.append("consume")
        elif ncancel < p["cancels"]:
            opts.append("cancel")
        if hurried:
            opts.remove("stop")      # (whether the tick triggered before it is not settled)
        if k < len(prefix):
            o = prefix[k]
        else:
            o = opts[env.choice(f"op{k}", len(opts))]
        if o == "time":
            clock.busy(f"busy{k}", SMALL)
        elif o == "reset":
            if env.choice(f"withdelay{k}", 2):
                d = env.int(f"delay{k}", 0, SMALL)
                timer.reset(start_delay=env.td(d))
            else:
                d = 0
                timer.reset()
            state, sched = "running", clock.n + d + i
            if unread is not None:
                discarded = True
            if task is not None:
                env.cover("reset while waiting")
        elif o == "stop":
            timer.stop()
            state = "stopped"
        elif o == "cancel":
            ncancel += 1
            task.cancel()
        elif o == "consume":
            try:
                v = timer.consume()
            except AssertionError:
                env.check(discarded, "a tick that ready() announced is missing")
                env.finding(UNREAD)
            except env.ch.ReceiverStoppedError:
                env.check(discarded and state == "stopped", "the unread tick is missing")
            else:
                env.check(not discarded, "a discarded tick is delivered")
                env.check(env.us(v) == unread, "wrong lateness")
                env.cover("consumed")
            unread, discarded = None, False
        else:
            if discarded:
                unread, discarded = None, False
            op = o
            started()
            task = env.spawn({"receive": do_receive, "for": do_for, "ready": timer.ready}[o]())
        hurried = False
        if o == "time" and task is not None and p.get("hurry") and env.flag(f"hurry{k}"):
            hurried = True
            env.cover("hurried")
            continue     # the next operation follows before the loop runs
        await env.settle()
        settled()
    await env.settle()
    settled()
    if p.get("final") and task is None:
        if discarded:
            unread, discarded = None, False
        op = "receive"
        started()
        task = env.spawn(do_receive())
        await env.settle()
        settled()
    if task is not None:
        clock.busy("last", SMALL)
        await env.settle()
        settled()
    env.check(env.us(timer.interval) == i, "the interval changed")
    env.cover("end")


async def negative_reset(env):
    """reset() with a negative delay fails and changes nothing."""
    clock = env.make_clock("us", SMALL)
    i = env.int("interval", 1, SMALL)
    spec = Spec(env, "all", i)
    timer = env.ns.timer.Timer(env.td(i), spec.policy)
    sched = clock.n + i
    clock.busy("busy", SMALL)
    d = env.int("delay", -SMALL, -1)
    try:
        timer.reset(start_delay=env.td(d))
        env.check(False, "reset() accepts a negative delay")
    except ValueError:
        env.cover("rejected")
    if env.flag("stop"):
        timer.stop()
        try:
            timer.reset(start_delay=env.td(d))
            env.check(False, "reset() accepts a negative delay")
        except ValueError:
            pass
        env.check(timer.is_running is False, "a failed reset() starts the timer")
        return
    late = env.us(await timer.receive())
    env.check(late == clock.n - sched, "a failed reset() changes the next tick")


TDMAX = 86399999999999999999
TDMIN = -86399999913600000000


async def arguments(env):
    """Any interval, delay and tolerance that a timedelta can hold."""
    env.make_clock("us", SMALL)
    t = env.ns.timer
    i = env.int("interval", TDMIN, TDMAX)
    d = env.int("delay", TDMIN, TDMAX)
    auto = env.flag("auto_start")
    kw = {}
    if env.flag("give delay"):
        kw["start_delay"] = env.td(d)
    else:
        d = 0
    if not auto or env.flag("give auto"):
        kw["auto_start"] = auto
    if env.flag("give loop"):
        kw["loop"] = env.loop
    pol = t.TriggerAllMissed()
    ok = env.all([i >= 1, d >= 0, d == 0 if not auto else True])
    try:
        timer = t.Timer(env.td(i), pol, **kw)
    except ValueError:
        env.check(env.all([ok == False]), "valid arguments are rejected")  # noqa: E712
        env.cover("rejected")
        return
    env.check(ok, "invalid arguments are accepted")
    env.check(timer.interval == env.td(i), "the interval is not kept exactly")
    env.check(timer.is_running is auto, "is_running is wrong")
    env.check(timer.loop is env.loop, "wrong loop")
    env.check(timer.missed_tick_policy is pol, "wrong policy")
    env.cover("accepted")


async def tolerance(env):
    t = env.ns.timer
    d = env.int("tolerance", TDMIN, TDMAX)
    try:
        pol = t.SkipMissedAndDrift(delay_tolerance=env.td(d))
    except ValueError:
        env.check(d < 0, "a valid tolerance is rejected")
        env.cover("rejected")
        return
    env.check(d >= 0, "a negative tolerance is accepted")
    env.check(pol.delay_tolerance == env.td(d), "the tolerance is not kept exactly")
    env.cover("accepted")


async def kept(env):
    """The interval and the tolerance reach the policy exactly."""
    t = env.ns.timer
    i = env.int("interval", 1, TDMAX // 4)
    tol = env.int("tolerance", 0, TDMAX // 4)
    seen = []

    class Custom(t.MissedTickPolicy):
        def calculate_next_tick_time(self, *, interval, scheduled_tick_time, now):
            seen.append((interval, scheduled_tick_time, now))
            return scheduled_tick_time + interval

    # a policy decides exactly at its tolerance
    pol = t.SkipMissedAndDrift(delay_tolerance=env.td(tol))
    sched, late = env.int("sched", 0, MAX), env.int("late", 0, TDMAX // 4)
    got = pol.calculate_next_tick_time(interval=i, scheduled_tick_time=sched, now=sched + late)
    env.check(got == env.ite(late > tol, sched + late + i, sched + i),
              "the tolerance is not applied exactly")
    got = t.SkipMissedAndResync().calculate_next_tick_time(
        interval=i, scheduled_tick_time=sched, now=sched + late)
    env.check(got == sched + late + i - env.mod(late, i), "not the next multiple")
    got = t.TriggerAllMissed().calculate_next_tick_time(
        interval=i, scheduled_tick_time=sched, now=sched + late)
    env.check(got == sched + i, "not the next tick")
    env.cover("end")


HOWS = 3
CONST = [1, 2, 3, 1000, 999_983, 10**6, 86_400 * 10**6]

HARNESSES = {
    "T01": [Harness(
        "ticks", ticks,
        "any interval, start delay, start time up to 2**50 us; {ticks} ticks, before each "
        "the loop is busy for any time and then idle; received in {hows} ways",
        quick=dict(policy="all", intervals="any", ticks=4, hows=2, delay=True),
        thorough=dict(policy="all", intervals="any", ticks=6, hows=3, delay=True),
        covers=["ticks", "consumed late"], timers=True)],
    "T02": [Harness(
        "constant", ticks,
        "intervals {intervals} us, any start time and delay; {ticks} ticks",
        quick=dict(policy="resync", intervals=CONST, ticks=3, hows=2),
        thorough=dict(policy="resync", intervals=CONST, ticks=5, hows=3, delay=True),
        covers=["ticks", "consumed late"], timers=True),
        Harness(
        "any", ticks,
        "any interval, start time up to 2**50 us; {ticks} ticks",
        quick=dict(policy="resync", intervals="any", ticks=3, hows=1),
        covers=["ticks"], timers=True, soft=True, solver_ms=10000)],
    "T03": [Harness(
        "ticks", ticks,
        "any interval, tolerance, start time up to 2**50 us; {ticks} ticks",
        quick=dict(policy="drift", intervals="any", ticks=3, hows=2),
        thorough=dict(policy="drift", intervals="any", ticks=5, hows=3, delay=True),
        covers=["ticks", "consumed late"], timers=True),
        Harness(
        "default", ticks, "as above with the default tolerance",
        quick=dict(policy="drift", default_tolerance=True, intervals="any", ticks=2, hows=2),
        covers=["ticks"], timers=True)],
    "T04": [Harness(
        "custom", ticks,
        "a policy that answers anything; any interval; {ticks} ticks",
        quick=dict(policy="custom", intervals="any", ticks=3, hows=3),
        thorough=dict(policy="custom", intervals="any", ticks=4, hows=3, delay=True),
        covers=["ticks", "consumed late"], timers=True),
        Harness(
        "punctual", ticks,
        "the loop is never busy, clock up to 2**40 us; {ticks} ticks",
        quick=dict(policy="drift", intervals="any", ticks=3, busy=0, clock="punctual",
                   punctual=True, max=SMALL, delay=True),
        covers=["ticks"], timers=True),
        Harness(
        "jitter", ticks,
        "the clock advances by up to {jitter} us with every reading; {ticks} ticks",
        quick=dict(policy="drift", intervals="any", ticks=2, jitter=10**9),
        thorough=dict(policy="drift", intervals="any", ticks=3, jitter=10**9),
        covers=["ticks"], timers=True),
        Harness(
        "ragged", ragged,
        "clock readings are any doubles up to 2**40 us, any interval; {ticks} ticks of a "
        "trigger-all timer, within 2 us",
        quick=dict(policy="all", intervals="any", max=SMALL, ticks=2),
        thorough=dict(policy="all", intervals="any", max=SMALL, ticks=3),
        covers=["ticks"], timers=True),
        Harness(
        "coarse", ticks,
        "the clock has a resolution of 1/64 s, so the loop may wake up early (twice)",
        quick=dict(policy="all", intervals="any", max=SMALL, ticks=2, coarse=True),
        covers=["ticks"], timers=True)],
    "T05": [Harness(
        "lifecycle", lifecycle,
        "any interval, delays and passing times up to 2**40 us; started or not; {steps} "
        "steps: time passes, reset, stop, {ops}, consume, cancel",
        quick=dict(policy="all", intervals="any", max=SMALL, steps=4, cancels=1,
                   ops=["receive", "ready", "for"]),
        thorough=dict(policy="all", intervals="any", max=SMALL, steps=6, cancels=1,
                      ops=["receive", "ready"]),
        covers=["tick", "stopped", "reset while waiting", "unread tick", "consumed", "end"],
        timers=True),
        Harness(
        "unread", lifecycle,
        "as above, after {prefix}: {steps} steps, then a receive",
        quick=dict(policy="all", intervals="any", max=SMALL, prefix=["time", "ready"], steps=3,
                   cancels=1, ops=["receive", "ready"], final=True),
        thorough=dict(policy="all", intervals="any", max=SMALL, prefix=["time", "ready"],
                      steps=4, cancels=1, ops=["receive", "ready", "for"], final=True),
        covers=["tick", "stopped", "unread tick", "consumed", "end"], timers=True),
        Harness(
        "hurried", lifecycle,
        "as above, after {prefix}: {steps} steps, some of them before the loop runs, and so "
        "before a waiting task learns of the tick",
        quick=dict(policy="all", intervals="any", max=SMALL, prefix=["receive"], steps=3,
                   cancels=1, ops=["receive", "ready"], hurry=True, final=True),
        thorough=dict(policy="all", intervals="any", max=SMALL, prefix=["receive"], steps=5,
                      cancels=1, ops=["receive"], hurry=True, final=True),
        covers=["tick", "stopped", "hurried", "reset while waiting", "end"], timers=True),
        Harness(
        "negative", negative_reset, "any interval and negative delay up to 2**40 us",
        covers=["rejected"], timers=True)],
    "T06": [Harness(
        "arguments", arguments, "every interval and delay that a timedelta can hold",
        covers=["accepted", "rejected"], timers=True),
        Harness(
        "tolerance", tolerance, "every tolerance that a timedelta can hold",
        covers=["accepted", "rejected"], timers=True),
        Harness(
        "kept", kept,
        "policies applied to any interval and tolerance up to 684000 years",
        covers=["end"], timers=True)],
}
