"""The interface between scenarios and their environment, and its concrete version.

This module must not import z3: it is also used by the concrete replay, which runs the
same scenarios on the unmodified package under the repository's own interpreter.
"""
from __future__ import annotations

import asyncio
import datetime
import weakref

US = datetime.timedelta(microseconds=1)
MAXCLOCK = 2**50  # microseconds; readings up to ~35 years


class CheckFailed(SystemExit):
    """A check failed in a concrete run (SystemExit: gets through tasks)."""

    def __init__(self, label):
        super().__init__(label)
        self.label = label


class AssumeFailed(SystemExit):
    """An assumption does not hold for the given inputs."""


class BaseEnv:
    symbolic = False

    def __init__(self, ns, params):
        self.ns = ns
        self.ch = ns.ch
        self.p = params
        self.trace = []
        self.covers = set()
        self.loop = None
        self.clock = None
        self.settled = 0
        self.awatch_impl = None
        self.spawned = weakref.WeakSet()    # tasks of the scenario itself

    # -- observations ---------------------------------------------------------------
    def log(self, *a):
        self.trace.append(" ".join(map(str, a)))

    def cover(self, label):
        self.covers.add(label)

    # -- tasks ----------------------------------------------------------------------
    def spawn(self, coro):
        t = self.loop.create_task(coro)
        t._log_destroy_pending = False
        self.spawned.add(t)
        return t

    async def ticks(self, n):
        for _ in range(n):
            await asyncio.sleep(0)

    async def gap(self, name, n):
        """A symbolic number (0..n) of loop iterations."""
        k = self.choice(name, n + 1)
        for _ in range(k):
            await asyncio.sleep(0)
        return k

    async def settle(self, limit=3000):
        """Run until nothing but the caller can run."""
        for _ in range(limit):
            await asyncio.sleep(0)
            if not self.loop._ready:
                return
        self.check(False, "the system does not become quiescent")

    def other_tasks(self):
        cur = asyncio.current_task(self.loop)
        return [t for t in asyncio.all_tasks(self.loop) if t is not cur]

    @staticmethod
    def outcome(t):
        """('pending',) | ('ok', value) | ('err', exception) | ('cancelled',)"""
        if not t.done():
            return ("pending",)
        if t.cancelled():
            return ("cancelled",)
        if t.exception() is not None:
            return ("err", t.exception())
        return ("ok", t.result())

    async def guard(self, aw):
        """Await, turning the result into an outcome tuple."""
        try:
            return ("ok", await aw)
        except asyncio.CancelledError:
            return ("cancelled",)
        except Exception as exc:  # pylint: disable=broad-except
            return ("err", exc)

    # -- checks shared by many scenarios ---------------------------------------------
    def expect(self, out, kind, label):
        self.check(out[0] == kind, f"{label}: expected {kind}, got {describe(out)}")

    def is_sender_closed(self, out, sender, chan):
        """SenderError of `sender` caused by a ChannelClosedError of `chan`."""
        if out[0] != "err" or not isinstance(out[1], self.ch.SenderError):
            return False
        e = out[1]
        return (e.sender is sender and isinstance(e.__cause__, self.ch.ChannelClosedError)
                and e.__cause__.channel is chan)

    def is_recv_closed(self, out, recv, chan):
        """ReceiverStoppedError of `recv` caused by a ChannelClosedError of `chan`."""
        if out[0] != "err" or not isinstance(out[1], self.ch.ReceiverStoppedError):
            return False
        e = out[1]
        return (e.receiver is recv and isinstance(e.__cause__, self.ch.ChannelClosedError)
                and e.__cause__.channel is chan)


def describe(out):
    if out[0] == "err":
        return f"err:{type(out[1]).__name__}"
    return out[0]


class Msg:
    """A concrete opaque message."""

    def __init__(self, tag, key, falsy, unhashable):
        self.tag, self.key, self.falsy, self.unhashable = tag, key, falsy, unhashable

    def __bool__(self):
        return not self.falsy

    def __eq__(self, o):
        return o is self or isinstance(o, Msg) and o.key == self.key

    def __hash__(self):
        if self.unhashable:
            raise TypeError("unhashable message")
        return 7

    def __repr__(self):
        return f"<msg {self.tag}>"


class ArrayMsg(Msg):
    """A message without a truth value, such as an array."""

    def __bool__(self):
        raise ValueError("the truth value is ambiguous")

    def __eq__(self, o):
        if o is self:
            return True
        raise ValueError("the truth value is ambiguous")

    __hash__ = Msg.__hash__


class AnyMsg(Msg):
    """A message that is equal to everything."""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = Msg.__hash__


class ErrorMsg(Msg, KeyError, IndexError, ValueError, TypeError, RuntimeError,
               ArithmeticError, AssertionError, EOFError, ReferenceError, BufferError):
    """A message that is an exception."""

    __str__ = Msg.__repr__
    __init__ = Msg.__init__
    __repr__ = Msg.__repr__


def arranged(items, perm):
    """One of the orders of long histories: as added, reversed, or rotated."""
    items = list(items)
    if perm == 0:
        return items
    if perm == 1:
        return items[::-1]
    k = len(items) // 2
    return items[k:] + items[:k]


class OrderedResult(set):
    """The set returned by a patched asyncio.wait: iterates in a given order."""

    def __init__(self, items, env, label):
        super().__init__(items)
        self._items = list(items)
        self._env, self._label, self._its = env, label, 0

    def _live(self):
        return [x for x in self._items if set.__contains__(self, x)]

    def add(self, x):
        if x not in self:
            self._items.append(x)
        super().add(x)

    def __iter__(self):
        items = self._live()
        if len(items) < 2:
            return iter(items)
        if self._env.perm is not None:
            return iter(arranged(items, self._env.perm))
        name = f"{self._label}.it{self._its}"
        self._its += 1
        out = []
        k = 0
        while len(items) > 1:
            out.append(items.pop(self._env.choice(f"{name}.{k}", len(items))))
            k += 1
        return iter(out + items)

    def pop(self):
        items = self._live()
        if not items:
            raise KeyError("pop from an empty set")
        x = items[0]
        if len(items) > 1 and self._env.perm is not None:
            x = arranged(items, self._env.perm)[0]
        elif len(items) > 1:
            name = f"{self._label}.pop{self._its}"
            self._its += 1
            x = items[self._env.choice(name, len(items))]
        super().discard(x)
        self._items = [y for y in self._items if y is not x]
        return x

    def __reduce__(self):
        return (set, (list(self._items),))


class ConcEnv(BaseEnv):
    """Runs a scenario on the real code with the inputs of a counterexample."""

    def __init__(self, ns, params, inputs):
        super().__init__(ns, params)
        self.inputs = inputs
        self.names = {}
        self.missing = []
        self.nchecks = 0
        self.perm = None

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else f"{base}#{n}"

    def _get(self, name, dflt):
        name = self.fresh_name(name)
        if name in self.inputs:
            return self.inputs[name]
        self.missing.append(name)
        return dflt

    def choice(self, name, n):
        if n <= 1:
            return 0
        v = self._get(name, 0)
        return v if 0 <= v < n else 0

    def flag(self, name):
        return bool(self.choice(name, 2))

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def msg(self, name):
        none = self._get(f"{name}.none", False)
        falsy = self._get(f"{name}.falsy", False)
        key = self._get(f"{name}.key", 0)
        un = self.inputs.get(f"{name}.unhashable", False)
        kind = self.inputs.get(f"{name}.kind", 0)
        return None if none else (Msg, ArrayMsg, AnyMsg, ErrorMsg)[kind](name, key, falsy, un)

    def pset(self, items, name):
        return OrderedResult(items, self, self.fresh_name(name))

    def set_perm(self, k):
        """From now on all sets iterate in one of three orders."""
        self.perm = k

    def td(self, us):
        return us * US

    def us(self, td):
        return td // US

    def is_td(self, x):
        return isinstance(x, datetime.timedelta)

    def check(self, cond, label):
        self.nchecks += 1
        if not cond:
            raise CheckFailed(label)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def finding(self, label, cond=False):
        self.check(cond, label)

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def ite(self, c, a, b):
        return a if c else b

    def implies(self, a, b):
        return (not a) or bool(b)

    def mul(self, a, b):
        return a * b

    def fdiv(self, a, b):
        return a // b

    def mod(self, a, b):
        return a % b

    def near_us(self, t1, t0, us, tol):
        from fractions import Fraction
        return abs((Fraction(t1) - Fraction(t0)) * 10**6 - us) <= tol

    def to_int(self, x):
        return x

    def make_clock(self, mode, hi=MAXCLOCK, jitter=0):
        self.clock = ConcClock(self, mode, jitter)
        self.loop.clock = self.clock
        return self.clock


class ConcClock:
    """Clock of a concrete replay. `n` is the current time in microseconds.

    Modes: us (readings are whole microseconds, idle waits end arbitrarily late), punctual
    (ditto, idle waits end as early as the loop allows), ragged (readings are arbitrary
    doubles, given as rationals).
    """

    def __init__(self, env, mode, jitter):
        self.env, self.mode, self.jitter = env, mode, jitter
        self.readings = []
        self.early = 2
        if mode == "ragged":
            self.t = self._real(env._get("t0", ["0", "1"]))
            self.n = None
        else:
            self.n = env._get("t0", 0)

    @staticmethod
    def _real(v):
        return int(v[0]) / int(v[1])

    def read(self):
        if self.jitter:
            self.busy("jitter", self.jitter)
        self.readings.append(self.t if self.mode == "ragged" else self.n)
        return self.peek()

    def peek(self):
        return self.t if self.mode == "ragged" else self.n / 10**6

    def busy(self, name, hi):
        if self.mode == "ragged":
            self.t = max(self.t, self._real(self.env._get(name, ["0", "1"])))
        else:
            self.n += self.env._get(name, 0)

    def idle(self, when, res):
        if self.mode == "ragged":
            v = self._real(self.env._get("idle", ["0", "1"]))
            import math
            while not v + res > when:
                v = when if v < when else math.nextafter(v, math.inf)
            self.t = max(self.t, v)
            return
        v = self.env._get("idle", None)
        if self.mode == "punctual":
            v = None
        if res > 1e-6:
            if self.early > 0 and self.env.flag("early"):
                self.early -= 1
            else:
                res = 0.0
        low = self.n

        def due(n):
            return n / 10**6 + res > when if res else n / 10**6 >= when
        if not due(low):
            low = max(low, int((when - res) * 10**6) - 3)
            while not due(low):
                low += 1
        if v is None or v < low:
            v = low
        self.n = v
