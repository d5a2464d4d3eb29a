"""The symbolic environment of a scenario."""
from __future__ import annotations

import datetime

import z3

from . import core, shims
from .core import SymBool, SymFloat, SymInt, SymObj, SymTimedelta
from .env import MAXCLOCK, BaseEnv


def _truth(c):
    return bool(c)


def _b(c):
    return core.as_bool(c)


class SymEnv(BaseEnv):
    symbolic = True
    known = ()   # labels of known findings of this property

    def __init__(self, ns, params, x):
        super().__init__(ns, params)
        self.x = x

    def choice(self, name, n):
        return self.x.choose(name, n)

    def flag(self, name):
        return bool(self.x.choose(name, 2))

    def int(self, name, lo, hi):
        nm = self.x.int_name(name, lo, hi)
        return SymInt(core.var_term(nm), nm)

    def msg(self, name):
        return SymObj(self.x.fresh_name(name), self.x)

    def pset(self, items, name):
        return shims.PermSet.labelled(items, self.x.fresh_name(name))

    def set_perm(self, k):
        self.x.perm = k

    def td(self, us):
        return SymTimedelta._mk(core._num(us))

    def us(self, td):
        return SymInt(core.td_us(td))

    def is_td(self, x):
        return isinstance(x, (SymTimedelta, datetime.timedelta))

    def check(self, cond, label):
        self.x.check(cond, label)

    def assume(self, cond):
        self.x.require(cond)

    def finding(self, label, cond=False):
        """A check that is listed as a known finding (or fails if it is not)."""
        if label not in self.known:
            self.check(cond, label)
        elif not _truth(cond):
            raise core.KnownFinding(label)

    def all(self, conds):
        return SymBool(z3.And([_b(c) for c in conds] or [z3.BoolVal(True)]))

    def any(self, conds):
        return SymBool(z3.Or([_b(c) for c in conds] or [z3.BoolVal(False)]))

    def ite(self, c, a, b):
        return SymInt(z3.If(_b(c), core._num(a), core._num(b)))

    def implies(self, a, b):
        return SymBool(z3.Implies(_b(a), _b(b)))

    def mul(self, a, b):
        return a * b

    def fdiv(self, a, b):
        return a // b

    def mod(self, a, b):
        return a % b

    def near_us(self, t1, t0, us, tol):
        """|(t1 - t0) in microseconds - us| <= tol, without rounding."""
        d = (t1.e - t0.e) * 10**6 - z3.ToReal(core._num(us))
        return SymBool(z3.And(d <= tol, d >= -tol))

    def to_int(self, x):
        """Fork over the values of a small symbolic integer."""
        return core.realize(x) if type(x) is SymInt else x

    def make_clock(self, mode, hi=MAXCLOCK, jitter=0):
        self.clock = SymClock(self, mode, hi, jitter)
        self.loop.clock = self.clock
        return self.clock


class SymClock:
    """See ConcClock."""

    def __init__(self, env, mode, hi, jitter):
        self.env, self.mode, self.x = env, mode, env.x
        self.hi, self.jitter = hi, jitter
        self.readings = []
        self.early = 2
        if mode == "ragged":
            self.n = None
            t = self.x.real_var("t0", primary=True)
            self.x.assume(z3.And(t >= 0, t <= hi // 10**6))
            self.t = SymFloat(t)
        else:
            self.n = SymInt(self.x.int_var("t0", 0, hi))

    def read(self):
        if self.jitter:
            self.busy("jitter", self.jitter)
        self.readings.append(self.t if self.mode == "ragged" else self.n)
        return self.peek()

    def peek(self):
        return self.t if self.mode == "ragged" else self.reading(self.n)

    @staticmethod
    def reading(n):
        return SymFloat(None, ("q", z3.simplify(n.e), 10**6))

    def busy(self, name, hi):
        if self.mode == "ragged":
            t = self.x.real_var(name, primary=True)
            self.x.require(z3.And(t >= self.t.e, t <= self.hi // 10**6))
            self.t = SymFloat(t)
            return
        d = self.x.int_var(name, 0, hi)
        self.n = SymInt(self.n.e + d)
        self.x.require(self.n.e <= self.hi)

    def idle(self, when, res):
        """Advance to a moment at which the loop finds the handle due at `when`."""
        w = core._real(core._num(when))
        if self.mode == "ragged":
            t = self.x.real_var("idle", primary=True)
            self.x.require(z3.And(t >= self.t.e, t <= self.hi // 10**6,
                                  (SymFloat(t) + res).e > w))
            self.t = SymFloat(t)
            return
        n = self.x.int_var("idle")
        m = SymInt(n)
        r = self.reading(m)
        if res > 1e-6:
            # a coarse clock: the loop may wake up early (boundedly often)
            if self.early > 0 and self.env.flag("early"):
                self.early -= 1
            else:
                res = 0.0
        e = (r + res).e
        self.x.require(z3.And(n >= self.n.e, n <= self.hi, e > w if res else e >= w))
        if self.mode == "punctual":
            p = self.reading(SymInt(n - 1))
            self.x.require(z3.Or(n == self.n.e, (p + res).e <= w))
        self.n = m
