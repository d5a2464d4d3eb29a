"""Path-exploring symbolic execution core: solver, decisions, symbolic values.

A *path* is one execution of a scenario. Whenever Python code asks for the truth of a
symbolic condition (``SymBool.__bool__``), the explorer asks z3 which sides are feasible
under the current path condition, follows one and schedules the other. Scenarios are
re-executed from the start for every path; the solver keeps the common prefix of the
path condition on its assertion stack.
"""
from __future__ import annotations

import datetime as _dt
import os
import random
import time as _time
from fractions import Fraction

import z3

from .env import ErrorMsg


U = Fraction(1, 2**53)  # unit roundoff of a double


class PathEnd(SystemExit):
    """Unwinds the current path. SystemExit, so asyncio and user code let it through."""


class Infeasible(PathEnd):
    """The path condition became unsatisfiable."""


class Inconclusive(PathEnd):
    """The engine cannot decide (unsupported operation, solver gave up, ...)."""


class ViolationFound(PathEnd):
    """The path violates the property for some values."""


class KnownFinding(PathEnd):
    """The path shows a defect that is listed in known_findings.txt."""


class EngineError(RuntimeError):
    """The engine itself misbehaved."""


class Decision:
    __slots__ = ("value", "rest", "sig")

    def __init__(self, value, rest, sig):
        self.value = value
        self.rest = rest  # list of (value, constraint, known_feasible)
        self.sig = sig


EX: "Explorer | None" = None

# Terms over input variables, shared by all paths (names are deterministic).
_VARS: dict = {}
_LITS: dict = {}


def var_term(name):
    v = _VARS.get(name)
    if v is None:
        v = _VARS[name] = z3.Int(name)
    return v


def lit_term(name, op, c):
    k = (name, op, c)
    t = _LITS.get(k)
    if t is None:
        v = var_term(name)
        t = {"lt": lambda: v < c, "le": lambda: v <= c, "gt": lambda: v > c,
             "ge": lambda: v >= c, "eq": lambda: v == c, "ne": lambda: v != c}[op]()
        if len(_LITS) < 200000:
            _LITS[k] = t
    return t


def _logic():
    return z3.SolverFor("QF_LIRA")


def _preprocessed():
    return z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()


def _old_arith():
    s = z3.SimpleSolver()
    s.set("arith.solver", 2)
    return s


HARD = [_preprocessed, _old_arith, _logic]


def ex() -> "Explorer":
    if EX is None or EX.dead:
        raise PathEnd("no active path")
    return EX


class Explorer:
    """Depth-first exploration of the paths below a given decision prefix."""

    def __init__(self, prefix=(), seed=1, solver_timeout_ms=60000):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", min(2000, solver_timeout_ms))
        self.solver.set("random_seed", seed)
        self.solver_ms = solver_timeout_ms
        self.sat_model = None
        self.rng = random.Random(seed)
        self.prefix = list(prefix)
        self.trail: list[Decision] = []
        self.pos = 0
        self.dead = True
        self.model = None
        self.stats = dict(queries=0, solver_s=0.0, branches=0, choices=0, forced=0,
                          obligations=0, obligations_trivial=0, assumes=0, unknown=0)
        self._reset_path()

    # ---- path life cycle -------------------------------------------------------
    def _reset_path(self):
        self.pos = 0
        self.names = {}
        self.inputs = []  # (name, kind, z3 term)
        self.divcache = {}
        self.rndcache = {}
        self.divisors = []   # symbolic divisors
        self.delayed = []    # exact definitions of remainders, see _divmod_pos
        self.exact = False
        self.covers = set()
        self.objs = []
        self.bounds = {}
        self.known = {}
        self.cex = None
        self.label = None
        self.conds = 0

    def start(self):
        self._reset_path()
        self.perm = None
        self.model = None
        self.dead = False

    def finish(self):
        self.dead = True

    def next_path(self) -> bool:
        """Backtrack to the next unexplored alternative; False if there is none."""
        while self.trail:
            if len(self.trail) <= len(self.prefix):
                return False
            d = self.trail[-1]
            self.solver.pop()
            while d.rest:
                value, cons, known = d.rest.pop()
                self.solver.push()
                self.solver.add(cons)
                if known or self._check() == z3.sat:
                    d.value = value
                    self.model = None
                    return True
                self.solver.pop()
            self.trail.pop()
        return False

    def leftovers(self):
        """Prefixes of the unexplored alternatives (hands them to other workers)."""
        out = []
        vals = [d.value for d in self.trail]
        for i, d in enumerate(self.trail):
            if i < len(self.prefix):
                continue
            for value, _c, _k in d.rest:
                out.append(vals[:i] + [value])
        return out

    # ---- solver ----------------------------------------------------------------
    def _check(self):
        t = _time.perf_counter()
        r = z3.unknown
        if self.exact:
            r = self._check_hints()
        if r != z3.sat:
            r = self.solver.check()
            self.sat_model = None
            if r == z3.unknown:
                r = self._check_hard()
        self.stats["solver_s"] += _time.perf_counter() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def _check_hard(self):
        """The incremental solver gave up: try others from scratch."""
        self.stats["hard"] = self.stats.get("hard", 0) + 1
        if os.environ.get("SYMX_DUMP"):
            with open(f"/tmp/hard-{os.getpid()}-{self.stats['hard']}.smt2", "w",
                      encoding="utf-8") as f:
                f.write(self.solver.to_smt2())
        for make in HARD:
            s = make()
            s.set("timeout", max(1000, self.solver_ms // len(HARD)))
            s.add(self.solver.assertions())
            r = s.check()
            if r != z3.unknown:
                self.sat_model = s.model() if r == z3.sat else None
                return r
        return z3.unknown

    def get_model(self):
        """The model of the last satisfiable check."""
        return self.sat_model if self.sat_model is not None else self.solver.model()

    def _check_hints(self):
        """Products of variables: look for a model with simple divisors first."""
        self.sat_model = None
        for v in (1, 2, 3, 7, 1000, 10**6):
            r = self.solver.check(*[b == v for b in self.divisors])
            if r == z3.sat:
                return r
        return z3.unknown

    def _sat_exact(self, e):
        """As sat_with, with the exact definition of all remainders."""
        if not self.delayed:
            return self.sat_with(e)
        self.solver.push()
        self.solver.add(e)
        for d in self.delayed:
            self.solver.add(d)
        r = self._check_hints()
        if r != z3.sat:
            r = self._check()
        m = self.get_model() if r == z3.sat else None
        self.solver.pop()
        return r, m

    def sat_with(self, e):
        self.solver.push()
        self.solver.add(e)
        r = self._check()
        if r == z3.sat:
            m = self.get_model()
            self.solver.pop()
            return r, m
        self.solver.pop()
        return r, None

    def _replaying(self):
        return self.pos < len(self.trail)

    def assume(self, e):
        """Add a constraint that is known to be satisfiable with the path condition."""
        if isinstance(e, SymBool):
            e = e.e
        if self._replaying():
            return
        self.stats["assumes"] += 1
        self.solver.add(e)
        m = self.model
        if m is not None and not z3.is_true(m.eval(e, model_completion=True)):
            self.model = None

    def require(self, e):
        """Assume that may make the path infeasible."""
        if isinstance(e, SymBool):
            e = e.e
        if e is True:
            return
        if e is False:
            raise Infeasible()
        if self._replaying():
            return
        self.solver.add(e)
        self.model = None
        r = self._check()
        if r == z3.unsat:
            raise Infeasible()
        if r != z3.sat:
            raise Inconclusive("solver gave up on an assumption")
        self.model = self.get_model()

    def _push(self, value, cons, rest, sig):
        self.solver.push()
        self.solver.add(cons)
        self.trail.append(Decision(value, rest, sig))
        self.pos += 1

    # ---- literals over input variables -------------------------------------------
    def lit_value(self, lit):
        """Truth of (var op const) under the interval known for var, or None."""
        name, op, c = lit
        lo, hi = self.bounds.get(name, (None, None))
        if op == "lt":
            r = (hi is not None and hi < c, lo is not None and lo >= c)
        elif op == "le":
            r = (hi is not None and hi <= c, lo is not None and lo > c)
        elif op == "gt":
            r = (lo is not None and lo > c, hi is not None and hi <= c)
        elif op == "ge":
            r = (lo is not None and lo >= c, hi is not None and hi < c)
        else:
            out = lo is not None and c < lo or hi is not None and c > hi
            one = lo is not None and lo == hi == c
            r = (one, out) if op == "eq" else (out, one)
        return True if r[0] else False if r[1] else None

    def branch_lit(self, lit) -> bool:
        r = self.lit_value(lit)
        if r is not None:
            return r
        r = self.branch(lit_term(*lit), simple=True)
        name, op, c = lit
        if not r:
            op = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}[op]
        lo, hi = self.bounds.get(name, (None, None))
        if op in ("lt", "le", "eq"):
            n = c - 1 if op == "lt" else c
            hi = n if hi is None else min(hi, n)
        if op in ("gt", "ge", "eq"):
            n = c + 1 if op == "gt" else c
            lo = n if lo is None else max(lo, n)
        if op == "ne":
            if lo == c:
                lo = c + 1
            if hi == c:
                hi = c - 1
        self.bounds[name] = (lo, hi)
        return r

    def branch(self, e, simple=False) -> bool:
        if not simple:
            e = z3.simplify(e)
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
        k = self.known.get(e.get_id())
        if k is not None:
            return k[0]
        r = self._branch(e)
        self.known[e.get_id()] = (r, e)
        return r

    def _branch(self, e) -> bool:
        self.conds += 1
        if self.conds > 20000:
            raise Inconclusive("too many branches on one path")
        if self._replaying():
            d = self.trail[self.pos]
            if d.sig != "b":
                raise EngineError(f"non-deterministic replay: {d.sig} vs b")
            self.pos += 1
            return d.value
        if self.pos < len(self.prefix):
            v = bool(self.prefix[self.pos])
            self._push(v, e if v else z3.Not(e), [], "b")
            self.model = None
            return v
        self.stats["branches"] += 1
        ne = z3.Not(e)
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Inconclusive("solver gave up")
            self.model = self.get_model()
        val = self.model.eval(e, model_completion=True)
        if z3.is_true(val):
            first, fc, oc = True, e, ne
        elif z3.is_false(val):
            first, fc, oc = False, ne, e
        else:
            first = None
        if first is None:
            r, m = self.sat_with(e)
            if r == z3.unknown:
                raise Inconclusive("solver gave up")
            if r == z3.sat:
                first, fc, oc = True, e, ne
                self.model = m
            else:
                first, fc, oc = False, ne, e
                self.model = None
        r, m = self.sat_with(oc)
        if r == z3.unknown:
            raise Inconclusive("solver gave up")
        rest = []
        if r == z3.sat:
            rest.append((not first, oc, True))
        else:
            self.stats["forced"] += 1
        self._push(first, fc, rest, "b")
        return first

    def decide(self, name, values):
        """Fork on an input variable: one path per value in `values`."""
        if self._replaying():
            d = self.trail[self.pos]
            if d.sig != name:
                raise EngineError(f"non-deterministic replay: {d.sig} vs {name}")
            self.pos += 1
            return d.value
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self._push(v, lit_term(name, "eq", v), [], name)
            self.model = None
            return v
        self.stats["choices"] += 1
        vals = list(values)
        if self.model is not None and len(vals) > 1:
            # start with the value of the model at hand: saves a query
            c = self.model.eval(var_term(name), model_completion=True)
            if z3.is_int_value(c) and c.as_long() in vals:
                v = c.as_long()
                vals.remove(v)
                cand = [(w, lit_term(name, "eq", w), False) for w in reversed(vals)]
                self._push(v, lit_term(name, "eq", v), cand, name)
                return v
        cand = [(v, lit_term(name, "eq", v), False) for v in reversed(vals)]
        while cand:
            v, cons, _ = cand.pop()
            self.solver.push()
            self.solver.add(cons)
            r = self._check()
            if r == z3.sat:
                self.trail.append(Decision(v, cand, name))
                self.pos += 1
                self.model = self.get_model()
                return v
            self.solver.pop()
            if r != z3.unsat:
                raise Inconclusive("solver gave up")
        raise Infeasible()

    def realize_step(self, e):
        """Fork on e == v / e != v for some feasible v (recorded, so replay is exact)."""
        if self._replaying():
            d = self.trail[self.pos]
            if d.sig != "r":
                raise EngineError(f"non-deterministic replay: {d.sig} vs r")
            self.pos += 1
            return d.value
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            self._push((kind, v), e == v if kind == "=" else e != v, [], "r")
            self.model = None
            return kind, v
        m = self.any_model()
        if m is None:
            raise Infeasible()
        v = m.eval(e, model_completion=True).as_long()
        self._push(("=", v), e == v, [(("!=", v), e != v, False)], "r")
        return "=", v

    # ---- inputs ----------------------------------------------------------------
    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else f"{base}#{n}"

    def int_var(self, name, lo=None, hi=None, primary=True):
        return var_term(self.int_name(name, lo, hi, primary))

    def int_name(self, name, lo=None, hi=None, primary=True):
        name = self.fresh_name(name)
        if primary:
            self.inputs.append((name, "int", var_term(name)))
        if lo is not None or hi is not None:
            self.bounds[name] = (lo, hi)
            if not self._replaying():
                if lo is not None:
                    self.assume(lit_term(name, "ge", lo))
                if hi is not None:
                    self.assume(lit_term(name, "le", hi))
        return name

    def real_var(self, name, primary=False):
        name = self.fresh_name(name)
        v = z3.Real(name)
        if primary:
            self.inputs.append((name, "real", v))
        return v

    def bool_var(self, name):
        name = self.fresh_name(name)
        v = _VARS.get((name, "b"))
        if v is None:
            v = _VARS[name, "b"] = z3.Bool(name)
        self.inputs.append((name, "bool", v))
        return v

    def choose(self, name, n):
        """Symbolic choice in range(n), forked immediately."""
        if n <= 1:
            return 0
        return self.decide(self.int_name(name, 0, n - 1), range(n))

    def within(self, e, lo, hi):
        """Whether the path condition implies lo <= e <= hi (recorded for replay)."""
        e = z3.simplify(e)
        key = ("w", e.get_id(), lo, hi)
        k = self.known.get(key)
        if k is None:
            if self._replaying():
                d = self.trail[self.pos]
                if d.sig != "w":
                    raise EngineError(f"non-deterministic replay: {d.sig} vs w")
                self.pos += 1
                k = (d.value, e)
            elif self.pos < len(self.prefix):
                k = (bool(self.prefix[self.pos]), e)
                self._push(k[0], z3.BoolVal(True), [], "w")
            else:
                k = (self.sat_with(z3.Or(e < lo, e > hi))[0] == z3.unsat, e)
                self._push(k[0], z3.BoolVal(True), [], "w")
            self.known[key] = k
        return k[0]

    # ---- obligations -----------------------------------------------------------
    def check(self, cond, label):
        if isinstance(cond, SymBool):
            cond = cond.e
        if isinstance(cond, bool):
            self.stats["obligations_trivial"] += 1
            if cond:
                return
            m = self.any_model()
            if m is None:
                raise Infeasible()
            self._violate(m, label, z3.BoolVal(True))
        self.stats["obligations"] += 1
        neg = z3.Not(cond)
        r, m = self.sat_with(neg)
        if r == z3.sat and self.delayed:
            r, m = self._sat_exact(neg)
        if r == z3.unsat:
            return
        if r != z3.sat:
            raise Inconclusive(f"solver gave up on obligation {label}")
        self._violate(m, label, neg)

    def _violate(self, model, label, neg):
        cexs = [self.concretise(model)]
        # further models of the same violation (roundings are over-approximated, so the
        # first one may not be a real one)
        if any(k.startswith("~") for k in self.names):
            self.solver.push()
            self.solver.add(neg, *self.delayed)
            ints = [v for _n, k, v in self.inputs if k == "int"]
            self.rng.shuffle(ints)
            tries = 0
            while len(cexs) < 24 and tries < 48 and ints:
                tries += 1
                self.solver.push()
                v = ints[tries % len(ints)]
                mod = self.rng.choice([7, 10, 11, 97, 1000, 1009])
                self.solver.add(v % mod == self.rng.randrange(mod))
                if self.rng.random() < 0.5:
                    self.solver.add(v > self.rng.choice([10, 10**3, 10**6, 10**9, 10**12]))
                r = self._check()
                if r == z3.sat:
                    cexs.append(self.concretise(self.get_model()))
                self.solver.pop()
            self.solver.pop()
        self.cex = cexs
        self.label = label
        raise ViolationFound(label)

    def concretise(self, model):
        out = {}
        for name, kind, v in self.inputs:
            val = model.eval(v, model_completion=True)
            if kind == "int":
                out[name] = val.as_long()
            elif kind == "bool":
                out[name] = z3.is_true(val)
            else:
                if z3.is_algebraic_value(val):
                    val = val.approx(30)
                out[name] = [str(val.numerator_as_long()), str(val.denominator_as_long())]
        return out

    def any_model(self):
        if self.delayed:
            r, m = self._sat_exact(z3.BoolVal(True))
            if r == z3.unknown:
                raise Inconclusive("solver gave up")
            return m
        if self.model is None:
            r = self._check()
            if r == z3.unknown:
                raise Inconclusive("solver gave up")
            if r != z3.sat:
                return None
            self.model = self.get_model()
        return self.model


# ---------------------------------------------------------------------------------
# values


def _num(x):
    """z3 term of a number-like value, or None."""
    if isinstance_(x, SymInt):
        return x.e
    if isinstance_(x, SymFloat):
        return x.e
    if isinstance_(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    t = type(x)
    if t is bool:
        return z3.IntVal(int(x))
    if t is int or isinstance(x, int):
        return z3.IntVal(int(x))
    if t is float:
        if x != x or x in (float("inf"), float("-inf")):
            raise Inconclusive("non-finite float mixed with symbolic value")
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    return None


def isinstance_(x, c):
    return type(x) is c


def _isfloat(x):
    return type(x) in (float, SymFloat)


class SymBool:
    __slots__ = ("e", "lit")

    def __init__(self, e, lit=None):
        self.e = e
        self.lit = lit

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        if self.lit is not None:
            return ex().branch_lit(self.lit)
        return ex().branch(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, as_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, as_bool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, as_bool(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) in (bool, SymBool):
            return SymBool(self.e == as_bool(o))
        n = _num(o)
        return False if n is None else SymBool(_num(self) == n)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if type(r) is SymBool else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return SymInt(_num(self)) + o

    __radd__ = __add__

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"


def as_bool(x):
    if type(x) is SymBool:
        return x.e
    if type(x) is bool:
        return z3.BoolVal(x)
    return z3.BoolVal(bool(x))


def mk_int(e):
    return SymInt(e)


def _cmp(op):
    def f(self, o):
        if type(o) is int and type(self) is SymInt and self.nm is not None:
            lit = (self.nm, op, o)
            return SymBool(lit_term(*lit), lit)
        n = _num(o)
        if n is None:
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        a = self.e
        e = {"lt": lambda: a < n, "le": lambda: a <= n, "gt": lambda: a > n,
             "ge": lambda: a >= n, "eq": lambda: a == n, "ne": lambda: a != n}[op]()
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)
    return f


class _SymNum:
    __slots__ = ()
    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")

    def __bool__(self):
        return ex().branch(self.e != 0)

    def __repr__(self):
        return "<symbolic>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbolic>"


def _const(e):
    """Python int of a constant integer term, else None."""
    if z3.is_int_value(e):
        return e.as_long()
    s = z3.simplify(e)
    return s.as_long() if z3.is_int_value(s) else None


class SymInt(_SymNum):
    __slots__ = ("e", "nm")

    def __init__(self, e, nm=None):
        self.e = e
        self.nm = nm  # name, if it is an input variable

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return hash(realize(self))

    def __index__(self):
        return realize(self)

    __int__ = __index__

    def __float__(self):
        raise Inconclusive("float() of a symbolic int by C code")

    def _arith(self, o, fi, ff):
        if type(o) is float or type(o) is SymFloat:
            return ff(to_float(self), o)
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymInt(fi(self.e, n))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a, lambda a, b: b + a)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (SymTimedelta, _dt.timedelta)):
            return NotImplemented
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        if _isfloat(o):
            return to_float(self) / o
        n = _num(o)
        if n is None:
            return NotImplemented
        return int_truediv(self.e, n)

    def __rtruediv__(self, o):
        if _isfloat(o):
            return o / to_float(self)
        n = _num(o)
        if n is None:
            return NotImplemented
        return int_truediv(n, self.e)

    def __floordiv__(self, o):
        if _isfloat(o):
            return NotImplemented
        n = _num(o)
        return NotImplemented if n is None else SymInt(int_divmod(self.e, n)[0])

    def __rfloordiv__(self, o):
        n = _num(o)
        return NotImplemented if n is None else SymInt(int_divmod(n, self.e)[0])

    def __mod__(self, o):
        n = _num(o)
        return NotImplemented if n is None else SymInt(int_divmod(self.e, n, False)[1])

    def __rmod__(self, o):
        n = _num(o)
        return NotImplemented if n is None else SymInt(int_divmod(n, self.e, False)[1])

    def __divmod__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        q, r = int_divmod(self.e, n)
        return SymInt(q), SymInt(r)

    def __rdivmod__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        q, r = int_divmod(n, self.e)
        return SymInt(q), SymInt(r)

    def __pow__(self, o):
        raise Inconclusive("power of a symbolic int")

    def __and__(self, o):
        return realize(self) & o

    def __or__(self, o):
        return realize(self) | o

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __round__(self, nd=None):
        if nd is None or nd >= 0:
            return self
        raise Inconclusive("round(symbolic, negative)")

    def __trunc__(self):
        return self

    __floor__ = __trunc__
    __ceil__ = __trunc__

    def bit_length(self):
        raise Inconclusive("bit_length of a symbolic int")


def realize(s: SymInt, cap=64) -> int:
    """Fork over all values of a symbolic integer (bounded)."""
    c = _const(s.e)
    if c is not None:
        return c
    x = ex()
    for _ in range(cap):
        kind, v = x.realize_step(s.e)
        if kind == "=":
            return v
    raise Inconclusive("too many values for a symbolic int")


def int_divmod(a, b, want_q=True):
    x = ex()
    cb = _const(b)
    if cb is None:
        if x.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        pos = x.branch(b > 0)
    else:
        if cb == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        pos = cb > 0
    if not pos:
        q, r = _divmod_pos(-a, -b, want_q)
        return q, -r
    return _divmod_pos(a, b, want_q)


def _divmod_pos(a, b, want_q=True):
    """Floor division by b > 0.

    For a symbolic b the remainder is first constrained by linear facts only; that it is
    the remainder (a == q * b + r for some q) is added when the quotient is needed, or when
    a violation was found.
    """
    x = ex()
    a, b = z3.simplify(a), z3.simplify(b)
    if _const(b) is not None:
        return a / b, a % b
    key = (a.get_id(), b.get_id())
    hit = x.divcache.get(key)
    if hit is None:
        if not any(b.eq(d) for d in x.divisors):
            x.divisors.append(b)
        q = x.int_var("divq", primary=False)
        r = x.int_var("divr", primary=False)
        x.assume(z3.And(r >= 0, r < b))
        # consequences that are linear
        x.assume(z3.And(z3.Implies(z3.And(a >= 0, a < b), z3.And(q == 0, r == a)),
                        z3.Implies(a >= b, z3.And(q >= 1, r <= a - b)),
                        z3.Implies(a < 0, q < 0)))
        hit = x.divcache[key] = [q, r, a, b, a == q * b + r, False]
        x.delayed.append(hit[4])
    if want_q and not hit[5]:
        hit[5] = x.exact = True
        x.assume(hit[4])
    return hit[0], hit[1]


def int_truediv(a, b):
    x = ex()
    if _const(b) is None:
        if x.branch(b == 0):
            raise ZeroDivisionError("division by zero")
        e = x.real_var("~quot")
        x.assume(z3.ToReal(b) * e == z3.ToReal(a))
    else:
        if _const(b) == 0:
            raise ZeroDivisionError("division by zero")
        return SymFloat(None, ("q", a, _const(b)))
    return SymFloat(rnd(e))


def rnd(e):
    """Round a real to a double: any real within half an ulp (relative model)."""
    x = ex()
    s = z3.simplify(e)
    if z3.is_rational_value(s):
        f = Fraction(s.numerator_as_long(), s.denominator_as_long())
        f = Fraction(float(f))
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    hit = x.rndcache.get(s.get_id())
    if hit is not None:
        return hit[0]
    r = x.real_var("~fl")
    x.rndcache[s.get_id()] = (r, s)
    e = s
    u = z3.RealVal(f"{U.numerator}/{U.denominator}")
    x.assume(z3.And(z3.Implies(e >= 0, z3.And(r >= e - u * e, r <= e + u * e)),
                    z3.Implies(e <= 0, z3.And(r <= e - u * e, r >= e + u * e))))
    return r


ROUNDTRIP = 2**50
_LEMMA: dict = {}


def roundtrip_lemma(c):
    """Proves (once per c) that round(fl(fl(n / c) * c)) == n for all |n| <= ROUNDTRIP."""
    if c not in _LEMMA:
        n, m = z3.Ints("n m")
        q, r = z3.Reals("q r")
        u = z3.RealVal(f"{U.numerator}/{U.denominator}")

        def near(y, e):
            return z3.And(z3.Implies(e >= 0, z3.And(y >= e - u * e, y <= e + u * e)),
                          z3.Implies(e <= 0, z3.And(y <= e - u * e, y >= e + u * e)))
        s = z3.Solver()
        s.set("timeout", 20000)
        d = 2 * (z3.ToReal(m) - r)
        s.add(n >= -ROUNDTRIP, n <= ROUNDTRIP, near(q, z3.ToReal(n) / c), near(r, q * c),
              d >= -1, d <= 1, m != n)
        _LEMMA[c] = s.check() == z3.unsat
    return _LEMMA[c]


def to_float(s):
    """Exact for |n| <= 2**53, else rounded."""
    if type(s) is SymFloat:
        return s
    if type(s) in (int, float, bool):
        return float(s)
    c = _const(s.e)
    if c is not None:
        return float(c)
    x = ex()
    r = x.real_var("~i2f")
    e = z3.ToReal(s.e)
    u = z3.RealVal(f"{U.numerator}/{U.denominator}")
    big = 2**53
    x.assume(z3.And(z3.Implies(z3.And(s.e <= big, s.e >= -big), r == e),
                    z3.Implies(s.e > big, z3.And(r >= e - u * e, r <= e + u * e)),
                    z3.Implies(s.e < -big, z3.And(r <= e - u * e, r >= e + u * e))))
    return SymFloat(r)


def _real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


class SymFloat(_SymNum):
    """A double; arithmetic rounds (relative error model, sound over-approximation).

    `src`: ("q", n, c) if the value is fl(n / c) for an integer term n, or ("m", n, c) if it
    is fl(fl(n / c) * c); `e` is only made when it is needed.
    """

    __slots__ = ("_e", "src")

    def __init__(self, e, src=None):
        self._e = e
        self.src = src

    @property
    def e(self):
        if self._e is None:
            self._e = self._e_of()
        return self._e

    def _e_of(self):
        kind, n, c = self.src
        q = rnd(z3.ToReal(n) / c)
        return q if kind == "q" else rnd(q * c)

    @property
    def __class__(self):
        return float

    def __hash__(self):
        return 0

    def _ar(self, o, f):
        if type(o) in (SymInt, int, bool):
            o = to_float(o)
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymFloat(rnd(f(self.e, _real(n))))

    def __add__(self, o):
        if type(o) in (int, float) and o == 0:
            return self
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) in (int, float) and o == 0:
            return self
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (SymTimedelta, _dt.timedelta)):
            return NotImplemented
        s = self.src
        if s is not None and s[0] == "q" and type(o) in (int, float) and o == s[2]:
            return SymFloat(None, ("m", s[1], s[2]))
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) in (int, float):
            if o == 0:
                raise ZeroDivisionError("float division by zero")
            return self._ar(o, lambda a, b: a / b)
        raise Inconclusive("division by a symbolic float")

    def __rtruediv__(self, o):
        raise Inconclusive("division by a symbolic float")

    def __neg__(self):
        return SymFloat(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.If(self.e >= 0, self.e, -self.e))

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, nd=None):
        if nd is not None:
            raise Inconclusive("round(symbolic float, ndigits)")
        x = ex()
        s = self.src
        if s is not None and s[0] == "m" and roundtrip_lemma(s[2]) and x.within(
                s[1], -ROUNDTRIP, ROUNDTRIP):
            return SymInt(s[1])
        m = x.int_var("~round", primary=False)
        d = 2 * (z3.ToReal(m) - self.e)
        x.assume(z3.And(d >= -1, d <= 1,
                        z3.Implies(z3.Or(d == 1, d == -1), m % 2 == 0)))
        return SymInt(m)

    def __floordiv__(self, o):
        raise Inconclusive("floor division of a symbolic float")

    __rfloordiv__ = __floordiv__
    __mod__ = __floordiv__
    __rmod__ = __floordiv__

    def __float__(self):
        raise Inconclusive("float() of a symbolic float by C code")

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))


# ---- timedelta --------------------------------------------------------------------
_MAXUS = 86399999999999999999
_MINUS = -86399999913600000000


class _TdMeta(type):
    def __instancecheck__(cls, obj):
        return type(obj) is SymTimedelta or isinstance(obj, _dt.timedelta)

    # class attributes of the real class
    @property
    def max(cls):
        return SymTimedelta._mk(z3.IntVal(_MAXUS))

    @property
    def min(cls):
        return SymTimedelta._mk(z3.IntVal(_MINUS))

    @property
    def resolution(cls):
        return SymTimedelta._mk(z3.IntVal(1))


def td_us(x):
    """Microseconds term of a timedelta-like value, or None."""
    if type(x) is SymTimedelta:
        return x.us
    if isinstance(x, _dt.timedelta):
        return z3.IntVal(x // _dt.timedelta(microseconds=1))
    return None


class SymTimedelta(metaclass=_TdMeta):
    """datetime.timedelta over a symbolic number of microseconds (exact, with overflow)."""

    __slots__ = ("us", "__weakref__")

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0,
                 hours=0, weeks=0):
        tot = z3.IntVal(0)
        for v, f in ((days, 86400 * 10**6), (seconds, 10**6), (microseconds, 1),
                     (milliseconds, 1000), (minutes, 60 * 10**6), (hours, 3600 * 10**6),
                     (weeks, 7 * 86400 * 10**6)):
            if type(v) is float:
                us = _dt.timedelta(microseconds=0)
                us = _dt.timedelta(seconds=v) if f == 10**6 else (
                    _dt.timedelta(microseconds=v) if f == 1 else _dt.timedelta(
                        milliseconds=v) if f == 1000 else _dt.timedelta(days=v * f / 86400e6))
                tot = tot + z3.IntVal(us // _dt.timedelta(microseconds=1))
            elif type(v) is SymFloat:
                tot = tot + round(v * float(f)).e
            else:
                n = _num(v)
                if n is None:
                    raise TypeError("unsupported type for timedelta component")
                tot = tot + n * f
        self._set(z3.simplify(tot))

    def _set(self, us):
        c = _const(us)
        if c is None:
            if ex().branch(z3.Or(us > _MAXUS, us < _MINUS)):
                raise OverflowError("timedelta out of range")
        elif not _MINUS <= c <= _MAXUS:
            raise OverflowError("timedelta out of range")
        self.us = us

    @classmethod
    def _mk(cls, us):
        o = object.__new__(cls)
        o._set(us)
        return o

    def _bin(self, o, f):
        n = td_us(o)
        return NotImplemented if n is None else SymTimedelta._mk(f(self.us, n))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __neg__(self):
        return SymTimedelta._mk(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymTimedelta._mk(z3.If(self.us >= 0, self.us, -self.us))

    def __mul__(self, o):
        if type(o) is SymFloat or type(o) is float:
            return SymTimedelta._mk(round(to_float(SymInt(self.us)) * o).e)
        n = _num(o)
        return NotImplemented if n is None else SymTimedelta._mk(self.us * n)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        n = td_us(o)
        if n is not None:
            return SymInt(int_divmod(self.us, n)[0])
        n = _num(o)
        return NotImplemented if n is None else SymTimedelta._mk(int_divmod(self.us, n)[0])

    def __rfloordiv__(self, o):
        n = td_us(o)
        return NotImplemented if n is None else SymInt(int_divmod(n, self.us)[0])

    def __truediv__(self, o):
        n = td_us(o)
        if n is not None:
            return int_truediv(self.us, n)
        if type(o) in (int, SymInt):
            return SymTimedelta._mk(round(SymFloat(z3.ToReal(self.us) / _real(_num(o)))).e)
        if type(o) is float:
            return SymTimedelta._mk(round(to_float(SymInt(self.us)) / o).e)
        return NotImplemented

    def __rtruediv__(self, o):
        n = td_us(o)
        return NotImplemented if n is None else int_truediv(n, self.us)

    def __mod__(self, o):
        n = td_us(o)
        return NotImplemented if n is None else SymTimedelta._mk(int_divmod(self.us, n)[1])

    def __divmod__(self, o):
        n = td_us(o)
        if n is None:
            return NotImplemented
        q, r = int_divmod(self.us, n)
        return SymInt(q), SymTimedelta._mk(r)

    def _cmp(self, o, f, dflt):
        n = td_us(o)
        if n is None:
            return dflt
        e = z3.simplify(f(self.us, n))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, NotImplemented)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, NotImplemented)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, NotImplemented)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, NotImplemented)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __hash__(self):
        return 0

    def __bool__(self):
        return ex().branch(self.us != 0)

    def total_seconds(self):
        return int_truediv(self.us, z3.IntVal(10**6))

    @property
    def days(self):
        return SymInt(int_divmod(self.us, z3.IntVal(86400 * 10**6))[0])

    @property
    def seconds(self):
        r = int_divmod(self.us, z3.IntVal(86400 * 10**6))[1]
        return SymInt(int_divmod(r, z3.IntVal(10**6))[0])

    @property
    def microseconds(self):
        return SymInt(int_divmod(self.us, z3.IntVal(10**6))[1])

    def __repr__(self):
        return "<symbolic timedelta>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbolic timedelta>"


# ---- opaque messages ---------------------------------------------------------------
class SymObj:
    """An arbitrary Python object: may be None, falsy, or equal to another one."""

    def __init__(self, tag, x: Explorer):
        d = self.__dict__
        d["tag"] = tag
        d["none"] = x.bool_var(f"{tag}.none")
        d["falsy"] = x.bool_var(f"{tag}.falsy")
        d["key"] = x.int_var(f"{tag}.key", 0, 3)
        if not x._replaying():
            for o in x.objs:
                x.assume(z3.Not(z3.And(o.none, self.none)))
        x.objs.append(self)

    def _is_kind(self, k):
        """1: without a truth value (as an array), 2: equal to everything, 3: an
        exception, 0: neither. Only decided if the code asks for it."""
        x = ex()
        if "kind" not in self.__dict__:
            self.__dict__["kind"] = x.int_var(f"{self.tag}.kind", 0, 3)
            x.assume(z3.Implies(self.none, self.kind == 0))
        return x.branch(self.kind == k)

    def __bool__(self):
        if self._is_kind(1):
            raise ValueError("the truth value is ambiguous")
        return not ex().branch(z3.Or(self.none, self.falsy))

    def __eq__(self, o):
        if o is not self:
            if self._is_kind(1) or type(o) is SymObj and o._is_kind(1):
                raise ValueError("the truth value is ambiguous")
            if self._is_kind(2) or type(o) is SymObj and o._is_kind(2):
                return True
        if type(o) is SymObj:
            if o is self:
                return True
            return SymBool(z3.And(z3.Not(self.none), z3.Not(o.none), self.key == o.key))
        if o is None:
            return SymBool(self.none)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if type(r) is SymBool else not r

    def __hash__(self):
        x = ex()
        if "unhashable" not in self.__dict__:
            self.__dict__["unhashable"] = x.bool_var(f"{self.tag}.unhashable")
            x.assume(z3.Implies(self.none, z3.Not(self.unhashable)))
        if x.branch(self.unhashable):
            raise TypeError("unhashable message")
        return 7

    def __repr__(self):
        return f"<msg {self.tag}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def sx_isinstance(a, c):
    """The isinstance() of the package: a message may be an exception."""
    r = isinstance(a, c)
    if type(a) is not SymObj or r == isinstance(_AN_ERROR, c):
        return r
    return not r if a._is_kind(3) else r


_AN_ERROR = ErrorMsg("", 0, False, False)


def sx_is(a, b):
    """The instrumented `a is b`."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymObj:
        if b is None:
            return SymBool(a.none)
        if tb is SymObj:
            return SymBool(z3.And(a.none, b.none))
        return False
    if tb is SymObj:
        return sx_is(b, a)
    if ta is SymBool and tb in (bool, SymBool):
        return SymBool(a.e == as_bool(b))
    if tb is SymBool and ta is bool:
        return SymBool(b.e == as_bool(a))
    return False


def sx_is_not(a, b):
    r = sx_is(a, b)
    return SymBool(z3.Not(r.e)) if type(r) is SymBool else not r
