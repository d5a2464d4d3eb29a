"""Finds harness definitions (z3-free)."""
from __future__ import annotations

import importlib
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Harness:
    """A most general client of the code with stated bounds.

    fn: async scenario(env); quick / thorough: parameters; covers: labels that must be
    reached by at least one path (guards against vacuity); bounds: text for the evidence.
    """

    def __init__(self, name, fn, bounds, quick=None, thorough=None, covers=(), timers=False,
                 path_timeout=20.0, soft=False, solver_ms=60000):
        self.name, self.fn, self.bounds = name, fn, bounds
        quick = quick or {}
        self.params = {"quick": quick, "thorough": thorough or quick}
        self.covers = list(covers)
        self.timers = timers
        self.path_timeout = path_timeout
        # soft: paths that the solver cannot decide are reported, but are not an error
        # (another harness of the property decides it within narrower bounds)
        self.soft, self.solver_ms = soft, solver_ms


def load_checks(prop):
    """All harnesses of a property, over all modules of /verif/harness."""
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    out = []
    hd = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hd)):
        if f.endswith(".py") and not f.startswith("_"):
            m = importlib.import_module("harness." + f[:-3])
            out += getattr(m, "HARNESSES", {}).get(prop, [])
    return out


def find(prop, name):
    for h in load_checks(prop):
        if h.name == name:
            return h
    raise KeyError(f"{prop}/{name}")
