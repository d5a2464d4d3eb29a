#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered harnesses and the property list."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from symx.harness_loader import load_checks  # noqa: E402

NOTE = ("Bounded: dynamic symbolic execution of the real code; z3 decides the feasibility of "
        "every path and every obligation on it, for all values within the bounds given in "
        "DESIGN.md and the evidence file. Trusts CPython/asyncio, z3, the environment stubs "
        "and the instrumentation (cross-checked by concrete re-runs of sampled paths); "
        "counterexamples are replayed on the unmodified code before they are reported.")
NA = {}

checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)["id"]
    hs = load_checks(p)
    if not hs:
        na.append(dict(property=p, reason=NA.get(p, "no check yet")))
        continue
    checks.append(dict(
        property=p,
        quick_cmd=f"python3-vt check.py {p} quick",
        thorough_cmd=f"python3-vt check.py {p} thorough",
        technique="symbolic execution of the real code, z3 verdict per path and obligation",
        level="model_checking", level_note=NOTE))
doc = dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=na)
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
