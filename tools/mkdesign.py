#!/usr/bin/env python3
"""Writes BOUNDS.md, and the table of planted bugs into DESIGN.md."""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from symx.harness_loader import load_checks  # noqa: E402

# plants that the check of their property did not catch when they were written
MISSED = {
    "anext-hides-errors": "R03: other error types of the source",
    "anycast-returned-unread-last": "A02: dropped receivers after ready()",
    "broadcast-notify-per-receiver": "B04: several waiters of a receiver",
    "file-watcher-hidden-ignored": "F01: names of all kinds",
    "merge-keyed-by-str": "M01: sources of the same name",
    "select-keyed-by-str": "S01: receivers of the same name",
    "timer-reset-keeps-tick": "T05: longer histories with unread ticks",
    "timer-resync-start-in-policy": "T02: shared policies",
    "broadcast-cleanup-shifts": "B01: crowds of which half are dropped",
    "file-watcher-batch-cap": "F01: batches of up to 150",
    "broadcast-skips-same-object": "B01: the same object repeatedly",
    "mapper-retries": "R02: errors of builtin types",
    "merge-stop-does-not-wait": "M02: tasks alive when stop() returns",
    "broadcast-cleans-one": "K01 is new",
    "broadcast-len-announces": "K03 is new",
}
MISSED.update(json.load(open(os.path.join(V, "tools", "missed.json"), encoding="utf-8"))
              if os.path.exists(os.path.join(V, "tools", "missed.json")) else {})

with open(os.path.join(V, "BOUNDS.md"), "w", encoding="utf-8") as f:
    f.write("# Bounds of every harness (generated by tools/mkdesign.py)\n")
    for line in open(os.path.join(V, "properties.jsonl"), encoding="utf-8"):
        p = json.loads(line)
        f.write(f"\n## {p['id']} {p['title']}\n\n")
        for h in load_checks(p["id"]):
            q, t = (h.bounds.format(**h.params[k]) for k in ("quick", "thorough"))
            f.write(f"* **{h.name}** quick: {q}\n")
            f.write(f"  thorough: {t if t != q else 'the same'}\n")

rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d, encoding="utf-8"))
    n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {MISSED.get(n, '')} |")
missed = sum(1 for r in rows if not r.endswith("|  |"))
text = f"""<!-- SEEDED -->
## 6. Planted bugs and what catches them

{len(rows)} changes are kept in `seeded/`; each passes the existing tests, and each is reported by the quick
check of its property (most also by others). {missed} were missed by that check when they were planted; the
last column says what was strengthened. Written from the property and the code, not from the
harnesses. Rejected since the existing tests notice them: rounding resync in floats, anycast
skipping the same object, a priority among merge sources, truncated intervals, resolving watched paths.

| planted bug | caught by | needs | first missed; strengthened |
|---|---|---|---|
""" + "\n".join(rows) + "\n<!-- END -->"
path = os.path.join(V, "DESIGN.md")
s = open(path, encoding="utf-8").read()
s = re.sub(r"<!-- SEEDED -->.*?<!-- END -->", lambda _m: text, s, flags=re.S)
open(path, "w", encoding="utf-8").write(s)
