"""Explores all paths of a property's harnesses in parallel and reports the verdict."""
from __future__ import annotations

import asyncio
import contextvars
import gc
import json
import multiprocessing as mp
import os
import queue
import re
import signal
import subprocess
import sys
import time
import traceback

from . import core, shims
from .harness_loader import load_checks
from .symenv import SymEnv
from .vloop import Hang, VLoop

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY_PY = os.environ.get("SYMX_REPLAY_PY", "/opt/venv/bin/python")
NPROC = int(os.environ.get("SYMX_PROCS", "8"))


class PathTimeout(core.PathEnd):
    pass


def _alarm(_s, _f):
    raise PathTimeout("path timeout")


class Tracer:
    """Records which functions of the package were executed."""

    def __init__(self):
        self.funcs = set()
        mon = sys.monitoring
        self.id = 3
        mon.use_tool_id(self.id, "symx")
        mon.register_callback(self.id, mon.events.PY_START, self._cb)
        mon.set_events(self.id, mon.events.PY_START)

    def _cb(self, code, _off):
        if code.co_filename.startswith(shims.SRC):
            name = code.co_qualname
            if "<module>" not in name and not name.startswith("<"):
                self.funcs.add(os.path.basename(code.co_filename) + ":" + name)
        return sys.monitoring.DISABLE


class PathRunner:
    """Runs single paths of a harness."""

    def __init__(self, harness, tier):
        self.h, self.tier = harness, tier
        self.ns = shims.load()
        self.reload = bool(shims.stateful())
        self.snap = None if self.reload else shims.snapshot()
        self.count = 0

    def fresh_ns(self):
        if self.reload:
            self.ns = shims.load()
        elif self.count % 64 == 1 and shims.snapshot() != self.snap:
            self.reload = True
            self.ns = shims.load()
        return self.ns

    def run(self, x):
        """One path. Returns (kind, detail, env)."""
        self.count += 1
        gc.disable()
        env = SymEnv(self.fresh_ns(), self.h.params[self.tier], x)
        core.EX = x
        x.start()
        loop = VLoop()
        env.loop = loop
        shims.AWATCH["impl"] = lambda *a, **k: env.awatch_impl(*a, **k)
        kind, detail = "ok", None
        signal.setitimer(signal.ITIMER_REAL, self.h.path_timeout)
        main = None
        try:
            try:
                ctx = contextvars.Context()
                main = ctx.run(loop.create_task, self.h.fn(env))
                main._log_destroy_pending = False
                loop.run_until_complete(main)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except core.Infeasible:
            kind = "infeasible"
        except core.KnownFinding as e:
            kind, detail = "finding", str(e)
        except core.Inconclusive as e:
            kind, detail = "inconclusive", str(e)
        except core.ViolationFound:
            kind, detail = "violation", (x.label, x.cex)
        except PathTimeout:
            kind, detail = "timeout", None
        except core.EngineError as e:
            kind, detail = "inconclusive", "engine: " + str(e)
        except Hang as e:
            kind, detail = "raised", f"hang ({e})"
        except core.PathEnd as e:
            kind, detail = "inconclusive", f"{type(e).__name__} {e}"
        except BaseException as e:  # pylint: disable=broad-except
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
            kind, detail = "raised", f"unexpected {type(e).__name__}: {e} at {where}"
        if kind == "ok" and main is not None and main.done() and not main.cancelled() \
                and isinstance(main.exception(), SystemExit):
            kind, detail = "inconclusive", f"swallowed {main.exception()!r}"
        if kind in ("raised", "timeout"):
            if isinstance(detail, str) and "engine" in detail:
                pass
            try:
                m = x.any_model()
                kind, detail = ("infeasible", None) if m is None else (
                    "violation" if kind == "raised" else "timeout",
                    (detail or "does not terminate", [x.concretise(m)]))
            except core.PathEnd as e:
                kind, detail = "inconclusive", str(e)
        x.finish()
        self._cleanup(loop)
        gc.enable()
        return kind, detail, env

    def _cleanup(self, loop):
        for t in asyncio.all_tasks(loop):
            t._log_destroy_pending = False
        try:
            loop._ready.clear()
            loop._scheduled.clear()
            loop._closed = True
        except Exception:  # pylint: disable=broad-except
            pass
        if self.count % 150 == 0:
            gc.collect()


def quiet():
    sys.unraisablehook = lambda *a: None
    import warnings
    warnings.simplefilter("ignore")


def _worker(wid, harness, tier, seed, tasks, results, stop):
    try:
        quiet()
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        tr = Tracer()
        pr = PathRunner(harness, tier)
        tr.funcs.clear()
        while not stop.is_set():
            try:
                prefix, budget = tasks.get(timeout=0.2)
            except queue.Empty:
                continue
            res = explore(pr, prefix, budget, seed, stop)
            res["funcs"] = sorted(tr.funcs)
            results.put(res)
    except BaseException:  # pylint: disable=broad-except
        results.put({"crash": traceback.format_exc()})


def explore(pr, prefix, budget, seed, stop):
    """Explores the subtree below prefix for at most `budget` seconds."""
    x = core.Explorer(prefix, seed, pr.h.solver_ms)
    t0 = time.monotonic()
    cpu0 = time.process_time()
    kinds = {}
    covers = set()
    samples = []
    cexs = []
    inconclusive = []
    nsample = 0
    maxdepth = 0
    dec0 = 0
    more = True
    while True:
        kind, detail, env = pr.run(x)
        kinds[kind] = kinds.get(kind, 0) + 1
        maxdepth = max(maxdepth, len(x.trail))
        if kind == "ok":
            covers |= env.covers | x.covers
            nsample += 1
            if len(samples) < 2 and (nsample % 37 == 1):
                x.dead = False
                try:
                    m = x.any_model()
                    if m is not None:
                        samples.append((x.concretise(m), list(env.trace)))
                except core.PathEnd:
                    pass
                x.dead = True
        elif kind in ("violation", "timeout"):
            cexs.append((kind, detail[0], detail[1]))
        elif kind == "inconclusive":
            inconclusive.append(detail)
        if cexs and kind == "violation":
            break
        if not x.next_path():
            more = False
            break
        if time.monotonic() - t0 > budget or stop.is_set():
            break
    left = []
    if more and not cexs:
        # next_path() already moved to the next alternative: it is unexplored itself
        left = x.leftovers()
        left.append([d.value for d in x.trail])
    return dict(kinds=kinds, covers=covers, samples=samples, cexs=cexs,
                inconclusive=inconclusive[:5], left=left, stats=x.stats, depth=maxdepth,
                cpu=time.process_time() - cpu0)


def run_harness(h, tier, seed, deadline, log):
    """Explores a harness completely (or until the deadline)."""
    ctx = mp.get_context("fork")
    tasks, results, stop = ctx.Queue(), ctx.Queue(), ctx.Event()
    procs = [ctx.Process(target=_worker, args=(i, h, tier, seed + i, tasks, results, stop),
                         daemon=True) for i in range(NPROC)]
    for p in procs:
        p.start()
    agg = dict(name=h.name, kinds={}, covers=set(), samples=[], cexs=[], inconclusive=[],
               funcs=set(), stats={}, depth=0, cpu=0.0, complete=True, crash=None,
               bounds=h.bounds)
    t0 = time.monotonic()
    work = [[]]
    out = 0
    while work or out:
        idle = NPROC * 2 - out
        while work and idle > 0:
            # short budgets while there is too little work to share
            budget = 0.15 if len(work) + out < NPROC * 2 else 1.5
            tasks.put((work.pop(), budget))
            out += 1
            idle -= 1
        try:
            r = results.get(timeout=1.0)
        except queue.Empty:
            if any(not p.is_alive() for p in procs):
                agg["crash"] = "a worker died"
                break
            if time.monotonic() > deadline + 60:
                agg["complete"] = False
                break
            continue
        out -= 1
        if "crash" in r:
            agg["crash"] = r["crash"]
            break
        for k, v in r["kinds"].items():
            agg["kinds"][k] = agg["kinds"].get(k, 0) + v
        for k, v in r["stats"].items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["covers"] |= r["covers"]
        agg["funcs"] |= set(r["funcs"])
        if len(agg["samples"]) < 60:
            agg["samples"] += r["samples"]
        agg["cexs"] += r["cexs"]
        agg["inconclusive"] += r["inconclusive"]
        agg["depth"] = max(agg["depth"], r["depth"])
        agg["cpu"] += r["cpu"]
        work += r["left"]
        if sum(1 for c in agg["cexs"] if c[0] == "violation") >= 4 or len(agg["cexs"]) > 20:
            agg["complete"] = False
            break
        if time.monotonic() > deadline and work:
            agg["complete"] = False
            work = []
    stop.set()
    time.sleep(0.02)
    for p in procs:
        p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    agg["wall"] = time.monotonic() - t0
    return agg


def run_concrete(job, timeout):
    """Runs scenarios concretely on the real code in a separate interpreter."""
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONPATH"] = VERIF
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run([REPLAY_PY, "-m", "symx.concrete", "-"], input=json.dumps(job),
                       capture_output=True, text=True, timeout=timeout, env=env, cwd=VERIF,
                       check=False)
    if p.returncode != 0 or not p.stdout.strip():
        raise RuntimeError(f"concrete runner failed: {p.stderr[-2000:]}")
    return json.loads(p.stdout.strip().splitlines()[-1])


def known_findings(prop):
    """[(label, text)] of the lines "finding: property=ID [label] text" of the file."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"finding: property=(\w+) \[(.*?)\] (.*)", line.strip())
            if m and m[1] == prop:
                out.append((m[2], m[3]))
    return out


def main(prop, tier, seed):
    t0 = time.monotonic()
    sys.setrecursionlimit(5000)
    sys.dont_write_bytecode = True
    budget = float(os.environ.get("SYMX_BUDGET", "780" if tier == "quick" else "7200"))
    deadline = t0 + budget
    hs = load_checks(prop)
    only = os.environ.get("SYMX_ONLY")
    if only:
        hs = [h for h in hs if h.name in only.split(",")]
    if not hs:
        print(f"no harness for {prop}")
        return 2
    aggs = []
    violations = []
    errors = []
    SymEnv.known = tuple(label for label, _t in known_findings(prop))
    for h in hs:
        agg = run_harness(h, tier, seed, deadline, print)
        aggs.append(agg)
        st = agg["stats"]
        print(f"[{prop}/{h.name}] paths={agg['kinds']} queries={st.get('queries', 0)} "
              f"solver={st.get('solver_s', 0):.1f}s obligations={st.get('obligations', 0)}"
              f"+{st.get('obligations_trivial', 0)} wall={agg['wall']:.1f}s "
              f"complete={agg['complete']}", flush=True)
        if agg["crash"]:
            errors.append(f"{h.name}: {agg['crash']}")
        seen = set()
        undecided = []
        for kind, label, cexs in agg["cexs"]:
            if label in seen:
                continue
            ok, runs = replay_cexs(prop, h, tier, kind, label, cexs)
            if ok is not None:
                seen.add(label)
                violations.append((h, label, ok))
            elif kind == "timeout":
                undecided.append(f"too slow, and fine concretely: inputs {cexs[0]}")
            else:
                errors.append(f"{h.name}: counterexample not reproduced: {label} "
                              f"(concrete runs: {runs}) inputs {cexs[0]}")
        for d in sorted(set(map(str, agg["inconclusive"]))):
            if "solver gave up" in d or "timeout" in d:
                undecided.append(d)
            else:
                errors.append(f"{h.name}: inconclusive path: {d}")
        # a few paths on which the solver gave up are left undecided (and said so)
        n = sum(v for k, v in agg["kinds"].items() if k in ("timeout", "inconclusive"))
        agg["undecided"] = n
        for d in undecided[:5]:
            print(f"note: {h.name}: undecided path: {d}")
        if undecided and not h.soft and n * 50 > agg["kinds"].get("ok", 0):
            errors.append(f"{h.name}: too many undecided paths ({n})")
        if not agg["cexs"] and agg["complete"] and not agg["crash"]:
            missing = [c for c in h.covers if c not in agg["covers"]]
            if missing:
                errors.append(f"{h.name}: vacuity: not reached: {missing}")
        agg["validated"] = agg["mismatch"] = 0
        if agg["samples"] and not agg["crash"]:
            try:
                validate(prop, h, tier, agg)
            except Exception as e:  # pylint: disable=broad-except
                print(f"note: trace validation failed to run: {e}")
        if violations:
            break
    write_evidence(prop, tier, seed, hs, aggs, len(violations), time.monotonic() - t0, errors)
    rc = 0
    if violations:
        for h, label, path in violations[:3]:
            print(f"{prop}/{h.name}: {label}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    for e in errors:
        print("ERROR:", e)
        rc = 2
    for label, text in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {label}: {text}")
    if rc == 0:
        print(f"OK property={prop}: held on everything explored")
    return rc


def replay_cexs(prop, h, tier, kind, label, cexs):
    job = dict(prop=prop, harness=h.name, tier=tier,
               runs=[dict(inputs=c, timeout=10) for c in cexs])
    try:
        res = run_concrete(job, 400)
    except Exception as e:  # pylint: disable=broad-except
        return None, str(e)[:500]
    for c, r in zip(cexs, res):
        if r["status"] == "violation":
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}-{h.name}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(dict(prop=prop, harness=h.name, tier=tier, label=label,
                               concrete_label=r["label"], trace=r["trace"],
                               how="python -m symx.concrete FILE (cwd /verif, "
                                   f"{REPLAY_PY})",
                               runs=[dict(inputs=c, timeout=10)]), f, indent=1)
            return path, None
    return None, [(r["status"], r.get("label")) for r in res][:3]


def validate(prop, h, tier, agg):
    """Re-runs sampled completed paths on the real code and compares observations."""
    samples = agg["samples"][:40]
    job = dict(prop=prop, harness=h.name, tier=tier,
               runs=[dict(inputs=i, timeout=10) for i, _t in samples])
    res = run_concrete(job, 300)
    bad = []
    for (inp, trace), r in zip(samples, res):
        if r["status"] == "ok" and r["trace"] == trace:
            agg["validated"] += 1
        else:
            agg["mismatch"] += 1
            bad.append((inp, trace, r))
    agg["bad"] = bad[:2]
    if bad:
        print(f"note: {h.name}: {len(bad)} of {len(samples)} sampled paths gave different "
              f"observations concretely, e.g. {bad[0][2]['status']} {bad[0][2].get('label')} "
              f"{bad[0][2]['trace']} vs {bad[0][1]}"[:1500])


def write_evidence(prop, tier, seed, hs, aggs, nviol, wall, errors):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)

    def tot(f):
        return sum(f(a) for a in aggs)
    paths = tot(lambda a: sum(v for k, v in a["kinds"].items() if k != "infeasible"))
    st = {}
    for a in aggs:
        for k, v in a["stats"].items():
            st[k] = st.get(k, 0) + v
    samples = []
    for a in aggs:
        for inp, trace in a["samples"][:2]:
            samples.append(dict(harness=a["name"], inputs=inp, observations=trace))
    cov = dict(
        states=st.get("branches", 0) + st.get("choices", 0) + paths,
        transitions=paths + st.get("branches", 0) + st.get("choices", 0)
        - st.get("forced", 0),
        traces_validated_against_impl=tot(lambda a: a.get("validated", 0)),
        traces_mismatching=tot(lambda a: a.get("mismatch", 0)),
        samples=samples[:6],
        exhaustive=all(a["complete"] and not a["undecided"] for a in aggs) and not errors,
        undecided_paths=tot(lambda a: a["undecided"]),
        symbolic_paths=paths,
        queries=st.get("queries", 0),
        solver_s=round(st.get("solver_s", 0.0), 2),
        obligations_by_solver=st.get("obligations", 0),
        obligations_constant=st.get("obligations_trivial", 0),
        solver_unknown=st.get("unknown", 0),
        branch_decisions=st.get("branches", 0),
        input_choices=st.get("choices", 0),
        cpu_s=round(tot(lambda a: a["cpu"]), 1),
        functions_encoded=sorted(set().union(*[a["funcs"] for a in aggs])),
        harnesses=[dict(name=a["name"], bounds=bounds_text(h, tier), paths=a["kinds"],
                        params=h.params[tier], complete=a["complete"], depth=a["depth"],
                        wall_s=round(a["wall"], 1), witnesses=sorted(a["covers"]))
                   for h, a in zip(hs, aggs)],
        errors=errors[:10],
    )
    doc = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
               assumptions=ASSUMPTIONS, wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(ev, f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1, default=str)


def bounds_text(h, tier):
    return h.bounds.format(**{k: ", ".join(map(str, v)) if isinstance(v, list) else v
                              for k, v in h.params[tier].items()})


ASSUMPTIONS = [
    "CPython 3.12 and its asyncio implement their documentation (asyncio itself is "
    "executed, not modelled)",
    "environment stubs: constant or symbolic clock, selector without I/O, logging disabled, "
    "collections.deque and datetime.timedelta replaced by behaviourally equal versions over "
    "symbolic sizes/durations, iteration order of sets chosen symbolically",
    "nothing is claimed outside the stated bounds",
]
