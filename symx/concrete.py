"""Runs scenarios on the real, unmodified package (no z3, stock event loop).

usage: python -m symx.concrete FILE|-    (cwd /verif; FILE is a replay file)
"""
from __future__ import annotations

import asyncio
import gc
import json
import logging
import os
import signal
import sys
import types

from .env import AssumeFailed, CheckFailed, ConcEnv, OrderedResult
from .vloop import Hang, VLoop


class _Timeout(SystemExit):
    pass


def _alarm(_s, _f):
    raise _Timeout()


CUR = {"env": None}


def patch():
    """Environment control that the real run needs: order of asyncio.wait, file events."""
    import watchfiles
    real_wait = asyncio.wait

    async def wait(fs, *, timeout=None, return_when=asyncio.ALL_COMPLETED):
        done, pending = await real_wait(fs, timeout=timeout, return_when=return_when)
        env = CUR["env"]
        if env is None:
            return done, pending
        loop = asyncio.get_running_loop()

        def key(t):
            return loop.vseq.get(t, -1)
        label = env.fresh_name("wait")
        return (OrderedResult(sorted(done, key=key), env, label + ".done"),
                OrderedResult(sorted(pending, key=key), env, label + ".pending"))

    asyncio.wait = wait
    asyncio.tasks.wait = wait

    def awatch(*a, **k):
        return CUR["env"].awatch_impl(*a, **k)
    watchfiles.awatch = awatch
    watchfiles.main.awatch = awatch


class _Sel:
    """Wraps the real selector; a blocking select without timers is a hang."""

    def __init__(self, real):
        self.real = real

    def select(self, timeout=None):
        if timeout is None:
            raise Hang("deadlock: nothing is scheduled")
        return self.real.select(timeout)

    def __getattr__(self, n):
        return getattr(self.real, n)


def stock_loop():
    loop = asyncio.SelectorEventLoop()
    loop._selector = _Sel(loop._selector)
    loop.set_exception_handler(lambda *a: None)
    return loop


def namespace():
    if os.environ.get("SYMX_SRC"):
        sys.path.insert(0, os.environ["SYMX_SRC"])
    from frequenz import channels
    from frequenz.channels import event, file_watcher, timer
    return types.SimpleNamespace(ch=channels, event=event, timer=timer,
                                 file_watcher=file_watcher)


def run_one(h, tier, inputs, timeout):
    import weakref
    ns = namespace()
    env = ConcEnv(ns, h.params[tier], inputs)
    loop = VLoop() if h.timers else stock_loop()
    loop.vseq = weakref.WeakKeyDictionary()
    real_create = loop.create_task
    cnt = [0]

    def create_task(coro, **kw):
        t = real_create(coro, **kw)
        loop.vseq[t] = cnt[0]
        cnt[0] += 1
        return t
    loop.create_task = create_task
    env.loop = loop
    CUR["env"] = env
    status, label = "ok", None
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        try:
            main = loop.create_task(h.fn(env))
            main._log_destroy_pending = False
            loop.run_until_complete(main)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CheckFailed as e:
        status, label = "violation", e.label
    except AssumeFailed:
        status = "assume"
    except _Timeout:
        status, label = "violation", "does not terminate"
    except Hang as e:
        status, label = "violation", f"hang ({e})"
    except BaseException as e:  # pylint: disable=broad-except
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
        status, label = "violation", f"unexpected {type(e).__name__}: {e} at {where}"
    CUR["env"] = None
    try:
        for t in asyncio.all_tasks(loop):
            t._log_destroy_pending = False
        loop._ready.clear()
        loop._scheduled.clear()
        if not h.timers:
            loop.close()
    except Exception:  # pylint: disable=broad-except
        pass
    return dict(status=status, label=label, trace=env.trace, missing=len(env.missing),
                nchecks=env.nchecks)


def main():
    logging.disable(logging.CRITICAL)
    sys.unraisablehook = lambda *a: None
    src = sys.argv[1]
    job = json.load(sys.stdin if src == "-" else open(src, encoding="utf-8"))
    signal.signal(signal.SIGALRM, _alarm)
    patch()
    from .harness_loader import find
    h = find(job["prop"], job["harness"])
    out = []
    for r in job["runs"]:
        out.append(run_one(h, job["tier"], r["inputs"], r.get("timeout", 10)))
        gc.collect()
    print(json.dumps(out))
    if src != "-":
        sys.exit(1 if any(o["status"] == "violation" for o in out) else 0)


if __name__ == "__main__":
    main()
