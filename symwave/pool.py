"""Process pool with a wall-clock budget; stops submitting after a violation."""
import multiprocessing as mp
import os
import time
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from concurrent.futures.process import BrokenProcessPool

from .check import run_task


def quiet():
    """The matrix transforms print warnings; keep them out of the report."""
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)


def run_all(tasks, jobs, deadline):
    results, pending = [], list(enumerate(tasks))
    notrun = []
    attempt = {}
    stop_at = None
    while pending:
        ex = ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork"), initializer=quiet)
        futs = {}
        try:
            while pending or futs:
                now = time.time()
                if pending and (now > deadline or stop_at):
                    notrun += [t for _, t in pending]
                    pending = []
                while pending and len(futs) < jobs * 2:
                    n, t = pending.pop(0)
                    futs[ex.submit(run_task, t)] = (n, t)
                if not futs:
                    break
                done, _ = wait(futs, timeout=2, return_when=FIRST_COMPLETED)
                for f in done:
                    n, t = futs.pop(f)
                    try:
                        r = f.result()
                    except BrokenProcessPool:
                        futs[f] = (n, t)
                        raise
                    except BaseException as e:  # noqa: BLE001
                        r = dict(harness=t[1], cfg=t[2], status="inconclusive", label="worker",
                                 detail=f"{type(e).__name__}: {e}", values=None, mode="error", note="",
                                 ops={}, functions=[], wall=0, known=[], stats={})
                    results.append(r)
                    if r["status"] == "violation" and stop_at is None:
                        stop_at = time.time()
                if (stop_at and time.time() > stop_at + 40) or time.time() > deadline + 60:
                    notrun += [t for _, t in futs.values()]
                    for p in list((ex._processes or {}).values()):
                        p.kill()
                    futs = {}
            ex.shutdown(wait=stop_at is None and time.time() < deadline, cancel_futures=True)
        except BrokenProcessPool:
            lost = list(futs.values())
            for n, t in lost:
                attempt[n] = attempt.get(n, 0) + 1
            pending = [(n, t) for n, t in lost if attempt[n] < 2] + pending
            for n, t in lost:
                if attempt[n] >= 2:
                    results.append(dict(harness=t[1], cfg=t[2], status="inconclusive", label="worker died",
                                        detail="", values=None, mode="error", note="", ops={}, functions=[],
                                        wall=0, known=[], stats={}))
            jobs = max(1, jobs // 2)
            ex.shutdown(wait=False, cancel_futures=True)
    return results, notrun
