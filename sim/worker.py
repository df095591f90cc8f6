"""Runs scenarios of one property in this process and reports them as JSON lines on the protocol descriptor.

    worker.py run PROP SEED TIER START STRIDE COUNT     explore
    worker.py replay FILE                               run one stored scenario
    worker.py minimise FILE BUDGET                      shrink it (run in its own process, it may die)
"""
from __future__ import annotations

import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import core          # noqa: E402

CPU_LIMIT = float(os.environ.get("SIM_CPU_LIMIT", "60"))


def _on_prof(signum, frame):
    raise core.SimHang()


class Runner:

    def __init__(self, prop):
        core.install()
        import logging
        import gc
        self.logging, self.gc = logging, gc
        self.prop = prop
        self.mod = importlib.import_module(f"sim.props.{prop.lower()}")
        signal.signal(signal.SIGPROF, _on_prof)
        self.home = os.getcwd()
        self.count = 0

    def generate(self, seed, i, tier):
        rng = random.Random(f"{self.prop}:{seed}:{i}")
        return self.mod.gen(rng, tier, i)

    def execute(self, scn):
        """Run one scenario; returns a record"""
        scn = json.loads(json.dumps(scn))
        base = tempfile.mkdtemp(prefix="sim-", dir=os.environ.get("SIM_TMP"))
        root = os.path.join(base, "disk")
        os.makedirs(root)
        os.chdir(root)
        world = core.World(root)
        rec = {"ok": True}
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        core.enter(world)
        try:
            try:
                self.mod.run(world, scn)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except core.Invalid:
            rec = {"ok": True, "invalid": True}
        except core.Violation as e:
            rec = {"ok": False, "kind": e.kind, "msg": e.msg}
        except core.SimHang:
            rec = {"ok": False, "kind": "hang", "msg": f"no end within {CPU_LIMIT:.0f} s of CPU time"}
        except (KeyboardInterrupt, core.SimCrash, Exception) as e:
            tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
            if core.from_repo(e.__traceback__):
                rec = {"ok": False, "kind": f"unexpected-{type(e).__name__}", "msg": f"{e!r}"[:300], "tb": tb}
            elif type(e) in (TypeError, AttributeError, KeyError, IndexError, ValueError, ZeroDivisionError):
                # what the code returned is nothing the check can read; on a legal scenario that is not what it returns
                rec = {"ok": False, "kind": f"unreadable-{type(e).__name__}", "msg": f"the check can not read a result: {e!r}"[:300], "tb": tb}
            else:
                rec = {"ok": False, "harness": True, "kind": "harness", "msg": f"{e!r}"[:300], "tb": tb}
        finally:
            world.crashed = True
            core.leave()
            os.chdir(self.home)
            logger = self.logging.getLogger("dream")
            for h in list(logger.handlers):
                logger.removeHandler(h)
            self.count += 1
            if self.count % 10 == 0:
                self.gc.collect()
            for h in list(logger.handlers):
                logger.removeHandler(h)
            shutil.rmtree(base, ignore_errors=True)
        rec.update(digest=world.digest(), faults=dict(world.fired), probes=dict(world.probes),
                   simtime=world.simtime, steps=world.steps, nev=len(world.events), states=sorted(world.states))
        return rec


# --------------------------------------------------------------------------- shrinking

def _paths(x, path=()):
    """All positions in a scenario, outermost first"""
    yield path, x
    if isinstance(x, dict):
        for k in sorted(x):
            if k != "v":
                yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from _paths(y, path + (i,))


def _put(scn, path, value):
    scn = json.loads(json.dumps(scn))
    if not path:
        return value
    x = scn
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = value
    return scn


def candidates(scn):
    for path, x in list(_paths(scn)):
        if isinstance(x, list) and x and not all(isinstance(y, (int, float)) for y in x):
            size = len(x)
            while size:
                for i in range(0, len(x), size):
                    yield _put(scn, path, x[:i] + x[i + size:])
                size //= 2
        elif isinstance(x, list) and len(x) > 1 and all(isinstance(y, float) for y in x):
            yield _put(scn, path, x[:1])
    for path, x in list(_paths(scn)):
        if isinstance(x, bool):
            if x:
                yield _put(scn, path, False)
        elif isinstance(x, int) and x > 0:
            for y in sorted({0, 1, x // 2, x - 1} - {x}):
                yield _put(scn, path, y)
        elif isinstance(x, dict) and path and x.get("optional"):
            yield _put(scn, path, None)


def minimise(runner, scn, kind, budget, emit):
    import time
    end = time.monotonic() + budget
    best = scn
    emit({"best": best})
    progress = True
    tries = 0
    while progress and time.monotonic() < end:
        progress = False
        for cand in candidates(best):
            if time.monotonic() > end:
                break
            tries += 1
            try:
                rec = runner.execute(cand)
            except BaseException:       # noqa: a broken candidate is no candidate
                continue
            if not rec["ok"] and not rec.get("harness") and rec["kind"] == kind:
                best = cand
                emit({"best": best, "tries": tries})
                progress = True
                break
    emit({"done": True, "best": best, "tries": tries})


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.environ.get("SIM_LOG", "/dev/null"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(null, 1)
    os.dup2(null, 2)

    def emit(x):
        out.write(json.dumps(x) + "\n")

    mode = sys.argv[1]
    if mode == "run":
        prop, seed, tier = sys.argv[2:5]
        start, stride, count = map(int, sys.argv[5:8])
        runner = Runner(prop)
        for i in range(start, count, stride):
            scn = runner.generate(seed, i, tier)
            emit({"start": i})
            rec = runner.execute(scn)
            rec["i"] = i
            if not rec["ok"] or i < 3:
                rec["scn"] = scn
            emit(rec)
        emit({"end": True})
    elif mode == "replay":
        data = json.load(open(sys.argv[2]))
        runner = Runner(data["property"])
        emit({"start": 0})
        rec = runner.execute(data["scenario"])
        emit(rec)
        emit({"end": True})
    elif mode == "minimise":
        data = json.load(open(sys.argv[2]))
        runner = Runner(data["property"])
        minimise(runner, data["scenario"], data["violation"]["kind"], float(sys.argv[3]), emit)
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
