"""C03: checkpoint, restart and continuation reproduce the uninterrupted run bit for bit."""
import os

import numpy as np

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal

QUICK = 1200
THOROUGH = 24000
RULE = ("a transient run cut into up to 4 lives at seeded points: killed with the file being written torn, killed or left between "
        "steps, interrupted inside a Newton solve, or ended on a planned intermediate interval; every next life restarts from the "
        "newest checkpoint that loads (in a new process or in the same solver) or goes on from memory; the joined trajectory is "
        "compared bit for bit with the same run done at once; 1 run in 12 on the real flow solver; non-trivial: at least one restart "
        "from files")
MEASURE = "distinct (solver, scheme, steps, rate, time level rate, kinds of ends, restart labels) situations"
REAL = "GridfunctionStream save and load, TransientConfig, Timer, schemes, Newton solver, CompressibleFlowSolver, files on scratch disk"
STUB = "weak form of the model solver in 11 of 12 runs; kill is simulated in-process"
ASSUMPTIONS = ["a killed process loses nothing that it handed to the kernel (no power failure)",
               "a checkpoint is a label with a state file and all time level files; a file that does not load is passed over",
               "bit equality for systems whose equations do not contain the time, else 1e-9"]


def gen(rng, tier, i):
    flow = rng.random() < 0.08
    g = G.grid(rng, nmax=5 if flow else 10, nmin=2, simple=rng.random() < 0.75, digits=7, long=0.0 if flow else 0.03)
    sys = runs.flow_system(rng) if flow else G.system(rng)
    if flow:
        g.update(step=rng.choice(("0.1", "0.05", "0.02")), start=rng.choice(("0", "0.3")))
    lives = []
    for k in range(rng.randint(1, 3)):
        x = rng.random()
        life = {"faults": [], "leave": None, "chunk": None, "nan": None}
        if x < 0.4:
            life["faults"] = [G.file_fault(rng, 4 * g["n"], ("crash", "crash", "crash", "interrupt", "enospc"))]
        elif x < 0.65:
            life["leave"] = [rng.randint(0, g["n"] - 1), rng.choice(("close", "drop", "abort", "interrupt", "crash"))]
        elif x < 0.8:
            life["chunk"] = rng.randint(1, g["n"] - 1)
        else:
            life["solve"] = [rng.randint(0, g["n"] - 1), rng.randint(0, 1)]
        life["resume"] = rng.choice(("files", "files", "files-same-solver", "memory"))
        lives.append(life)
    return {"sys": sys, "grid": g, "rate": rng.choice((1, 1, 1, 2, 3)), "tlr": rng.choice((1, 1, 2, 3)), "lives": lives,
            "name": rng.choice(("gfu", "chk"))}


def configure(cfg, s):
    cfg.io.gfu = True
    cfg.io.gfu.filename = s["name"]
    cfg.io.gfu.rate, cfg.io.gfu.time_level_rate = s["rate"], s["tlr"]


def run(w, s):
    g, sys = s["grid"], s["sys"]
    n = g["n"]
    legal(n >= 1 and s["rate"] >= 1 and s["tlr"] >= 1)
    labels = [float(g["start"])] + runs.labels_of(g)

    # the run that is never disturbed, and writes nothing
    ref = runs.make(sys, g)
    want = {labels[0]: runs.snapshot(ref)}
    with w.quiet():
        h = runs.drive(None, ref)
    for t in h.labels:
        want[t] = (h.states[t], h.levels[t])
    legal(all(np.isfinite(v).all() for v, _ in want.values()))
    del ref

    exact = sys.get("flow") or sys["par"].get("a", 0.0) == 0.0
    level_keys = list(want[labels[0]][1])
    ends, restarts = [], []
    cfg, at = None, 0           # the solver at hand, and the index of the label it stands at
    must = set()                # labels whose checkpoint has to be complete
    for k, life in enumerate(s["lives"] + [{"faults": [], "leave": None, "chunk": None}]):
        if cfg is None:
            cfg = runs.make(sys, g)
            configure(cfg, s)
            if k:
                at = restore(w, cfg, s, labels, level_keys, want, exact, must)
                restarts.append(at)
        if at >= n:
            at = 0              # nothing left to do: start over
            cfg.initialize()
        end = n
        if life.get("chunk"):
            end = min(n, at + life["chunk"])
        cfg.time.timer.interval = (labels[at], labels[end])
        h = one_life(w, cfg, g, life, end - at)
        ends.append(h.outcome)
        saved = [at] * bool(h.labels) + [at + 1 + i for i in range(len(h.labels)) if i % s["rate"] == 0 and i % s["tlr"] == 0]
        must.update(saved)
        if h.outcome != "done":
            must.discard(at + len(h.labels))        # its writing may not have begun, or may have been hit
        w.simtime += float(g["step"]) * len(h.labels)
        for i, t in enumerate(h.labels):
            require(t == labels[at + 1 + i], "labels", lambda: f"life {k}, from {labels[at]}: {h.labels}")
            same_state(s, exact, f"life {k} from {labels[at]} at {t} (restarts {restarts}, ends {ends})",
                       (h.states[t], h.levels[t]), want[t])
        reached = at + len(h.labels)
        if h.outcome == "done":
            require(reached == end, "labels", lambda: f"life {k} ended at {h.labels[-1:]}, not at {labels[end]}")
            at = end
            if at >= n:
                break
        in_memory = h.outcome == "done" or (life.get("leave") and h.outcome in ("stopped", "interrupt", "abort"))
        if h.outcome == "crash" or life.get("resume") == "files" or (life.get("resume") == "memory" and not in_memory
                                                                     and k % 2):
            cfg = None
            w.reboot()
        elif life.get("resume") == "memory" and in_memory:
            at = reached
            w.probe("continued from memory")
        else:
            w.arm([])
            at = restore(w, cfg, s, labels, level_keys, want, exact, must)
            restarts.append(at)
    require(ends[-1] == "done", "last-life", lambda: f"the undisturbed last life ended with {ends[-1]}: {h.error}")
    if restarts:
        w.probe("nontrivial")
    w.probe("restarts", len(restarts))
    w.state(bool(sys.get("flow")), sys["scheme"], n, s["rate"], s["tlr"], tuple(ends), tuple(restarts))


def one_life(w, cfg, g, life, n):
    leave = life.get("leave")
    if leave is not None and leave[0] >= n:
        leave = [n - 1, leave[1]]
    w.arm(life["faults"])
    if life.get("solve"):
        step, it = life["solve"]
        count = [0, 0]

        def on_apply(*a):
            if count[0] == step and count[1] == it:
                w.fired["interrupt@solve"] += 1
                w.note("fault", "interrupt", "solve", step)
                raise core.SimInterrupt()
            count[1] += 1

        def body(i, t):
            count[0], count[1] = i + 1, 0

        w.on_apply = on_apply
        try:
            return runs.drive(w, cfg, body=body, stop_after=None)
        finally:
            w.on_apply = None
    h = runs.drive(w, cfg, stop_after=leave)
    return h


def same_state(s, exact, what, got, want):
    for (a, b, name) in [(got[0], want[0], "state")] + [(got[1][k], want[1][k], f"time level {k}") for k in want[1]]:
        ok = runs.same(a, b) if exact else runs.close(a, b, 1e-9)
        require(ok, "trajectory", lambda: f"{what}: {name} differs from the uninterrupted run by {np.abs(a - b).max():.3e}")


def restore(w, cfg, s, labels, level_keys, want, exact, must):
    """What a user does after a failure: take the newest checkpoint that loads.  Returns the index of its label"""
    with w.quiet():
        have = set(runs.listing(os.path.join(w.root, "states")))
    cfg.initialize()
    for i in range(len(labels) - 1, -1, -1):
        t = labels[i]
        if f"{s['name']}_{t}.ngs" not in have or not all(f"{s['name']}_{t}_{f}_{l}.ngs" in have for f, l in level_keys):
            require(i not in must, "checkpoint-missing", lambda: f"the checkpoint of {t} is incomplete: {sorted(have)}")
            continue
        try:
            cfg.io.gfu.load_time_levels(t)
            cfg.io.gfu.load_routine(t)
        except Exception as e:
            require(i not in must, "checkpoint-broken", lambda: f"the checkpoint of {t} does not load: {e!r}")
            w.probe("broken checkpoint passed over")
            w.note("passed over", t, type(e).__name__)
            continue
        same_state(s, exact, f"checkpoint {t}", runs.snapshot(cfg), want[t])
        w.note("restored", t)
        return i
    w.note("restored", None)
    cfg.initialize()
    return 0
