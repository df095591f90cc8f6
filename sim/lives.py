"""A flow computation in several lives: reconfigured, cut short and restarted, judged after every step."""
from __future__ import annotations

import os

import numpy as np

from . import gen as G, model, runs, core
from .core import require
from .model import legal

END = {"n": 1, "set": {}, "how": "memory", "faults": [], "solve": None, "leave": None}


def gen(rng, settings, nmax=3, lmax=4):
    """Settings of the first life, and what happens in each life"""
    first = settings(rng)
    lives = []
    for k in range(rng.randint(1, lmax)):
        life = {"n": rng.randint(1, nmax), "set": {}, "how": rng.choice(("memory", "memory", "files", "files", "same")), "faults": [], "solve": None,
                "leave": None}
        if k:
            new = settings(rng)
            for key in rng.sample(sorted(new), rng.randint(0, 3)):
                life["set"][key] = new[key]
        x = rng.random()
        if x < 0.3:
            life["faults"] = [G.file_fault(rng, 5 * life["n"] + 4, ("crash", "crash", "interrupt", "enospc", "eio"))]
        elif x < 0.55:
            life["solve"] = [rng.choice(("apply", "linearize", "inverse")), rng.randint(0, 4), rng.choice(("interrupt", "abort", "crash"))]
        elif x < 0.75:
            life["leave"] = [rng.randint(0, life["n"] - 1), rng.choice(("close", "drop", "abort", "interrupt", "crash"))]
        lives.append(life)
    return first, lives


def check(s):
    legal(s["lives"] and s["set"]["it"] >= 1 and s["set"]["damping"] > 0 and float(s["set"]["step"]) > 0)
    for x in s["lives"]:
        legal(x["n"] >= 1 and x["set"].get("it", 1) >= 1 and float(x["set"].get("step", 1)) > 0 and x["set"].get("damping", 1) > 0)
        legal(not x["solve"] or len(x["solve"]) == 3)
        legal(not x["leave"] or len(x["leave"]) == 2)


def change(cfg, st):
    cfg.riemann_solver = st["riemann"]
    cfg.time.scheme = st["scheme"]
    cfg.optimizations.static_condensation = st["condense"]
    cfg.nonlinear_solver.max_iterations = st["it"]
    cfg.nonlinear_solver.method.damping_factor = st["damping"]


def newest(w, size):
    """Time of the newest complete state file"""
    with w.quiet():
        folder = os.path.join(w.root, "states")
        times = [float(f[4:-4]) for f in runs.listing(folder)
                 if f.count("_") == 1 and os.path.getsize(os.path.join(folder, f)) == size]
    return max(times) if times else None


def live(w, s, build, judge, prepare=lambda cfg: None, stays_good=lambda cfg: True, in_memory=True, fresh=(), renew=None):
    """Runs all lives.  build(settings) makes the solver, judge(cfg, what) is called after every step, restart and failure.

    fresh: settings whose change starts the computation over again, with a new solver or by renew(cfg, settings) with the same one
    Returns the solver, or None if the run came to a point from where it can not be judged
    """
    st = dict(s["set"])
    cfg = build(st)
    size = 8 * cfg.gfu.vec.size
    at = 0.0

    def restore(what):
        """Goes on from the newest state file; returns its time"""
        t = newest(w, size)
        if t is None:
            cfg.initialize()
            prepare(cfg)
            return 0.0
        cfg.io.gfu.load_routine(t)
        cfg.time.scheme.set_initial_conditions()
        w.probe("restarts from files")
        judge(cfg, f"{what}: restart from {t}")
        return t

    for k, life in enumerate(s["lives"] + [END]):
        new = {**st, **life["set"]}
        if any(new[key] != st[key] for key in fresh):
            with w.quiet():
                for f in runs.listing(os.path.join(w.root, "states")):
                    os.remove(os.path.join(w.root, "states", f))
            if renew and cfg is not None and life["how"] != "files":
                change(cfg, new)
                renew(cfg, new)
                w.probe("renewed")
            else:
                cfg = build(new)
            at = 0.0
        elif cfg is None:
            cfg = build(new)
            at = restore(f"life {k}")
        elif new["scheme"] != st["scheme"] or new["condense"] != st["condense"] or (k and life["how"] == "files"):
            change(cfg, new)
            cfg.initialize()
            prepare(cfg)
            at = restore(f"life {k}")
        else:
            change(cfg, new)
            cfg.initialize_symbolic_forms()
        if life["set"]:
            w.probe("nontrivial")
        st = new
        step = float(st["step"])
        cfg.time.timer.step = step
        cfg.time.timer.interval = (at, round(at + life["n"] * step, 6))
        labels = model.timeline(repr(at), st["step"], life["n"])
        good = [True]

        def body(i, t):
            if not stays_good(cfg):
                good[0] = False
            if good[0]:
                judge(cfg, f"life {k} at {t} with {st}")

        hit = [0]

        def hook(*a):
            hit[0] += 1
            if hit[0] - 1 == life["solve"][1]:
                kind = life["solve"][2]
                w.fired[f"{kind}@{life['solve'][0]}"] += 1
                w.note("fault", kind, *life["solve"][:2])
                if kind == "crash":
                    w.crashed = True
                    raise core.SimCrash()
                raise core.SimInterrupt() if kind == "interrupt" else core.SimAbort()

        w.arm(life["faults"])
        if life["solve"]:
            setattr(w, {"apply": "on_apply", "linearize": "on_linearize", "inverse": "on_inverse"}[life["solve"][0]], hook)
        leave = life["leave"]
        h = runs.drive(w, cfg, body=body, stop_after=[min(leave[0], life["n"] - 1), leave[1]] if leave else None)
        w.on_apply = w.on_linearize = w.on_inverse = None
        w.arm([])
        require(h.labels == labels[:len(h.labels)], "labels", lambda: f"life {k}: {h.labels} instead of {labels}")
        require(h.outcome != "done" or len(h.labels) == life["n"], "labels", lambda: f"life {k}: {h.labels}, due {labels}")
        w.simtime += step * len(h.labels)
        w.note("life", k, h.outcome, len(h.labels))
        w.state(st["riemann"], st["scheme"], st["condense"], h.outcome, life["how"], life["solve"] and life["solve"][0])
        if h.outcome != "done":
            w.probe("nontrivial")
        if not good[0]:
            w.probe("unstable or not converged, not judged")
            return None
        if h.outcome == "crash":
            cfg = None
            w.reboot()
        elif h.outcome == "done":
            at = labels[-1]
        elif life["how"] == "memory" and in_memory:
            # goes on with what is in memory, even from the middle of a Newton solve
            at = h.labels[-1] if h.labels else at
            judge(cfg, f"life {k}: state after {h.outcome}")
        else:
            at = restore(f"life {k}")
    return cfg
