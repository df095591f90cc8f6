"""C12: pseudo time stepping: the ramp of the time step, the iterates, and the stationary state it ends at."""
import math
import os

import numpy as np

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal
from sim.shadow import Shadow

QUICK = 10000
THOROUGH = 200000
RULE = ("a seeded history of up to 5 pseudo time stepping runs of one solver with a seeded ramp (first step, growth factor, growth interval, "
        "largest step), Newton settings that change in between, NaN residuals, failing factorisations, Ctrl-C in an iteration or in output, "
        "loops left early, and new initial conditions; time step and iterate are compared with a numpy iteration at every "
        "linearisation; non-trivial: the step grew, or a run was hit by an injection")
MEASURE = "distinct (scheme, first step, factor, interval, largest step, iterations, injection, what went before) situations"
REAL = "PseudoTimeSteppingConfig, schemes, NonlinearSolver, NewtonsMethod, io layer (states, sensor), NGSolve assembly and factorisation"
STUB = "weak form of the model solver"
ASSUMPTIONS = ["an error within 0.1 % of the convergence criterion may be decided either way"]


def gen(rng, tier, i):
    acts = []
    for k in range(rng.randint(1, 4)):
        acts.append({"step": rng.choice((None, 0.01, 0.1, 0.3, 1.0, 5.0)) if k else rng.choice((0.01, 0.1, 0.3, 1.0, 5.0)),
                     "max": rng.choice((0.05, 0.5, 1.0, 7.0, 100.0, 1e6)), "at": rng.choice((1, 1, 2, 3, 5, 10, 11, 13, 20)),
                     "factor": rng.choice((1, 2, 2, 3, 10)), "it": rng.choice((1, 3, 6, 12, 25, 40)),
                     "crit": rng.choice((1e-3, 1e-8, 1e-10, 1e-14, 1e-30)), "damping": rng.choice((1.0, 1.0, 0.7)),
                     "inject": [[rng.choice((0, 1, 2, 3, 5, 8)), rng.choice(("nan", "memory", "interrupt", "singular", "abort"))]] if rng.random() < 0.35 else [],
                     "leave": rng.choice((None, None, None, "close", "drop", "abort", "interrupt")), "initial": rng.random() < 0.4,
                     "faults": [G.file_fault(rng, 4, ("interrupt", "enospc"))] if rng.random() < 0.2 else [],
                     "reassemble": rng.random() < 0.7})
    sys = G.system(rng, timedep=False)
    return {"sys": sys, "acts": acts, "out": rng.random() < 0.5, "vtk": rng.random() < 0.4, "rate": rng.choice((1, 1, 2, 5, 100)), "via": rng.choice(("attr", "update"))}


class Injected(RuntimeError):
    pass


def run(w, s):
    cfg = runs.build(s["sys"], {"start": "0", "step": "0.1", "n": 1}, time="pseudo_time_stepping")
    if s["out"]:
        legal(s["rate"] >= 1)
        cfg.io.gfu = True
        cfg.io.gfu.rate = s["rate"]
        cfg.io.sensor = True
        cfg.io.sensor.domain = "d"
        cfg.io.sensor.domain["d"].fields = {"U": cfg.parts[0]}
        cfg.io.sensor.domain["d"].rate = s["rate"]
        if s.get("vtk"):
            cfg.io.vtk = True
            cfg.io.vtk.rate = s["rate"]
            cfg.io.vtk.fields = {"U": cfg.parts[0]}
    shadow = Shadow(cfg)
    shadow.initial()
    before, built = "fresh", False
    for k, act in enumerate(s["acts"]):
        legal(act["it"] >= 1 and act["at"] >= 1 and act["factor"] >= 1 and act["max"] > 0 and act["crit"] > 0 and act["damping"] > 0
              and (act["step"] is None or act["step"] > 0) and all(len(x) == 2 for x in act["inject"]))
        before, built = one_act(w, cfg, s, shadow, k, act, before, built)
        if before is None:
            return


def one_act(w, cfg, s, shadow, k, act, before, built):
    time, newton = cfg.time, cfg.nonlinear_solver
    if s["via"] == "attr":
        time.max_time_step, time.increment_at, time.increment_factor = act["max"], act["at"], act["factor"]
        if act["step"]:
            time.timer.step = act["step"]
    else:
        cfg.update({"time.max_time_step": act["max"], "time.increment_at": act["at"], "time.increment_factor": act["factor"]})
        if act["step"]:
            cfg.update({"time.timer.step": act["step"]})
    newton.max_iterations, newton.convergence_criterion, newton.method.damping_factor = act["it"], act["crit"], act["damping"]
    if act["initial"]:
        time.set_initial_conditions()
        shadow.initial()
    what0 = f"act {k} { {x: act[x] for x in ('step', 'max', 'at', 'factor', 'it', 'crit', 'damping', 'inject', 'leave')} } after {before}"
    compare(shadow, what0)
    first = model.vec(cfg.gfu)

    # the iteration as it has to be: time steps, errors, and the iterates
    dt = time.timer.step.Get()
    steps, errors, states = [], [], []
    kinds = dict(map(tuple, act["inject"]))
    failed = False
    for it in range(act["it"]):
        if it > 0 and it % act["at"] == 0 and dt < act["max"]:
            dt = min(dt * act["factor"], act["max"])
        steps.append(dt)
        states.append((shadow.u, shadow.un, shadow.unm))        # before this iteration
        shadow.shift()
        kind = kinds.get(it)
        if kind not in (None, "nan"):
            failed = True
            break
        e, = shadow.solve(dt, 0.0, 1, act["crit"], act["damping"], (0,) if kind == "nan" else ())
        errors.append(e)
        if math.isnan(e) or e < act["crit"]:
            break
    near = any(abs(e - act["crit"]) <= 1e-3 * act["crit"] + 1e-29 for e in errors)

    seen = []

    def on_apply(*a):
        it = len(seen)
        got = time.timer.step.Get()
        seen.append(got)
        if near:
            return
        require(it < len(steps), "iterations", lambda: f"{what0}: iteration {it} after errors {errors}")
        require(abs(got - steps[it]) <= 1e-12 * steps[it], "time-step", lambda: f"{what0}: iteration {it} uses step {got}, not {steps[it]} (all {steps})")
        kind = kinds.get(it)
        cfg.par["poison"].Set(float("nan") if kind == "nan" else 0.0)
        if kind:
            w.fired[f"{kind}@iteration"] += 1
            w.note("inject", kind, it)
        if kind == "memory":
            raise MemoryError("injected")
        if kind == "singular":
            raise Injected("injected")
        if kind == "abort":
            raise core.SimAbort()
        if kind == "interrupt":
            raise core.SimInterrupt()

    w.on_apply, w.on_linearize = on_apply, lambda *a: cfg.par["poison"].Set(0.0)
    w.arm(act["faults"])
    end = {}
    drawn = []
    w.on_vtk = lambda *a: drawn.append(model.vec(cfg.gfu))

    def body(i, t):
        require(i == 0 and t is None, "loop", lambda: f"{what0}: yields {t!r} number {i}")
        end["x"] = model.vec(cfg.gfu)

    try:
        h = runs.drive(w, cfg, hist=Plain(), body=body, reassemble=act["reassemble"] or not built,
                       stop_after=(0, act["leave"]) if act["leave"] else None)
        outcome = h.outcome
    except (MemoryError, Injected):
        outcome = "failed"
    finally:
        w.on_apply = w.on_linearize = w.on_vtk = None
        w.arm([])
        cfg.par["poison"].Set(0.0)
    if near:
        return None, True
    grown = len(set(steps[:len(seen)])) > 1
    if grown or w.fired:
        w.probe("nontrivial")
    w.state(cfg.time.scheme.name, act["step"], act["factor"], act["at"], act["max"], len(seen), tuple(kinds.values()), outcome, before)
    w.note("run", outcome, len(seen), seen[-1:])
    w.steps += len(seen)
    w.simtime += sum(seen)
    if not seen and outcome in ("interrupt", "oserror"):
        # ended in the output of the initial state, before any iteration
        shadow.u, shadow.un, shadow.unm = states[0]
        shadow.sync()
        require(runs.same(model.vec(cfg.gfu), first), "state", lambda: f"{what0}: state changed before any iteration")
        return f"a run ended by {outcome} before it began", True
    require(len(seen) == len(steps), "iterations", lambda: f"{what0}: {len(seen)} iterations, not {len(steps)} with errors {errors}")
    if failed:
        require(outcome in ("failed", "abort", "interrupt"), "failure-hidden", lambda: f"{what0}: {outcome}")
    else:
        require("x" in end, "loop", lambda: f"{what0}: the loop body was never reached ({outcome})")
        require(newton.is_nan == math.isnan(errors[-1]) and newton.is_converged == (errors[-1] < act["crit"]), "status", lambda: f"{what0}: {errors}")
    compare(shadow, f"{what0}: {len(seen)} iterations")
    require(abs(time.timer.step.Get() - steps[-1]) <= 1e-12 * steps[-1], "time-step", lambda: f"{what0}: step {time.timer.step.Get()} is left behind")

    if not failed and errors[-1] < min(1e-8, act["crit"]) and cfg.time.scheme.name == "implicit_euler":
        p = shadow.ref.p
        r = p["lam"] * shadow.u + p["mu"] * shadow.u**3 + p["c"] * (shadow.u - shadow.w) - shadow.ref.src
        require(float(np.abs(r).max()) < 1e-2, "stationary", lambda: f"{what0}: converged, but the residual is {r}")
        w.probe("converged to the stationary state")
    if s["out"] and outcome == "done":
        with w.quiet():
            t = time.timer.t.Get()
            names = runs.listing(os.path.join(w.root, "states"))
            require(f"gfu_{t}.ngs" in names, "final-state", lambda: f"{what0}: {names}")
            got = runs.load_file(cfg, os.path.join(w.root, "states", f"gfu_{t}.ngs"))
            require(runs.same(got, end["x"]), "final-state", lambda: f"{what0}: the file is not the final state")
            rows = open(os.path.join(w.root, "sensors", "d.csv")).read().split()
            area = shadow.ref.area
            want = [float(area @ first[:shadow.ne]), float(area @ end["x"][:shadow.ne])]
            vals = [float(r.split(",")[1]) for r in rows[-2:]]
            require(all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(vals, want)), "final-row", lambda: f"{what0}: {rows}, not {want}")
        if s.get("vtk"):
            require(len(drawn) == 2 and runs.same(drawn[0], first) and runs.same(drawn[1], end["x"]), "final-snapshot",
                    lambda: f"{what0}: VTK shows {drawn}, not {first} and {end['x']}")
    return f"a run that was {outcome}, {'grown' if grown else 'constant'} step", True


class Plain:
    """Histories of pseudo time have no labels"""
    labels = ()

    def __init__(self):
        self.outcome = self.error = None

    def see(self, cfg, t):
        pass


def compare(shadow, what):
    for name, d in shadow.differences().items():
        require(d <= 1e-8, "recurrence", lambda: f"{what}: {name} differs from the reference by {d:.3e}")
