"""C10: the Newton loop: when it stops, what it reports, and that nothing it could not compute gets into the state."""
import logging
import math

import numpy as np

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal
from sim.shadow import Shadow

QUICK = 12000
THOROUGH = 300000
RULE = ("a seeded history of solves of one nonlinear system (complete runs, and the iteration driven by hand) under seeded Newton settings "
        "that change in between, with residuals that are NaN or far off, failing factorisations, failing allocations, user exceptions and Ctrl-C "
        "injected at a seeded step, iteration and phase (residual, linearisation, factorisation), each history going on with the same "
        "solver afterwards; every iterate, reported error, status flag and log record is compared with a numpy Newton iteration; "
        "non-trivial: an injection fired")
MEASURE = "distinct (act, scheme, max iterations, criterion, damping, injection kind and phase, step, iteration, iterations done) situations"
REAL = "NonlinearSolver, DirectNonlinearSolver, NewtonsMethod, schemes, TransientConfig, NGSolve assembly and factorisation, log records"
STUB = "weak form of the model solver; NaN is put into the residual through a parameter, failures are raised at NGSolve's Apply, AssembleLinearization and Inverse"
ASSUMPTIONS = ["an error within 0.1 % of the convergence criterion may be decided either way"]


def gen(rng, tier, i):
    acts = []
    for _ in range(rng.randint(1, 4)):
        g = G.grid(rng, nmax=4, simple=True)
        acts.append({"do": rng.choice(("run", "run", "run", "hand")), "grid": g,
                     "it": rng.choice((1, 2, 3, 4, 6, 10, 10)), "crit": rng.choice((1e-1, 1e-3, 1e-6, 1e-8, 1e-12, 1e-20)),
                     "damping": rng.choice((1.0, 1.0, 1.0, 0.5, 0.8, 1.3, 1.6)), "reassemble": rng.random() < 0.7, "reinit": rng.random() < 0.4,
                     "inject": [[rng.randint(0, g["n"] - 1), rng.choice((0, 0, 1, 1, 2, 3, 5)), rng.choice(KINDS), rng.choice(PHASES)]
                                for _ in range(rng.choice((0, 1, 1, 2)))],
                     "leave": rng.randint(0, 4) if rng.random() < 0.4 else None})
    par = {**G.par(rng), "mu": rng.choice((0.0, 0.3, 1.0, 2.0))}
    if rng.random() < 0.2:
        # growing solutions: residual and update point in opposite directions
        par.update(lam=rng.choice((-33.3, -170.0)), mu=0.0)
        if rng.random() < 0.15:
            # until products of residual and update are barely numbers
            act = rng.choice(acts)
            act["do"], act["grid"]["n"], act["leave"] = "run", rng.randint(40, 130), None
            par["a"] = 0.0
    return {"sys": {**G.system(rng), "par": par}, "acts": acts, "grid": G.grid(rng, nmax=3, simple=True)}


KINDS = ("nan", "nan", "nan", "kick", "memory", "singular", "abort", "interrupt")
POISON = {"nan": float("nan"), "kick": 3e4}          # a residual that is no number, or far off
PHASES = ("apply", "linearize", "inverse")


class Injected(RuntimeError):
    pass


class NoMemory(MemoryError):
    pass


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.got = []

    def emit(self, record):
        if record.name == "dream.solver":
            self.got.append((record.levelname, record.getMessage()))


def run(w, s):
    cfg = runs.build(s["sys"], s["grid"])
    shadow = Shadow(cfg)
    records = Records()
    logger = logging.getLogger("dream")
    logger.setLevel(logging.INFO)
    logger.addHandler(records)
    try:
        for k, act in enumerate(s["acts"]):
            legal(act["grid"]["n"] >= 1 and act["it"] >= 1 and act["crit"] > 0 and act["damping"] > 0)
            one_act(w, cfg, shadow, records, k, act)
    finally:
        logger.removeHandler(records)


def one_act(w, cfg, shadow, records, k, act):
    g = act["grid"]
    n = g["n"] if act["do"] == "run" else 1
    cfg.time.timer.interval, cfg.time.timer.step = runs.interval_of(g), float(g["step"])
    cfg.nonlinear_solver.max_iterations, cfg.nonlinear_solver.convergence_criterion = act["it"], act["crit"]
    cfg.nonlinear_solver.method.damping_factor = act["damping"]
    if act["reinit"]:
        cfg.time.set_initial_conditions()
    shadow.sync()
    if act["reinit"]:
        shadow.initial()
        check_state(shadow, f"act {k}: initial state")
    dt, labels = float(g["step"]), runs.labels_of(g)
    inject = {(st, it): (kind, phase) for st, it, kind, phase in act["inject"] if kind in KINDS and phase in PHASES}
    where = [0, 0]
    solver = cfg.nonlinear_solver

    def hit(phase):
        kind, at = inject.get(tuple(where), (None, None))
        if phase == "apply":
            cfg.par["poison"].Set(POISON.get(kind, 0.0))
            if kind in POISON:
                w.fired[f"{kind}@apply"] += 1
        else:
            cfg.par["poison"].Set(0.0)
        if kind in (None, *POISON) or at != phase:
            return
        w.fired[f"{kind}@{phase}"] += 1
        w.note("inject", kind, phase, *where)
        if kind == "memory":
            raise NoMemory("injected")
        if kind == "singular":
            raise Injected("UmfpackInverse: Numeric factorization failed.")
        raise core.SimAbort() if kind == "abort" else core.SimInterrupt()

    def done_iteration(*a):
        hit("inverse")
        where[1] += 1

    w.on_apply, w.on_linearize, w.on_inverse = lambda *a: hit("apply"), lambda *a: hit("linearize"), done_iteration
    records.got.clear()
    if act["reassemble"] or not hasattr(cfg.time.scheme, "blf"):
        cfg.time.assemble()

    def size():
        return float(np.nan_to_num(np.abs(shadow.x)).max())

    def due(step, stop=None):
        """What this step has to do, up to an injected failure"""
        nans = [it for (st, it), (kind, _) in inject.items() if st == step and kind == "nan"]
        off = {it: POISON[kind] for (st, it), (kind, _) in inject.items() if st == step and kind in POISON}
        fails = [it for (st, it), (kind, _) in inject.items() if st == step and kind not in POISON]
        first = min(nans + [10**6])
        cut = min(fails + [10**6])
        t = labels[step]
        stops = [x for x in (cut if cut < first else None, stop) if x is not None]
        errors = shadow.solve(dt, t, act["it"], act["crit"], act["damping"], off, stop=min(stops) if stops else None)
        near = any(abs(e - act["crit"]) <= 1e-3 * act["crit"] + 1e-28 * (1 + size()**2) for e in errors)
        failed = cut < first and len(errors) == cut and cut < act["it"] and not (errors and errors[-1] < act["crit"]) and (stop is None or cut < stop)
        return errors, failed, near

    def check_step(step, failed_expected, errors, t):
        what = f"act {k} step {step} ({act['do']}, {solver.max_iterations} iterations, criterion {solver.convergence_criterion}, " \
               f"damping {act['damping']}, injected {act['inject']})"
        require(where[1] == len(errors), "iterations", lambda: f"{what}: {where[1]} iterations, not {len(errors)} with errors {errors}")
        check_state(shadow, what)
        got = [m for lv, m in records.got if lv == "INFO" and m.startswith("residual")]
        want = [f" | iteration: {it}" + (f" | t: {t}" if t is not None else "") for it in range(len(errors))]
        require(len(got) == len(want) and all(a.endswith(b) for a, b in zip(got, want)), "log-records", lambda: f"{what}: {got}, not {want}")
        for m, e in zip(got, errors):
            v = float(m.split()[1])
            require((math.isnan(v) and math.isnan(e)) or abs(v - e) <= 1e-5 * e + 1e-18 * (1 + size()**2), "reported-error", lambda: f"{what}: {m}, not {e}")
        lost = [m for lv, m in records.got if lv == "ERROR"]
        isnan = bool(errors) and math.isnan(errors[-1])
        require(len(lost) == isnan, "log-records", lambda: f"{what}: {lost} for errors {errors}")
        require(bool(solver.is_nan) == isnan, "status", lambda: f"{what}: is_nan={solver.is_nan} for {errors}")
        conv = bool(errors) and errors[-1] < act["crit"]
        require(bool(solver.is_converged) == conv, "status", lambda: f"{what}: is_converged={solver.is_converged} for {errors}")
        w.state(act["do"], act["it"], act["crit"], act["damping"], str(inject.get((step, len(errors) - isnan))), step, len(errors))
        w.note("step", step, len(errors), isnan)
        if isnan:
            w.probe("diverged steps")
        w.probe("converged steps" if conv else "steps at the iteration limit or cut")

    if act["do"] == "hand":
        t = labels[0]
        cfg.time.timer.t = t
        errors, failed, near = due(0, act["leave"])
        outcome, yields = "done", 0
        loop = solver.solve(t)
        try:
            for it in loop:
                if act["leave"] is not None and it >= act["leave"]:
                    outcome = "stopped"
                    break
                yields += 1
        except (core.SimAbort, core.SimInterrupt, Injected, NoMemory):
            outcome = "failed"
        finally:
            loop.close()
        clear(w, cfg)
        if near:
            return
        require((outcome == "failed") == failed, "failure-hidden", lambda: f"act {k}: ended with {outcome}, {where} {inject}")
        check_step(0, failed, errors, t)
        return finish(w, inject)

    outcome, step = "done", 0
    near = False
    loop = cfg.time.start_solution_routine(False)
    expect = due(0)
    try:
        for i, t in enumerate(loop):
            errors, failed, near = expect
            if near:
                break
            require(not failed, "failure-hidden", lambda: f"act {k}: step {i} went on after an injected failure ({act['inject']}, {where})")
            shadow.shift()
            require(t == labels[i], "label", f"{t} is not {labels[i]}")
            check_step(i, failed, errors, t)
            w.steps += 1
            w.simtime += dt
            step = i + 1
            if size() > 1e70:
                w.probe("huge solutions")
            if (act["leave"] is not None and i == act["leave"]) or size() > 1e85:
                outcome = "stopped"
                break
            where[:] = [step, 0]
            records.got.clear()
            shadow.sync()
            if step < n:
                cfg.time.timer.t = labels[step]
                expect = due(step)
    except (core.SimAbort, core.SimInterrupt, Injected, NoMemory):
        outcome = "failed"
    finally:
        loop.close()
    clear(w, cfg)
    if outcome == "failed" and not expect[2]:
        errors, failed, near = expect
        require(failed, "spurious-failure", lambda: f"act {k} step {step}: failed at {where} with {act['inject']}")
        check_step(step, True, errors, labels[step])
        w.probe("failed solves")
    elif outcome == "done" and not near:
        require(step == n, "steps", f"act {k}: {step} steps of {n}")
    finish(w, inject)


def check_state(shadow, what):
    for name, d in shadow.differences().items():
        require(d <= 1e-9, "state", lambda: f"{what}: {name} differs from the reference by {d:.3e}")


def clear(w, cfg):
    w.on_apply = w.on_linearize = w.on_inverse = None
    cfg.par["poison"].Set(0.0)


def finish(w, inject):
    if w.fired:
        w.probe("nontrivial")
