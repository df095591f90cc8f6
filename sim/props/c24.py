"""C24: stationary computations: iterates, equations and output, alone and between transient ones."""
import math
import os

import numpy as np
import ngsolve as ngs

from sim import gen as G, core, flows, hdg, model, runs
from sim.core import require
from sim.model import legal

QUICK = 3000
THOROUGH = 60000
RULE = ("either a seeded history of up to 5 stationary, transient and pseudo time runs of one model solver, which continue from each other's states by hand or from the saved file, "
        "with changed Newton settings, NaN residuals, failing factorisations, Ctrl-C in iterations or output, failing disks and loops left early, compared with a numpy iteration; "
        "or a stationary flow with seeded conditions, viscosity, layers and flux that is solved in up to 3 attempts, some of them interrupted or in renewed spaces, whose unknowns "
        "are put into equations the check writes down on its own, and which transient steps must not change; non-trivial: an injection hit, or the kind of run changed")
MEASURE = "distinct (kind of run, iterations, injection, what went before) and (conditions, order, viscous, flux, attempts) situations"
REAL = "StationaryConfig, TransientConfig, PseudoTimeSteppingConfig, NonlinearSolver, NewtonsMethod, io layer, and the flow solver"
STUB = "weak form of the model solver"
ASSUMPTIONS = ["an error within 0.1 % of the convergence criterion may be decided either way", "flows: only steps that converge to 1e-24 are judged; no characteristic conditions"]

INF = float("inf")
FLOW_SIDES = {"in": ("farfield", "farfield-full"), "out": ("farfield", "farfield-full", "outflow")}


def gen(rng, tier, i):
    if i % 12 == 0:
        return flow_gen(rng, tier, i)
    acts = []
    for k in range(rng.randint(1, 5)):
        acts.append({"mode": rng.choice(("stationary",) * 3 + ("transient", "pseudo")), "it": rng.choice((1, 3, 6, 12, 25)), "crit": rng.choice((1e-3, 1e-8, 1e-10, 1e-14, 1e-30)),
                     "damping": rng.choice((1.0, 1.0, 0.7, 1.3)), "n": rng.randint(1, 3), "step": rng.choice((0.05, 0.1, 0.25)), "scheme": rng.choice(("implicit_euler", "bdf2")),
                     "inject": [[rng.choice((0, 0, 1, 2, 3)), rng.choice(("nan", "memory", "interrupt", "singular", "abort"))]] if rng.random() < 0.35 else [],
                     "leave": rng.choice((None, None, None, "close", "drop", "abort", "interrupt")), "initial": rng.random() < 0.3, "carry": rng.choice(("file", "hand", "file", None)),
                     "faults": [G.file_fault(rng, 4, ("interrupt", "enospc", "eio"))] if rng.random() < 0.2 else [], "reassemble": rng.random() < 0.7,
                     "compile": rng.choice((None, None, None, [rng.random() < 0.5, rng.random() < 0.5, rng.choice((None, 0, 1))])), "via": rng.choice(("solve", "loop", "loop")),
                     "rates": [rng.choice((1, 2, 3, 100)) for _ in range(4)] if rng.random() < 0.4 else None})
    return {"kind": "model", "sys": G.system(rng, timedep=False), "acts": acts, "out": rng.random() < 0.6, "sensor": rng.random() < 0.5, "vtk": rng.random() < 0.3}


def flow_gen(rng, tier, i):
    s = flows.gen(rng, tier, i)
    s["views"], s["cuts"], s["vary"] = s["views"][:1], [], [s["vary"][0], 0.0]
    if s["sides"][2] == "periodic":
        s["sides"] = [rng.choice(FLOW_SIDES["in"]), rng.choice(FLOW_SIDES["out"]), "periodic", "periodic"]
    else:
        walls = flows.WALLS + (("isothermal_wall",) if s["viscous"] else ())
        a, b = (rng.choice(walls), rng.choice(walls)) if rng.random() < 0.5 else ("farfield", "farfield")
        s["sides"] = [rng.choice(FLOW_SIDES["in"]), rng.choice(FLOW_SIDES["out"]), a, b]
    s["kind"] = "flow"
    s["attempts"] = [{"condense": rng.random() < 0.5, "renew": rng.choice((None, "keep", "initial")), "hit": [rng.choice(("apply", "linearize", "inverse")), rng.randint(0, 3),
                      rng.choice(("interrupt", "abort"))] if rng.random() < 0.4 else None} for _ in range(rng.randint(1, 3))]
    s["after"] = rng.choice((None, "implicit_euler", "bdf2"))
    return s


def run(w, s):
    legal(s["kind"] in ("model", "flow"))
    (flow_run if s["kind"] == "flow" else model_run)(w, s)


# --------------------------------------------------------------------------- the model solver

class Injected(RuntimeError):
    pass


class Plain:
    labels = ()

    def __init__(self):
        self.outcome = self.error = None

    def see(self, cfg, t):
        pass


class Twin:
    """The reference: state and, for transient runs, its time levels"""

    def __init__(self, cfg):
        self.cfg, self.ref, self.ne = cfg, model.OdeReference(cfg), cfg.mesh.ne
        self.initial()

    def initial(self):
        self.set(np.concatenate([self.ref.u0, self.ref.p["g"] * self.ref.u0]))

    def set(self, x):
        self.u, self.w = x[:self.ne].copy(), x[self.ne:].copy()
        self.un = self.unm = self.old()

    def old(self):
        return self.x if self.ref.joint else self.u

    @property
    def x(self):
        return np.concatenate([self.u, self.w])

    def newton(self, dt, it, crit, damping, poison=(), bdf2=False):
        self.u, self.w, errors = self.ref.newton(self.u, self.w, self.un, self.unm, dt, 0.0, bdf2, it, crit, damping, set(poison))
        return errors

    def shift(self):
        self.unm, self.un = self.un, self.old()

    def compare(self, kind, what):
        a, b = model.vec(self.cfg.gfu), self.x
        with np.errstate(all="ignore"):
            d = np.abs(a - b) / (1 + np.abs(b))
        require(not np.isnan(d).any() and d.max() <= 1e-8, kind, lambda: f"{what}: the state differs from the reference by {d.max():.3e}")


def model_run(w, s):
    cfg = runs.build(s["sys"], {"start": "0", "step": "0.1", "n": 1}, init=False)
    cfg.time = "stationary"
    cfg.initialize()
    twin = Twin(cfg)
    if s["out"]:
        cfg.io.gfu = True
    if s["sensor"]:
        cfg.io.sensor = True
        cfg.io.sensor.domain = "d"
        cfg.io.sensor.domain["d"].fields = {"U": cfg.parts[0]}
    if s["vtk"]:
        cfg.io.vtk = True
        cfg.io.vtk.fields = {"U": cfg.parts[0]}
    box = {"mode": "stationary", "before": "fresh", "built": False, "file": None}
    for k, act in enumerate(s["acts"]):
        legal(act["it"] >= 1 and act["crit"] > 0 and 0 < act["damping"] < 2 and act["n"] >= 1 and act["step"] > 0 and all(len(x) == 2 for x in act["inject"]))
        if not one_act(w, cfg, s, twin, k, act, box):
            return


def change_mode(w, cfg, s, twin, act, box, what):
    """Another kind of run goes on from the same state, or begins anew"""
    mode = {"pseudo": "pseudo_time_stepping"}.get(act["mode"], act["mode"])
    if box["mode"] != act["mode"]:
        now = model.vec(cfg.gfu)
        cfg.time = mode
        if act["mode"] != "stationary":
            cfg.time.scheme = act["scheme"]
        cfg.initialize()
        if s["sensor"]:
            cfg.io.sensor.domain["d"].fields = {"U": cfg.parts[0]}
        if s["vtk"]:
            cfg.io.vtk.fields = {"U": cfg.parts[0]}
        twin.initial()
        twin.compare("initial-state", what)
        carry = act["carry"]
        if carry == "file" and s["out"] and box["file"] is not None:
            with w.quiet():
                cfg.io.gfu.load_routine()
            twin.set(box["file"])
        elif carry:
            cfg.gfu.vec.FV().NumPy()[:] = now
            twin.set(now)
        if act["mode"] != "stationary":
            cfg.time.scheme.set_initial_conditions()
        box.update(mode=act["mode"], built=False)
        w.probe("nontrivial")
    elif act["initial"]:
        cfg.time.set_initial_conditions()
        twin.initial()


def one_act(w, cfg, s, twin, k, act, box):
    newton = cfg.nonlinear_solver
    what = f"act {k} { {x: act[x] for x in ('mode', 'it', 'crit', 'damping', 'inject', 'leave', 'carry')} } after {box['before']}"
    change_mode(w, cfg, s, twin, act, box, what)
    model.compile_options(cfg, act["compile"] and act["compile"][:2])
    newton.max_iterations, newton.convergence_criterion, newton.method.damping_factor = act["it"], act["crit"], act["damping"]
    if act.get("rates"):
        # a run that is not in time has nothing to leave out
        legal(len(act["rates"]) == 4 and all(x >= 1 for x in act["rates"]))
        gfu, levels, sensor, vtk = act["rates"]
        if s["out"]:
            cfg.io.gfu.rate, cfg.io.gfu.time_level_rate = gfu, levels
        if s["sensor"]:
            cfg.io.sensor.domain["d"].rate = sensor
        if s["vtk"]:
            cfg.io.vtk.rate = vtk
    first = twin.x
    twin.compare("state", f"{what}: beginning")
    if act["mode"] != "stationary":
        return in_time(w, cfg, s, twin, act, box, what)

    # iterates as they have to be
    kinds = dict(map(tuple, act["inject"]))
    states, errors, failed = [], [], False
    for it in range(act["it"]):
        states.append(twin.x)
        kind = kinds.get(it)
        if kind not in (None, "nan"):
            failed = True
            break
        e, = twin.newton(INF, 1, act["crit"], act["damping"], (0,) if kind == "nan" else ())
        errors.append(e)
        if math.isnan(e) or e < act["crit"]:
            break
    if any(abs(e - act["crit"]) <= 1e-3 * act["crit"] + 1e-29 for e in errors) or not np.isfinite(twin.x).all() or np.abs(twin.x).max() > 1e6:
        w.probe("undecidable")
        return False

    seen = []

    def on_apply(*a):
        it = len(seen)
        seen.append(it)
        require(it < len(states), "iterations", lambda: f"{what}: iteration {it} after errors {errors}")
        x = model.vec(cfg.gfu)
        require((np.abs(x - states[it]) <= 1e-8 * (1 + np.abs(states[it]))).all(), "iterate", lambda: f"{what}: iteration {it} begins with {x}, not {states[it]}")
        kind = kinds.get(it)
        cfg.par["poison"].Set(float("nan") if kind == "nan" else 0.0)
        if kind:
            w.fired[f"{kind}@iteration"] += 1
            w.note("inject", kind, it)
            w.probe("nontrivial")
        if kind == "memory":
            raise MemoryError("injected")
        if kind == "singular":
            raise Injected("injected")
        if kind == "abort":
            raise core.SimAbort()
        if kind == "interrupt":
            raise core.SimInterrupt()

    drawn = []
    w.on_vtk = lambda *a: drawn.append(model.vec(cfg.gfu))
    w.on_apply, w.on_linearize = on_apply, lambda *a: cfg.par["poison"].Set(0.0)
    w.arm(act["faults"])
    fired = sum(n for x, n in w.fired.items() if not x.endswith("@iteration"))
    end = {}

    def body(i, t):
        require(i == 0 and t is None, "loop", lambda: f"{what}: yields {t!r} number {i}")
        end["x"] = model.vec(cfg.gfu)

    again = act["reassemble"] or not box["built"]

    def on_compile(i):
        if i == act["compile"][2]:
            w.fired["no compiler@iteration"] += 1
            raise Injected("injected")

    if act["compile"]:
        w.on_compile = on_compile
    whole = act["via"] == "solve" and not act["leave"]
    try:
        if whole:
            h = runs.drive(w, cfg, hist=Plain(), routine=lambda: iter_solve(cfg, again))
        else:
            h = runs.drive(w, cfg, hist=Plain(), body=body, reassemble=again, stop_after=(0, act["leave"]) if act["leave"] else None)
        outcome = h.outcome
    except (MemoryError, Injected):
        outcome = "failed"
    finally:
        w.on_apply = w.on_linearize = w.on_compile = w.on_vtk = None
        w.arm([])
        cfg.par["poison"].Set(0.0)
    box["built"] = True
    broken = sum(n for x, n in w.fired.items() if not x.endswith("@iteration")) > fired
    if w.fired:
        w.probe("nontrivial")
    w.state(s["sys"]["rhs"], len(seen), tuple(kinds.values()), outcome, box["before"])
    w.note("run", outcome, len(seen))
    w.steps += len(seen)
    if not seen and outcome == "failed" and again and act["compile"]:
        # the forms could not be compiled
        box.update(built=False, before="a run without compiler")
        twin.set(first)
        twin.compare("state", f"{what}: ended before any iteration")
        return True
    if not seen and outcome in ("interrupt", "oserror"):
        # the output of the beginning failed
        twin.set(first)
        twin.compare("state", f"{what}: ended by {outcome} before any iteration")
        box["before"], box["file"] = f"a run ended by {outcome} before it began", None
        return True
    require(len(seen) == len(states), "iterations", lambda: f"{what}: {len(seen)} iterations, not {len(states)} with errors {errors}")
    if failed:
        require(outcome in ("failed", "abort", "interrupt"), "failure-hidden", lambda: f"{what}: {outcome}")
    else:
        require("x" in end or whole, "loop", lambda: f"{what}: the loop body was never reached ({outcome})")
        require(newton.is_nan == math.isnan(errors[-1]) and newton.is_converged == (errors[-1] < act["crit"]), "status", lambda: f"{what}: {errors}")
    twin.compare("iterate", f"{what}: {len(seen)} iterations, {outcome}")
    if not failed and errors[-1] < 1e-13 and act["damping"] == 1.0:
        p = twin.ref.p
        r = p["lam"] * twin.u + p["mu"] * twin.u**3 + p["c"] * (twin.u - twin.w) - twin.ref.src
        require(float(np.abs(r).max()) < 1e-3, "stationary", lambda: f"{what}: converged, but the residual is {r}")
        w.probe("converged")
    output(w, cfg, s, twin, what, first, outcome, box, broken)
    if s["vtk"] and not broken:
        want = [first] + [twin.x] * (outcome == "done")
        require(len(drawn) == len(want) and all((np.abs(x - y) <= 1e-8 * (1 + np.abs(y))).all() for x, y in zip(drawn, want)), "vtk", lambda: f"{what}: VTK shows {drawn}, not {want}")
    box["before"] = f"a run that was {outcome}"
    return True


def iter_solve(cfg, again):
    cfg.solve(again)
    yield from ()


def output(w, cfg, s, twin, what, first, outcome, box, broken):
    last = twin.x if outcome == "done" else first
    with w.quiet():
        if s["out"]:
            if broken:
                box["file"] = None  # left by a file fault
            else:
                names = runs.listing(os.path.join(w.root, "states"))
                require("gfu.ngs" in names and not [n for n in names if "None" in n], "state-file", lambda: f"{what}: {names}")
                got = runs.load_file(cfg, os.path.join(w.root, "states", "gfu.ngs"))
                require((np.abs(got - last) <= 1e-8 * (1 + np.abs(last))).all(), "state-file", lambda: f"{what}: the file is {got}, not {last}, after {outcome}")
                if outcome == "done":
                    require(runs.same(got, model.vec(cfg.gfu)), "state-file", lambda: f"{what}: the file is not the final state")
                box["file"] = got
        if s["sensor"] and not broken:
            rows = [r.split(",") for r in open(os.path.join(w.root, "sensors", "d.csv")).read().split()]
            require(not any(r[0] == "t" for r in rows), "rows", lambda: f"{what}: {rows} has times")
            area = twin.ref.area
            want = [float(area @ first[:twin.ne])] + ([float(area @ last[:twin.ne])] if outcome == "done" else [])
            got = [list(map(float, r)) for r in rows[-len(want):]]
            require(all(len(r) == 1 for r in got) and all(abs(r[0] - x) <= 1e-7 * (1 + abs(x)) for r, x in zip(got, want)), "rows", lambda: f"{what}: {rows}, not {want}")


def in_time(w, cfg, s, twin, act, box, what):
    """A run in time in between, without faults"""
    bdf2 = act["mode"] == "transient" and cfg.time.scheme.name == "bdf2"
    timer = cfg.time.timer
    timer.step = act["step"]
    near = []
    if act["mode"] == "transient":
        timer.interval = (0.0, act["n"] * act["step"])

        def body(i, t):
            if near:
                return
            errors = twin.newton(act["step"], act["it"], act["crit"], act["damping"], bdf2=bdf2)
            twin.shift()
            if bad(errors):
                near.append(i)
            else:
                twin.compare("step", f"{what}: step {i + 1}")
    else:
        cfg.time.max_time_step = act["step"]

        def body(i, t):
            for it in range(act["it"]):
                twin.shift()
                e, = twin.newton(act["step"], 1, act["crit"], act["damping"], bdf2=cfg.time.scheme.name == "bdf2")
                if bad([e]):
                    near.append(it)
                    return
                if e < act["crit"]:
                    break
            twin.compare("step", f"{what}: end of pseudo time")

    def bad(errors):
        return any(abs(e - act["crit"]) <= 1e-3 * act["crit"] + 1e-29 for e in errors) or not np.isfinite(twin.x).all() or np.abs(twin.x).max() > 1e6

    h = runs.drive(w, cfg, hist=Plain(), body=body, reassemble=act["reassemble"] or not box["built"])
    if near:
        w.probe("undecidable")
        return False
    require(h.outcome == "done", "loop", lambda: f"{what}: {h.outcome}")
    box.update(before=f"a {act['mode']} run", built=True)
    w.note("run", act["mode"], h.outcome)
    w.simtime += act["n"] * act["step"]
    return True


# --------------------------------------------------------------------------- flows

def flow_run(w, s):
    legal(len(s["views"]) == 1 and not s["cuts"] and s["vary"][1] == 0.0 and s["attempts"])
    legal(all(k in ("farfield", "farfield-full", "outflow", "periodic", "isothermal_wall") + flows.WALLS for k in s["sides"]) and "farfield" in s["sides"][0])
    flows.check(s)
    v = s["views"][0]
    try:
        stationary_flow(w, s, v)
    except Exception as e:
        if not flows.broken(e):
            raise
        w.probe("broke down")
    finally:
        flows.mesh_of(s).UnsetDeformation()
    w.state(s["sides"], [x and x[0] for x in s["layers"]], s["order"], s["viscous"], s["riemann"], v["scaling"], [a["renew"] for a in s["attempts"]])


def stationary_flow(w, s, v):
    cfg = flows.build(s, v)
    step = cfg.time.timer.step.Get()
    cfg.time = "stationary"
    cfg.optimizations.static_condensation = v["condense"]
    cfg.initialize()
    size = np.abs(np.nan_to_num(model.vec(cfg.gfu))).max()
    solved = None
    for k, a in enumerate(s["attempts"]):
        if a["renew"] == "keep":
            x = model.vec(cfg.gfu)
            cfg.optimizations.static_condensation = a["condense"]
            cfg.initialize()
            cfg.gfu.vec.FV().NumPy()[:] = x
        elif a["renew"] == "initial":
            cfg.time.set_initial_conditions()
        hit = [0]

        def hook(*args):
            hit[0] += 1
            if hit[0] - 1 == a["hit"][1]:
                w.fired[f"{a['hit'][2]}@{a['hit'][0]}"] += 1
                raise core.SimInterrupt() if a["hit"][2] == "interrupt" else core.SimAbort()

        if a["hit"]:
            setattr(w, {"apply": "on_apply", "linearize": "on_linearize", "inverse": "on_inverse"}[a["hit"][0]], hook)
        h = runs.drive(w, cfg, hist=Plain())
        w.on_apply = w.on_linearize = w.on_inverse = None
        w.note("attempt", a, h.outcome)
        if h.outcome != "done" or k:
            w.probe("nontrivial")
        now = np.nan_to_num(model.vec(cfg.gfu))
        if np.abs(now).max() > 50 * size:
            return
        if h.outcome != "done" or not cfg.nonlinear_solver.is_converged:
            w.probe("not converged")
            continue
        eq = hdg.Equations(s, v, cfg)
        eq.terms.pop("time")
        for name, (off, big) in eq.residual(0.0, now, now, now).items():
            big = max(big, 0.1 * v["size"] * size)
            require(off <= 1e-8 * big, "not-solved", lambda: f"attempt {k} of {s['attempts']}: the equations of {name} are off by {off:.3e}, their largest term is {big:.3e}")
        w.probe("stationary flows compared")
        solved = now
    if solved is None or s["after"] is None or not runs.same(solved, np.nan_to_num(model.vec(cfg.gfu))):
        return
    # the flow does not change in time
    x = model.vec(cfg.gfu)
    cfg.time = "transient"
    cfg.time.scheme = s["after"]
    cfg.time.timer.step = step
    cfg.time.timer.interval = (0.0, 2 * step)
    cfg.initialize()
    cfg.gfu.vec.FV().NumPy()[:] = x
    cfg.time.scheme.set_initial_conditions()

    def body(i, t):
        if not cfg.nonlinear_solver.is_converged:
            return
        off = np.abs(np.nan_to_num(model.vec(cfg.gfu)) - solved).max()
        require(off <= 1e-7 * size, "not-stationary", lambda: f"a stationary flow changes by {off:.3e} in step {i + 1}")
        w.probe("transient steps compared")

    runs.drive(w, cfg, body=body)
    w.simtime += 2 * s["step"]
