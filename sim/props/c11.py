"""C11: every step solves the implicit Euler or BDF2 equation of the states that went before it."""
import numpy as np
import ngsolve as ngs

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal
from sim.shadow import Shadow

QUICK = 6500
THOROUGH = 240000
RULE = ("a seeded history of up to 7 acts on one solver: runs on new or adjoining intervals with another step, left by break, exception, "
        "Ctrl-C in a Newton iteration or in output, with and without reassembly; change of scheme with initialisation; new initial "
        "conditions; going back to a state and its time levels stored by an earlier run; every state and time level after every step "
        "is compared with a numpy implicit Euler / BDF2 recurrence that is never synchronised with the solver; non-trivial: a run "
        "followed another one without initialisation, or was left early")
MEASURE = "distinct (act, scheme, step, steps, how it was left, reassembled, what went before) situations"
REAL = "ImplicitEuler, BDF2, TransientConfig, Timer, Newton solver, GridfunctionStream (time levels), NGSolve assembly and factorisation"
STUB = "weak form of the model solver (linear or cubic reaction, coupling, source that may depend on the time)"
ASSUMPTIONS = ["Newton is run to 1e-13; states are compared to 1e-8",
               "the scheme is changed together with an initialisation, as its forms are built there"]


def gen(rng, tier, i):
    acts = []
    for k in range(rng.randint(2, 5 if tier == "quick" else 8)):
        x = rng.random()
        if x < 0.68 or not acts:
            acts.append({"do": "run", "grid": G.grid(rng, nmax=5, simple=True), "adjoin": rng.random() < 0.6, "reassemble": rng.random() < 0.6,
                         "leave": rng.choice((None, None, "close", "drop", "abort", "interrupt", "solve", "solve", "save")),
                         "at": rng.randint(0, 4), "it": rng.choice((0, 1, 1, 2))})
        elif x < 0.78:
            acts.append({"do": "scheme", "scheme": rng.choice(("implicit_euler", "bdf2", "ie"))})
        elif x < 0.88:
            acts.append({"do": "initial"})
        else:
            acts.append({"do": "restore", "which": rng.randint(0, 30)})
    acts.append({"do": "run", "grid": G.grid(rng, nmax=5, simple=True), "adjoin": rng.random() < 0.7, "reassemble": rng.random() < 0.5,
                 "leave": None, "at": 0, "it": 0})
    for act in acts:
        act["ask"] = rng.choice((None, None, None, False, True))
    return {"sys": G.system(rng), "grid": G.grid(rng, nmax=3, simple=True), "acts": acts, "gfu": rng.random() < 0.6}


def run(w, s):
    cfg = runs.build(s["sys"], s["grid"])
    if s["gfu"]:
        cfg.io.gfu = True
        cfg.io.gfu.time_level_rate = 1
    shadow = Shadow(cfg)
    shadow.initial()
    stored, last_end, before = {}, None, "fresh"
    scheme = cfg.time.scheme.name
    built = None
    compare(shadow, "after initialisation")
    for k, act in enumerate(s["acts"]):
        what = f"act {k} ({ {x: y for x, y in act.items() if x != 'grid'} }, after {before})"
        if act["do"] == "scheme":
            cfg.time.scheme = act["scheme"]
            cfg.initialize()
            if not isinstance(shadow.cfg.time.scheme, type(None)):
                shadow.initial()
            if cfg.time.scheme.name != scheme:
                stored.clear()
            scheme, before, built = cfg.time.scheme.name, "initialisation", None
            w.state("scheme", scheme)
        elif act["do"] == "initial":
            cfg.time.set_initial_conditions()
            shadow.initial()
            before = "initial conditions"
        elif act["do"] == "restore":
            if not stored:
                continue
            t = sorted(stored)[act["which"] % len(stored)]
            cfg.io.gfu.load_time_levels(t)
            cfg.io.gfu.load_routine(t)
            shadow.u, shadow.w, shadow.un, shadow.unm = (x.copy() for x in stored[t])
            before = "restoring"
            w.probe("restored")
        else:
            if before != "fresh" and before != "initial conditions":
                w.probe("nontrivial")
            g, built = one_run(w, cfg, s, act, shadow, stored, last_end, built, what, before)
            last_end = g
            before = f"a run left by {act['leave']}"
        compare(shadow, what)
        if act.get("ask") is not None:
            ask(shadow, what, act["ask"])


def one_run(w, cfg, s, act, shadow, stored, last, built, what, before):
    g = dict(act["grid"])
    legal(g["n"] >= 1 and act["it"] >= 0)
    if act["adjoin"] and last is not None:
        g["start"] = G.dec(model.Decimal(last["start"]) + last["n"] * model.Decimal(last["step"]))
    timer = cfg.time.timer
    timer.interval, timer.step = runs.interval_of(g), float(g["step"])
    reassemble = act["reassemble"] or built is None
    labels, dt = runs.labels_of(g), float(g["step"])
    at = min(act["at"], g["n"] - 1)
    where = [0, 0]
    cut = None
    if s["gfu"]:
        stored[float(g["start"])] = [shadow.u.copy(), shadow.w.copy(), shadow.un.copy(), shadow.unm.copy()]

    def on_apply(*a):
        if act["leave"] == "solve" and where == [at, act["it"]]:
            w.fired["interrupt@solve"] += 1
            w.note("interrupt", at, act["it"])
            raise core.SimInterrupt()
        where[1] += 1

    dts = [dt] * g["n"]

    def body(i, t):
        errors = shadow.solve(dts[i], labels[i], 12, 1e-13, 1.0)
        shadow.shift()
        require(t == labels[i], "label", lambda: f"{what}: step {i} is {t}, not {labels[i]}")
        compare(shadow, f"{what}: {g} step {i}, {len(errors)} iterations")
        if s["gfu"]:
            stored[t] = [shadow.u.copy(), shadow.w.copy(), shadow.un.copy(), shadow.unm.copy()]
        where[:] = [i + 1, 0]
        w.simtime += dt

    if act["leave"] == "save" and s["gfu"]:
        w.arm([{"on": "save", "op": 1 + 3 * (at + 1), "kind": "interrupt", "frac": 0.0}])
    w.on_apply = on_apply
    try:
        h = runs.drive(w, cfg, body=body, reassemble=reassemble,
                       stop_after=(at, act["leave"]) if act["leave"] in ("close", "drop", "abort", "interrupt") else None)
    finally:
        w.on_apply = None
        w.arm([])
    # what may not have been written in full is not gone back to
    if h.outcome != "done":
        for t in list(stored):
            if t not in h.labels[:-1] and t in [float(g["start"])] + labels:
                stored.pop(t)
    if act["leave"] is None:
        require(h.outcome == "done" and len(h.labels) == g["n"], "steps", lambda: f"{what}: {h.outcome} after {len(h.labels)} steps of {g['n']}")
    if act["leave"] == "solve" and h.outcome == "interrupt":
        # the Newton iteration was cut before its update number act["it"]
        shadow.solve(dt, labels[at], 12, 1e-13, 1.0, stop=act["it"])
        w.probe("resumed after an interrupted solve")
    w.state("run", cfg.time.scheme.name, g["step"], len(h.labels), h.outcome, reassemble, before)
    w.note("run", h.outcome, h.labels)
    done = dict(g, n=len(h.labels) or g["n"])
    return done, True


def ask(shadow, what, normalized):
    """What the scheme answers for the terms that are known in the next step: (k u - level) / step is its time derivative"""
    cfg = shadow.cfg
    scheme, mesh = cfg.time.scheme, cfg.mesh
    dt = cfg.time.timer.step.Get()
    un, unm = shadow.un, shadow.unm
    level, step = (un, dt) if not shadow.bdf2 else ((4 * un - unm) / 3, 2 / 3 * dt) if normalized else (4 * un - unm, 2 * dt)
    got = ngs.Integrate(scheme.get_time_step(normalized), mesh) / shadow.ref.area.sum()
    require(abs(got - step) <= 1e-12 * step, "current-step", lambda: f"{what}: the step is {got} instead of {step} (normalized: {normalized})")
    k = 0
    for variable in scheme.gfus:
        cf = scheme.get_current_level(variable, normalized)
        got = np.concatenate([np.array(ngs.Integrate(c, mesh, element_wise=True)) / shadow.ref.area for c in ([cf] if cf.dim == 1 else cf)])
        want = level[k:k + len(got)]
        k += len(got)
        require(bool(np.all(np.abs(got - want) <= 1e-8 * (1 + np.abs(want)))), "current-level",
                lambda: f"{what}: the level of {variable} is {got} instead of {want} (normalized: {normalized})")


def compare(shadow, what):
    for name, d in shadow.differences().items():
        require(d <= 1e-8, "recurrence", lambda: f"{what}: {name} differs from the recurrence by {d:.3e}")
