"""C16: mass, momentum and energy are conserved over any history of steps, failures, restarts and reconfigurations."""
import os

import numpy as np
import ngsolve as ngs

from sim import lives, model, runs, core
from sim.core import require
from sim.model import legal

QUICK = 1400
THOROUGH = 30000
RULE = ("a real flow problem without sources (periodic in both directions: mass, momentum and energy; slip walls all around: mass and "
        "energy) run in up to 5 lives with a seeded change of flux, time step, scheme, condensation, damping or iteration limit before "
        "each; lives end as planned, by a kill while a file is written, by an interrupt or a failing factorisation in the middle of a "
        "Newton solve or between steps, and are followed by a restart from the newest complete state file or a continuation in memory; the "
        "integrals are compared with their initial values after every step, for every state file and every sensor row; non-trivial: a failure or a change of settings happened")
MEASURE = "distinct (conditions, order, flux, scheme, viscous, condensation, kind of end, how it went on) situations"
REAL = "the whole compressible flow solver, transient routine, Newton solver, state output and restart, domain sensors, files on scratch disk"
STUB = "kill is simulated in-process"
ASSUMPTIONS = ["relative tolerance 1e-10 of the largest value (1e-8 with walls, whose conditions are only met as far as Newton converges)",
               "walls: Lax-Friedrich and HLL fluxes, whose stabilisation does not mix the components, and converged steps",
               "runs that become unstable (values beyond 50 times the initial ones) are not judged further"]

FLUXES = ("lax_friedrich", "roe", "hll", "hllem", "upwind")


def settings(rng, closed):
    return {"riemann": rng.choice(("lax_friedrich", "hll") if closed else FLUXES), "scheme": rng.choice(("implicit_euler", "bdf2")),
            "step": rng.choice(("0.1", "0.05", "0.02", "0.2")), "condense": rng.random() < 0.5,
            "it": rng.choice((12, 12, 4)) if closed else rng.choice((12, 12, 3, 2, 1)), "damping": 1.0 if closed else rng.choice((1.0, 1.0, 0.7))}


def gen(rng, tier, i):
    closed = rng.random() < 0.3
    first, history = lives.gen(rng, lambda r: settings(r, closed))
    solid = closed and rng.random() < 0.35
    return {"closed": closed, "solid": solid, "maxh": rng.choice((0.8, 0.8, 0.5)), "order": rng.choice((0, 1) if solid else (0, 1, 1, 2)), "mach": rng.choice((0.2, 0.5, 1.3, 0.0 if closed else 0.3)),
            "scaling": rng.choice(("acoustic", "aerodynamic", "aeroacoustic")) if not closed else "acoustic",
            "viscous": None if closed else rng.choice((None, None, "strain_heat")), "mu": rng.choice(("constant", "sutherland")),
            "dir": [1.0, rng.choice((0.3, -0.2, 0.7))] + [0.5] * solid, "amp": rng.choice((0.02, 0.05, 0.1)), "set": first, "lives": history,
            "bonus": [rng.choice((0, 0, 1, 3)), rng.choice((0, 0, 2))], "sensor": rng.random() < 0.3}


_meshes = {}


def mesh_of(closed, solid, maxh):
    key = "cube" if solid else (closed, maxh)
    if key not in _meshes:
        _meshes[key] = model.cube() if solid else model.square(maxh=maxh, periodic="" if closed else "xy")
    return _meshes[key]


def build(s, st):
    from dream.compressible import Periodic, InviscidWall, Initial, flowfields
    cfg = model.flow(mesh_of(s["closed"], s["solid"], s["maxh"]), scheme=st["scheme"], riemann=st["riemann"], order=s["order"], mach=s["mach"],
                     condense=st["condense"], viscous=s["viscous"], scaling=s["scaling"], max_it=st["it"])
    if s["viscous"] and s["mu"] == "sutherland":
        cfg.dynamic_viscosity = "sutherland"
        cfg.scaling.dimensionful_values["T"] = 293.15
    cfg.nonlinear_solver.method.damping_factor = st["damping"]
    cfg.optimizations.bonus_int_order = dict(zip(("vol", "bnd"), s["bonus"]))
    inf = cfg.get_farfield_state(tuple(s["dir"]))
    cfg.bcs[("left|right|top|bottom|front|back" if s["solid"] else "left|right|top|bottom")] = InviscidWall() if s["closed"] else Periodic()
    bump = 1 + s["amp"] * ngs.exp(-4 * (ngs.x**2 + (ngs.y - 0.1)**2 + (ngs.z + 0.2)**2))
    u = inf.u if not s["closed"] else (0, 0, 0) if s["solid"] else (0, 0)
    cfg.dcs["default"] = Initial(fields=flowfields(rho=inf.rho * bump, u=u, p=inf.p * bump))
    cfg.io.gfu = True
    cfg.io.gfu.time_level_rate = 1
    if s["sensor"]:
        cfg.io.sensor = True
        cfg.io.sensor.mode = "a"
        cfg.io.sensor.domain = "total"
        cfg.io.sensor.domain["total"].integration_order = 4
    cfg.initialize()
    prepare(s)(cfg)
    return cfg


def prepare(s):
    def fields(cfg):
        if s["sensor"]:
            cfg.io.sensor.domain["total"].fields = {"U": cfg.gfus["U"]}
    return fields


def run(w, s):
    legal(s["maxh"] > 0 and len(s["bonus"]) == 2 and len(s["dir"]) == 2 + s["solid"] and (s["closed"] or not s["solid"]))
    lives.check(s)
    if s["closed"]:
        legal(all(x["set"].get("riemann", "hll") in ("hll", "lax_friedrich") and x["set"].get("damping", 1.0) == 1.0 for x in [s] + s["lives"]))
    keep = [0, 4] if s["solid"] else [0, 3] if s["closed"] else [0, 1, 2, 3]
    names = ("mass", "x-momentum", "y-momentum", "z-momentum", "energy") if s["solid"] else ("mass", "x-momentum", "y-momentum", "energy")
    tol = 1e-8 if s["closed"] else 1e-10
    box = {}

    def total(cfg, gfu=None):
        return np.array(ngs.Integrate(gfu or cfg.gfus["U"], cfg.mesh, order=4))

    def make(st):
        cfg = build(s, st)
        if "want" not in box:
            box["want"] = total(cfg)
            box["size"] = max(1.0, float(np.abs(model.vec(cfg.gfus["U"])).max()))
        judge(cfg, "initial state")
        return cfg

    def compare(got, what):
        off = np.abs(got - box["want"])[keep]
        require((off <= tol * box["size"]).all(), "not-conserved",
                lambda: f"{what}: {names[keep[int(off.argmax())]]} is off by {off.max():.3e}")

    def judge(cfg, what):
        compare(total(cfg), what)

    def stays_good(cfg):
        return float(np.abs(model.vec(cfg.gfus["U"])).max()) <= 50 * box["size"] and (not s["closed"] or cfg.nonlinear_solver.is_converged)

    cfg = lives.live(w, s, make, judge, prepare(s), stays_good, in_memory=not s["closed"])
    if cfg is not None:
        check_output(w, s, cfg, compare, total)


def check_output(w, s, cfg, compare, total):
    with w.quiet():
        folder = os.path.join(w.root, "states")
        for f in runs.listing(folder):
            path = os.path.join(folder, f)
            if f.count("_") == 1 and os.path.getsize(path) == 8 * cfg.gfu.vec.size:
                gfu = ngs.GridFunction(cfg.fes)
                core._real["gf.Load"](gfu, path)
                compare(total(cfg, gfu.components[0]), f"state file {f}")
        path = os.path.join(w.root, "sensors", "total.csv")
        if os.path.exists(path) and not any(k.endswith("@write") for k in w.fired):     # a torn row stays where it is
            for line in open(path).read().split("\n")[:-1]:
                compare(np.array([float(x) for x in line.split(",")[1:]]), f"sensor row {line}")
