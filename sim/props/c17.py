"""C17: a uniform flow stays uniform under consistent conditions, over any history of steps, failures, restarts and reconfigurations."""
import os

import numpy as np
import ngsolve as ngs

from sim import lives, model, runs
from sim.core import require
from sim.model import legal

QUICK = 300
THOROUGH = 22000
RULE = ("a uniform oblique flow with a seeded consistent condition on every side (far field, outflow, characteristic inflow and outflow with "
        "and without viscous terms, periodic), seeded sponge layers, polynomial sponge layers and grid deformations in the layers, run in up to 5 "
        "lives with changes of flux, time step, scheme, condensation, damping, iteration limit or Mach number, kills while files are written, "
        "interrupts within Newton solves and restarts; state, facet and mixed unknowns are compared with the far field formulas after every "
        "step and restart, and so are the sensor rows; non-trivial: a failure or a change of settings happened")
MEASURE = "distinct (scaling, mesh, order, conditions, layers, viscosity, flux, scheme, condensation, end, restart) situations"
REAL = "the whole compressible flow solver with its boundary and domain conditions, transient routine, output, restart, point sensors"
STUB = "kill is simulated in-process"
ASSUMPTIONS = ["relative tolerance 1e-9", "no cell side is parallel to the flow (there the characteristic conditions are singular)",
               "flow directions with an angle to the walls, subsonic"]

FLUXES = ("lax_friedrich", "roe", "hll", "hllem", "upwind")
FAR = ("farfield", "farfield", "farfield-full", "grcbc", "nscbc")
IN = FAR + ("grcbc-mass", "grcbc-temp", "nscbc-mass")
OUT = FAR + ("outflow", "grcbc-out", "nscbc-out")


def settings(rng):
    return {"riemann": rng.choice(FLUXES), "scheme": rng.choice(("implicit_euler", "bdf2")), "step": rng.choice(("0.1", "0.05", "0.02", "0.5")),
            "condense": rng.random() < 0.5, "it": rng.choice((6, 3, 2, 1)), "damping": rng.choice((1.0, 1.0, 0.7)),
            "mach_number": rng.choice((0.3, 0.3, 0.3, 0.15, 0.6, 1.4))}


def gen(rng, tier, i):
    first, history = lives.gen(rng, settings, lmax=3)
    mesh = rng.choice(("square", "layers", "layers3"))
    order = rng.choice((0, 1, 1, 2))
    layers = []
    for k in range({"square": 1, "layers": 2, "layers3": 3}[mesh]):
        x = rng.random()
        if x < 0.2:
            layers.append(["sponge", rng.choice((1.0, 20.0)), rng.randint(0, 2)])
        elif x < 0.4:
            high = rng.randint(0, order)
            layers.append(["psponge", rng.choice((1.0, 20.0)), high, rng.choice((high, 0))])
        else:
            layers.append(None)
    periodic = mesh == "square" and rng.random() < 0.25
    side = rng.choice(FAR)
    return {"mesh": mesh, "periodic": periodic, "order": order, "layers": layers, "maxh": rng.choice((1.0, 0.6)),
            "deform": [rng.choice(("linear", "exponential", "tangential")), rng.choice((1.5, 2.0)), rng.choice((1, 2))]
            if mesh != "square" and rng.random() < 0.3 else None,
            "left": rng.choice(IN), "right": rng.choice(OUT), "sides": side, "share": rng.random() < 0.5,
            "scaling": rng.choice(("acoustic", "aerodynamic", "aeroacoustic")), "viscous": rng.choice((None, None, "strain_heat")),
            "mu": rng.choice(("constant", "sutherland")), "cbcvis": rng.random() < 0.5,
            "dir": [rng.choice((1.0, 2.0)), rng.choice((0.31, -0.23, 0.71))], "crit": rng.choice((1e-8, 1e-30)), "set": first, "lives": history,
            "bonus": [rng.choice((0, 0, 1, 3)), rng.choice((0, 0, 2))], "sensor": rng.random() < 0.4}


_meshes = {}


def mesh_of(s):
    key = (s["mesh"], s["periodic"], s["maxh"])
    if key not in _meshes:
        if s["mesh"] == "square":
            _meshes[key] = model.square(maxh=s["maxh"], periodic="y" if s["periodic"] else "")
        else:
            _meshes[key] = model.layers(3 if s["mesh"] == "layers3" else 2, maxh=s["maxh"])
    return _meshes[key]


def condition(kind, inf, s):
    from dream.compressible import FarField, Outflow, GRCBC, NSCBC, flowfields
    if kind == "farfield":
        return FarField(fields=inf)
    if kind == "farfield-full":
        return FarField(fields=inf, identity_jacobian=False)
    if kind == "outflow":
        return Outflow(fields=inf)
    name, _, target = kind.partition("-")
    target = {"": "farfield", "out": "outflow", "mass": "mass_inflow", "temp": "temperature_inflow"}[target]
    fields = inf
    if target == "mass_inflow":
        fields = flowfields(rho=inf.rho, rho_u=inf.rho * inf.u, rho_Ek=inf.rho_Ek)
    kw = {"fields": fields, "target": target, "relaxation_factor": 0.3, "tangential_relaxation": 0.2,
          "is_viscous_fluxes": bool(s["viscous"] and s["cbcvis"])}
    return GRCBC(**kw) if name == "grcbc" else NSCBC(**kw, length=2.0)


def build(s, st):
    from dream.compressible import Periodic, Initial, SpongeLayer, PSpongeLayer, GridDeformation
    from dream.mesh import GridMapping, BufferCoord
    mesh = mesh_of(s)
    mesh.UnsetDeformation()
    cfg = model.flow(mesh, scheme=st["scheme"], riemann=st["riemann"], order=s["order"], mach=st["mach_number"], condense=st["condense"],
                     viscous=s["viscous"], scaling=s["scaling"], max_it=st["it"], crit=s["crit"])
    if s["viscous"] and s["mu"] == "sutherland":
        cfg.dynamic_viscosity = "sutherland"
        cfg.scaling.dimensionful_values["T"] = 293.15
    cfg.nonlinear_solver.method.damping_factor = st["damping"]
    cfg.optimizations.bonus_int_order = dict(zip(("vol", "bnd"), s["bonus"]))
    inf = cfg.get_farfield_state(tuple(s["dir"]))
    sides = {"left": s["left"], "right": s["right"], "top": s["sides"], "bottom": s["sides"]}
    made = {}
    for name, kind in sides.items():
        if s["periodic"] and name in ("top", "bottom"):
            continue
        if s["share"] and kind in made:
            made[kind][0].append(name)
        else:
            made[kind if s["share"] else (kind, name)] = ([name], condition(kind, inf, s))
    for names, bc in made.values():
        cfg.bcs["|".join(names)] = bc
    if s["periodic"]:
        cfg.bcs["top|bottom"] = Periodic()
    mats = list(dict.fromkeys(mesh.GetMaterials()))
    legal(len(mats) == len(s["layers"]))
    cfg.dcs["|".join(mats)] = Initial(fields=inf)
    for mat, x in zip(mats, s["layers"]):
        if x and x[0] == "sponge":
            cfg.dcs[mat] = SpongeLayer(function=ngs.CF(x[1]) * (1 + ngs.x), target_state=inf, order=x[2])
        elif x:
            legal(s["order"] >= x[2] >= x[3] >= 0)
            cfg.dcs[mat] = PSpongeLayer(function=ngs.CF(x[1]) * (1 + ngs.x), target_state=inf, high_order=x[2], low_order=x[3])
    if s["deform"]:
        kind, scale, order = s["deform"]
        n = len(mats)
        cfg.dcs[mats[-1]] = GridDeformation(x=getattr(GridMapping, kind)(scale, BufferCoord.x(0.5 - 1 / n, 0.5)), order=order)
        cfg.set_grid_deformation()
    cfg.io.gfu = True
    cfg.io.gfu.time_level_rate = 1
    if s["sensor"]:
        cfg.io.sensor = True
        cfg.io.sensor.mode = "a"
        cfg.io.sensor.point = "p"
        cfg.io.sensor.point["p"].points = ((0.1, 0.05), (-0.3, -0.2))
    cfg.initialize()
    prepare(s)(cfg)
    return cfg


def prepare(s):
    def fields(cfg):
        if s["sensor"]:
            cfg.io.sensor.point["p"].fields = cfg.get_fields(rho=True, u=True, p=True, T=True, c=True)
    return fields


def due(s, mach):
    """Density, velocity, pressure, temperature and speed of sound of the far field"""
    speed, c = {"acoustic": (mach, 1.0), "aerodynamic": (1.0, 1 / mach), "aeroacoustic": (mach / (1 + mach), 1 / (1 + mach))}[s["scaling"]]
    d = np.array(s["dir"]) / np.hypot(*s["dir"])
    gamma = 1.4
    return np.array([1.0, *(speed * d), c**2 / gamma, c**2 / (gamma - 1), c])


def conservative(q):
    rho, u, v, p = q[:4]
    return np.array([rho, rho * u, rho * v, p / 0.4 + rho * (u * u + v * v) / 2])


def run(w, s):
    legal(s["maxh"] > 0 and len(s["bonus"]) == 2)
    lives.check(s)
    legal(s["crit"] > 0 and (not s["deform"] or (s["deform"][1] > 1 and s["deform"][2] >= 1 and s["mesh"] != "square")))
    legal(not s["periodic"] or s["mesh"] == "square")
    mesh = mesh_of(s)
    box = {}

    def make(st):
        return begin(build(s, st), st)

    def renew(cfg, st):
        """Another Mach number, conditions and initial state stay as they were set"""
        cfg.mach_number = st["mach_number"]
        cfg.initialize()
        prepare(s)(cfg)
        begin(cfg, st)

    def begin(cfg, st):
        box["q"] = due(s, st["mach_number"])
        box["want"] = conservative(box["q"])
        box["size"] = max(1.0, float(np.abs(box["want"]).max()))
        box["start"] = model.vec(cfg.gfu)
        # what a slave facet of a periodic space holds is never read
        box["used"] = np.array([cfg.fes.CouplingType(i) != ngs.COUPLING_TYPE.UNUSED_DOF for i in range(cfg.fes.ndof)])
        off = ngs.Integrate((cfg.gfus["U"] - ngs.CF(tuple(box["want"])))**2, mesh, order=4)
        off = np.sqrt(np.abs(np.array(off)))
        require((off <= 1e-10 * box["size"]).all(), "initial-state", lambda: f"off the far field by {off}, {s['scaling']}")
        return cfg

    def judge(cfg, what):
        got = model.vec(cfg.gfu)
        off = np.abs(got - box["start"])[box["used"]]
        require((off <= 1e-9 * box["size"]).all(), "not-uniform", lambda: f"{what}: an unknown is off by {off.max():.3e}")

    try:
        cfg = lives.live(w, s, make, judge, prepare(s), fresh=("mach_number",), renew=renew)
        if cfg is not None and s["sensor"] and len({x["set"].get("mach_number", s["set"]["mach_number"]) for x in s["lives"]}
                                                   | {s["set"]["mach_number"]}) == 1 and not any(k.endswith("@write") for k in w.fired):
            rows = 0
            with w.quiet():
                for line in open(os.path.join(w.root, "sensors", "p.csv")).read().split("\n")[:-1]:
                    got = np.array([float(x) for x in line.split(",")[1:]]).reshape(2, 6)
                    want = box["q"]
                    require((np.abs(got - want) <= 1e-8 * (1 + np.abs(want))).all(), "sensor", lambda: f"row {line}, due {want}")
                    rows += 1
            require(rows, "sensor", "no rows")
    finally:
        mesh.UnsetDeformation()
    w.state(s["scaling"], s["mesh"], s["order"], s["left"], s["right"], s["sides"], s["periodic"], [x and x[0] for x in s["layers"]], bool(s["deform"]),
            s["viscous"])


