"""Flow problems with a condition on every side, described in several equivalent ways, and computed in several pieces."""
from __future__ import annotations

import numpy as np
import ngsolve as ngs

from . import core, gen as G, model, runs
from .model import legal

FLUXES = ("lax_friedrich", "roe", "hll", "hllem", "upwind")
SCALINGS = ("aerodynamic", "acoustic", "aeroacoustic")
FAR = ("farfield", "farfield-full", "grcbc", "nscbc")
IN = FAR + ("grcbc-mass", "grcbc-temp")
OUT = FAR + ("outflow", "grcbc-out", "nscbc-out")
WALLS = ("inviscid_wall", "symmetry")


def view(rng, length=True):
    return {"scaling": rng.choice(SCALINGS), "condense": rng.random() < 0.5, "angle": rng.choice((0.0, 0.0, 0.5, 1.5707963267948966, 3.0, -2.2)),
            "move": [rng.choice((0.0, 3.0)), rng.choice((0.0, -1.5))], "size": rng.choice((1.0, 1.0, 0.01, 3.0)) if length else 1.0,
            "order": rng.randint(0, 10**6), "single": rng.random() < 0.5}


CHARACTERISTICS = ("acoustic_in", "entropy", "vorticity_0", "vorticity_1", "acoustic_out")


def relaxation(rng):
    """Relaxation factors of characteristic conditions as one number, in order or by name"""
    kind = rng.choice(("number", "list", "names"))
    if kind == "number":
        return rng.choice((0.3, 0.1))
    factors = [rng.choice((0.05, 0.1, 0.2, 0.3, 0.4)) for _ in CHARACTERISTICS]
    if kind == "list":
        return factors
    names = list(zip(CHARACTERISTICS, factors))
    rng.shuffle(names)
    return [list(x) for x in names]


def factors(s):
    """Relaxation factors by name"""
    r = s["relax"]
    if not isinstance(r, list):
        return dict.fromkeys(CHARACTERISTICS, r)
    return dict(r) if isinstance(r[0], list) else dict(zip(CHARACTERISTICS, r))


def gen(rng, tier, i):
    mesh = rng.choice(("square", "square", "layers"))
    order = rng.choice((0, 1, 1, 2))
    viscous = rng.choice((None, None, "strain_heat"))
    layers = []
    for k in range({"square": 1, "layers": 2}[mesh]):
        x = rng.random()
        high = rng.randint(0, order)
        layers.append(["sponge", rng.choice((1.0, 20.0)), rng.randint(0, 2)] if x < 0.15 else
                      ["psponge", rng.choice((1.0, 20.0)), high, rng.choice((high, 0))] if x < 0.3 else None)
    walls = WALLS + (("isothermal_wall",) if viscous else ())
    kind = rng.choice(("open", "open", "walls", "channel", "periodic"))
    if kind == "periodic" and mesh != "square":
        kind = "open"
    side = rng.choice(FAR)
    sides = {"open": [rng.choice(IN), rng.choice(OUT), side, side], "walls": [rng.choice(walls) for _ in range(4)],
             "channel": [rng.choice(IN), rng.choice(OUT), rng.choice(walls), rng.choice(walls)],
             "periodic": [rng.choice(IN), rng.choice(OUT), "periodic", "periodic"]}[kind]
    amp = [rng.choice((0.0, 0.02, 0.05)), rng.choice((0.0, 0.02))]
    n = rng.randint(1, 5)
    cuts = []
    for _ in range(rng.choice((0, 0, 1, 1, 2, 3))):
        cuts.append({"at": rng.randint(0, n - 1), "condense": rng.random() < 0.5, "renew": rng.random() < 0.5,
                     "solve": [rng.choice(("apply", "linearize", "inverse")), rng.randint(0, 3), rng.choice(("interrupt", "abort"))] if rng.random() < 0.6 else None})
    return {"mesh": mesh, "maxh": rng.choice((1.0, 0.6)), "order": order, "viscous": viscous, "mu": rng.choice(("constant", "sutherland")),
            "layers": layers, "shape": rng.choice((None, None, ["poly", rng.randint(1, 3)], ["penta"], ["radial", rng.randint(1, 3)])), "sides": sides, "cbcvis": rng.random() < 0.5, "mach": rng.choice((0.15, 0.3, 0.6, 1.6)), "gamma": rng.choice((1.4, 1.4, 1.2, 5 / 3)),
            "reynolds": rng.choice((10.0, 50.0, 300.0)), "prandtl": rng.choice((0.72, 1.0)), "dir": [1.0, rng.choice((0.31, -0.23, 0.71))],
            "wall": rng.choice((1.0, 1.02, 0.97)), "riemann": rng.choice(("lax_friedrich", "hll") if kind == "walls" else FLUXES), "scheme": rng.choice(("implicit_euler", "bdf2")), "step": rng.choice((0.02, 0.05, 0.1)),
            "amp": amp, "n": n, "far": rng.choice(([1.0, 1.0, 1.0], [1.01, 0.97, 1.02], [0.98, 1.05, 0.99])), "relax": relaxation(rng),
            "vary": [rng.choice((0.0, 0.0, 0.01)), rng.choice((0.0, 0.0, 0.02))], "bonus": rng.choice(([0, 0], [0, 0], [2, 1], [0, 3])),
            "ref": rng.choice(([293.15, 110.4], [250.0, 110.4], [293.15, 200.0], [350.0, 90.0])), "jump": rng.choice((0.0, 0.0, 0.03)), "views": [view(rng, not viscous), view(rng, not viscous)], "cuts": cuts,
            "compile": G.compiling(rng)}


_meshes = {}


def mesh_of(s):
    key = (s["mesh"], "periodic" in s["sides"], s["maxh"])
    if key not in _meshes:
        _meshes[key] = model.layers(2, maxh=s["maxh"]) if s["mesh"] == "layers" else model.square(maxh=s["maxh"], periodic="y" if key[1] else "")
    return _meshes[key]


def speed(scaling, mach):
    """The speed of sound of the far field"""
    return {"aerodynamic": 1 / mach, "acoustic": 1.0, "aeroacoustic": 1 / (1 + mach)}[scaling]


def unit(s, v):
    """Velocity of this view for a velocity of one speed of sound"""
    return speed(v["scaling"], s["mach"])


def rotation(v):
    c, d = np.cos(v["angle"]), np.sin(v["angle"])
    return np.array([[c, -d], [d, c]])


def place(mesh, v):
    mesh.UnsetDeformation()
    R = v["size"] * rotation(v)
    if v["size"] == 1.0 and v["angle"] == 0.0 and v["move"] == [0.0, 0.0]:
        return
    fes = ngs.VectorH1(mesh, order=1)
    gfu = ngs.GridFunction(fes)
    gfu.Set(ngs.CF((R[0, 0] * ngs.x + R[0, 1] * ngs.y + v["move"][0] - ngs.x, R[1, 0] * ngs.x + R[1, 1] * ngs.y + v["move"][1] - ngs.y)))
    mesh.SetDeformation(gfu)


def condition(kind, inf, s, v, mod):
    """mod: factor of pressures and temperatures"""
    from dream.compressible import FarField, Outflow, GRCBC, NSCBC, InviscidWall, Symmetry, IsothermalWall, flowfields
    a, b, c = s["far"]
    if s["far"] != [1.0, 1.0, 1.0] or s["vary"] != [0.0, 0.0]:
        inf = flowfields(rho=inf.rho * a, u=inf.u * b, p=inf.p * c * mod, T=inf.T * c / a * mod, rho_Ek=inf.rho_Ek * a * b * b)
    if kind == "farfield":
        return FarField(fields=inf)
    if kind == "farfield-full":
        return FarField(fields=inf, identity_jacobian=False)
    if kind == "outflow":
        return Outflow(fields=inf)
    if kind == "inviscid_wall":
        return InviscidWall()
    if kind == "symmetry":
        return Symmetry()
    if kind == "isothermal_wall":
        return IsothermalWall(fields=flowfields(T=inf.T * s["wall"]))
    name, _, target = kind.partition("-")
    target = {"": "farfield", "out": "outflow", "mass": "mass_inflow", "temp": "temperature_inflow"}[target]
    fields = inf
    if target == "mass_inflow":
        fields = flowfields(rho=inf.rho, rho_u=inf.rho * inf.u, rho_Ek=inf.rho_Ek)
    relax = s["relax"]
    if isinstance(relax, list) and isinstance(relax[0], list):
        relax = dict(relax)
    kw = {"fields": fields, "target": target, "relaxation_factor": relax, "tangential_relaxation": 0.2,
          "is_viscous_fluxes": bool(s["viscous"] and s["cbcvis"])}
    return GRCBC(**kw) if name == "grcbc" else NSCBC(**kw, length=2.0 * v["size"])


def coordinates(v):
    """The coordinates of the description"""
    R = rotation(v)
    X, Y = ngs.x - v["move"][0], ngs.y - v["move"][1]
    return (R[0, 0] * X + R[1, 0] * Y) / v["size"], (R[0, 1] * X + R[1, 1] * Y) / v["size"]


def modulation(s, v, t):
    """Factor of the pressures and temperatures around the domain"""
    X, Y = coordinates(v)
    return 1 + s["vary"][0] * ngs.sin(3 * X + Y) + s["vary"][1] * ngs.sin(7 * t)


def start(s, v, layer, rho, u, p):
    """Density, velocity and pressure in the beginning, from those of the far field"""
    X, Y = coordinates(v)
    R = rotation(v)
    bump = 1 + s["amp"][0] * ngs.exp(-4 * (X**2 + (Y - 0.1)**2)) + s["jump"] * layer
    swirl = s["amp"][1] * unit(s, v)
    a, b = swirl * ngs.sin(5 * X + 1), swirl * ngs.cos(3 * Y + X)
    still = all(k in WALLS + ("isothermal_wall",) for k in s["sides"])
    u = [0 if still else u[i] for i in range(2)]
    return rho * bump, ngs.CF((u[0] + R[0, 0] * a + R[0, 1] * b, u[1] + R[1, 0] * a + R[1, 1] * b)), p * bump


SPAN = {"poly": (-0.35, 0.3), "penta": (-0.4, 0.45), "radial": (0.15, 0.6)}        # where layers begin and end


def strength(s, v, weight, X):
    """Strength of a layer, as its user describes it"""
    from dream.mesh import SpongeFunction, BufferCoord
    if not s["shape"]:
        return weight * (1 + X)
    a, b = (v["size"] * x for x in SPAN[s["shape"][0]])
    if s["shape"][0] == "radial":
        x = BufferCoord.polar(a, b, shift=tuple(v["move"]))
    elif v["angle"] == 0.0:
        x = BufferCoord.x(a, b, shift=v["move"][0])
    else:
        x = BufferCoord(v["size"] * X, a, b, 0)
    return SpongeFunction.penta(weight, x) if s["shape"][0] == "penta" else SpongeFunction.polynomial(weight, x, s["shape"][1])


def build(s, v):
    import random
    from dream.compressible import Periodic, Initial, SpongeLayer, PSpongeLayer, flowfields
    mesh = mesh_of(s)
    place(mesh, v)
    cfg = model.flow(mesh, scheme=s["scheme"], riemann=s["riemann"], order=s["order"], mach=s["mach"], condense=v["condense"], viscous=s["viscous"],
                     scaling=v["scaling"], max_it=20, crit=1e-24, compile=s.get("compile"))
    cfg.equation_of_state.heat_capacity_ratio = s["gamma"]
    if s["viscous"]:
        cfg.reynolds_number = s["reynolds"]
        cfg.prandtl_number = s["prandtl"]
        if s["mu"] == "sutherland":
            cfg.dynamic_viscosity = "sutherland"
            cfg.dynamic_viscosity.measurement_temperature = s["ref"][1]
            cfg.scaling.dimensionful_values = {"T": s["ref"][0]}
    cfg.optimizations.bonus_int_order = dict(zip(("vol", "bnd"), s["bonus"]))
    R = rotation(v)
    direction = R @ np.array(s["dir"])
    inf = cfg.get_farfield_state(tuple(direction))
    X, Y = coordinates(v)
    rate = unit(s, v) / v["size"]
    mod = modulation(s, v, rate * cfg.time.timer.t)
    order = random.Random(v["order"])

    todo = []
    made = {}
    for name, kind in zip(("left", "right", "top", "bottom"), s["sides"]):
        made.setdefault(kind, []).append(name)
    for kind, names in made.items():
        if kind == "periodic":
            bc = Periodic()
            todo.append((cfg.bcs, "top|bottom", bc))
        elif v["single"]:
            todo += [(cfg.bcs, name, condition(kind, inf, s, v, mod)) for name in names]
        else:
            order.shuffle(names)
            todo.append((cfg.bcs, "|".join(names), condition(kind, inf, s, v, mod)))

    mats = list(dict.fromkeys(mesh.GetMaterials()))
    legal(len(mats) == len(s["layers"]))
    if v["single"] or s["jump"]:
        for k, mat in enumerate(mats):
            rho, u, p = start(s, v, k, inf.rho, inf.u, inf.p)
            todo.append((cfg.dcs, mat, Initial(fields=flowfields(rho=rho, u=u, p=p))))
    else:
        rho, u, p = start(s, v, 0, inf.rho, inf.u, inf.p)
        todo.append((cfg.dcs, "|".join(mats), Initial(fields=flowfields(rho=rho, u=u, p=p))))
    for mat, x in zip(mats, s["layers"]):
        if x and x[0] == "sponge":
            todo.append((cfg.dcs, mat, SpongeLayer(function=strength(s, v, rate * x[1], X), target_state=inf, order=x[2])))
        elif x:
            legal(s["order"] >= x[2] >= x[3] >= 0)
            todo.append((cfg.dcs, mat, PSpongeLayer(function=strength(s, v, rate * x[1], X), target_state=inf, high_order=x[2], low_order=x[3])))
    order.shuffle(todo)
    for conditions, pattern, condition_ in todo:
        conditions[pattern] = condition_
    cfg.time.timer.step = s["step"] / rate
    cfg.initialize()
    return cfg


def common(s, v, cfg, raw):
    """Unknowns in the coordinates of the description and units of the far field's speed of sound"""
    R, f = rotation(v), unit(s, v)
    out = []
    for name in ("U", "Uhat"):
        gfu = cfg.gfus[name]
        fes = gfu.space
        r = cfg.fes.Range(list(cfg.spaces).index(name))
        n = fes.components[0].ndof
        x = raw[r.start:r.stop].reshape(-1, n)
        used = np.array([fes.components[0].CouplingType(k) != ngs.COUPLING_TYPE.UNUSED_DOF for k in range(n)])
        m = R.T @ x[1:3]
        out.append(np.vstack([x[0], m / f, x[3] / f**2])[:, used].ravel())
    return np.concatenate(out)


def check(s):
    legal(len(s["sides"]) == 4 and 1 <= s["n"] <= 8 and s["maxh"] > 0 and s["step"] > 0 and 0 < s["mach"] < 3 and s["gamma"] > 1)
    legal((s["sides"][2] == "periodic") == (s["sides"][3] == "periodic") and "periodic" not in s["sides"][:2])
    legal("periodic" not in s["sides"] or s["mesh"] == "square")
    # fluid at rest between walls: the contact wave of these fluxes is not damped, their system is singular
    legal(s["riemann"] in ("lax_friedrich", "hll") or not all(k in WALLS + ("isothermal_wall",) for k in s["sides"]))
    legal(s["reynolds"] > 0 and s["prandtl"] > 0 and s["order"] >= 0 and s["wall"] > 0 and len(s["far"]) == 3 and min(s["far"]) > 0)
    legal(len(s["vary"]) == 2 and len(s["bonus"]) == 2 and min(s["bonus"]) >= 0 and len(s["ref"]) == 2 and min(s["ref"]) > 0 and s["jump"] >= 0)
    legal(s["shape"] is None or (s["shape"][0] in SPAN and len(s["shape"]) == 1 + (s["shape"][0] != "penta") and (s["shape"][0] == "penta" or 1 <= s["shape"][1] <= 3)))
    legal(s["relax"] and set(factors(s)) == set(CHARACTERISTICS))
    for v in s["views"]:
        legal(v["size"] > 0 and (not s["viscous"] or v["size"] == 1.0) and len(v["move"]) == 2)
    for c in s["cuts"]:
        legal(c["at"] >= 0 and (not c["solve"] or len(c["solve"]) == 3))


def broken(e):
    """The system of a step is singular"""
    return type(e).__name__ == "NgException" and ("singular" in str(e) or "factorization" in str(e))


def follow(w, s, v, cuts, judge):
    """Computes the flow; judge(k, cfg) is called for every step until it returns False"""
    cfg = build(s, v)
    step = cfg.time.timer.step.Get()
    go = [judge(0, cfg)]
    done = 0
    pieces = [c for c in cuts] + [None]
    for cut in pieces:
        if not go[0] or done >= s["n"]:
            break
        n = min(s["n"] - done, cut["at"] + 1 if cut else s["n"])
        cfg.time.timer.interval = (done * step, (done + n) * step)
        at = done

        def body(i, t):
            if not cfg.nonlinear_solver.is_converged:
                go[0] = False
            else:
                go[0] = go[0] and judge(at + i + 1, cfg)

        hit = [0]
        solve = cut["solve"] if cut else None

        def hook(*a):
            hit[0] += 1
            if hit[0] - 1 == solve[1]:
                w.fired[f"{solve[2]}@{solve[0]}"] += 1
                raise core.SimInterrupt() if solve[2] == "interrupt" else core.SimAbort()

        if solve:
            setattr(w, {"apply": "on_apply", "linearize": "on_linearize", "inverse": "on_inverse"}[solve[0]], hook)
        h = runs.drive(w, cfg, body=body)
        w.on_apply = w.on_linearize = w.on_inverse = None
        done += len(h.labels)
        w.simtime += s["step"] * len(h.labels)
        w.note(v, cut, h.outcome, len(h.labels))
        if cut:
            w.probe("nontrivial")
            w.probe(f"cut by {h.outcome}")
            if cut["renew"]:
                # the same state in new spaces
                state, levels = runs.snapshot(cfg)
                cfg.optimizations.static_condensation = cut["condense"]
                cfg.initialize()
                cfg.gfu.vec.FV().NumPy()[:] = state
                for fes, gfus in cfg.time.scheme.gfus.items():
                    for level, gfu in list(gfus.items())[:-1]:
                        gfu.vec.FV().NumPy()[:] = levels[fes, level]
            elif h.outcome != "done":
                cfg.optimizations.static_condensation = cut["condense"]
    return cfg
