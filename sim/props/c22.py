"""C22: every step of a flow solves the documented discrete equations, also after interrupted, repeated and reconfigured steps."""
import numpy as np
import ngsolve as ngs

from sim import flows, hdg, model
from sim.core import require
from sim.flows import broken, follow, mesh_of
from sim.model import legal

QUICK = 700
THOROUGH = 10000
RULE = ("a real flow problem with seeded conditions on every side, layers, flux, scheme, scaling, viscosity and initial disturbance is computed in up to 4 pieces "
        "between which condensation and the solver's state are renewed or a Newton solve was interrupted; after every step the unknowns are "
        "put into the discrete equations, which the check writes down on its own; non-trivial: the computation was cut")
MEASURE = "distinct (conditions, layers, order, viscous, flux, scheme, scaling, condensation, cuts) situations"
REAL = "the whole compressible flow solver but output: conditions, fluxes, scalings, viscosity, condensation, schemes, Newton solver"
STUB = "the domain is rotated, moved and enlarged by NGSolve's mesh deformation"
ASSUMPTIONS = ["steps that converge to 1e-24, residual relative to the largest term 1e-8, the run ends where a step does not converge, its system is singular or values grow 50-fold",
               "the flow is never parallel to a boundary with far field or characteristic conditions (their identities jump there)"]


def gen(rng, tier, i):
    s = flows.gen(rng, tier, i)
    s["views"] = s["views"][:1]
    return s


def begin(w, s, v, cfg, size):
    eq = hdg.Equations(s, v, cfg)
    mats = dict.fromkeys(cfg.mesh.GetMaterials())
    if "periodic" not in s["sides"]:
        hdg.check_orders(cfg, s["order"], {m: x[2] for m, x in zip(mats, s["layers"]) if x and x[0] == "psponge"})
    for name, how in (("U", ngs.dx), ("Uhat", ngs.dx(element_boundary=True))):
        want = eq.projection(name, how)
        off = np.nan_to_num(np.abs(model.vec(cfg.gfus[name]) - want)).max()
        require(off <= 1e-8 * size, "initial-state", lambda: f"{name} starts {off:.3e} off the projection of the initial conditions")


def run(w, s):
    legal(len(s["views"]) == 1)
    flows.check(s)
    v = s["views"][0]
    past = {}
    box = {"cfg": None, "first": 0.0, "done": 0}

    def judge(k, cfg):
        now = model.vec(cfg.gfu)
        past[k] = now
        used = np.nan_to_num(now)
        box["done"] = k
        if k == 0:
            box["first"] = np.abs(used).max()
            begin(w, s, v, cfg, box["first"])
            return True
        if np.abs(used).max() > 50 * box["first"]:
            return False
        if box.get("fes") is not cfg.fes:
            box["fes"], box["eq"] = cfg.fes, hdg.Equations(s, v, cfg)
        result = box["eq"].residual(k * cfg.time.timer.step.Get(), now, past[k - 1], past[max(k - 2, 0)])
        w.probe("steps compared")
        for name, (off, size) in result.items():
            size = max(size, 0.1 * v["size"] * box["first"])
            require(off <= 1e-8 * size, "not-solved", lambda: f"step {k} of {s['n']}: the equations of {name} are off by {off:.3e}, their largest term is {size:.3e}")
        return True

    try:
        follow(w, s, v, s["cuts"], judge)
    except Exception as e:
        # Newton's method ran away
        if not broken(e):
            raise
        w.probe("broke down")
    finally:
        mesh_of(s).UnsetDeformation()
    w.state(s["sides"], [x and x[0] for x in s["layers"]], s["order"], s["viscous"], s["riemann"], s["scheme"], v["scaling"], v["condense"], len(s["cuts"]))
