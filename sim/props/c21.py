"""C21: equivalent descriptions of a flow compute the same flow, also when steps are interrupted, repeated and reconfigured in between."""
import numpy as np

from sim import flows, model
from sim.core import require
from sim.flows import broken, common, follow, gen, mesh_of
from sim.model import legal

QUICK = 500
THOROUGH = 15000
RULE = ("a real flow problem with seeded conditions on every side, layers, flux, scheme, viscosity and initial disturbance is computed twice: once as "
        "described, once with another scaling, static condensation, rotated, moved and enlarged domain, conditions assigned in another order, singly or by "
        "pattern, and cut in up to 4 pieces between which condensation and the solver's state are renewed or a Newton solve was "
        "interrupted; after every step all unknowns are compared, up to units and rotation; non-trivial: the computation was cut or rotated")
MEASURE = "distinct (conditions, layers, order, viscous, flux, scheme, scalings, condensation, rotated, enlarged, cuts) situations"
REAL = "the whole compressible flow solver but output: conditions, fluxes, scalings, viscosity, condensation, schemes, Newton solver"
STUB = "the domain is rotated, moved and enlarged by NGSolve's mesh deformation"
ASSUMPTIONS = ["steps that converge to 1e-24, relative tolerance 1e-7, comparison ends where the first description's step does not converge, its system is singular or values grow 50-fold",
               "the flow is never parallel to a boundary with far field or characteristic conditions (their identities jump there)",
               "enlarged domains without viscosity only: the diffusive stabilisation has no length"]


def run(w, s):
    legal(len(s["views"]) == 2)
    flows.check(s)
    first, second = s["views"]
    mesh = mesh_of(s)
    want = {}

    def record(k, cfg):
        want[k] = x = common(s, first, cfg, model.vec(cfg.gfu))
        return bool(np.abs(x).max() < 50 * np.abs(want[0]).max())

    reached = [0]

    def compare(k, cfg):
        reached[0] = k
        if k not in want:
            return False
        x = common(s, second, cfg, model.vec(cfg.gfu))
        size = max(1.0, float(np.abs(want[0]).max()))
        off = np.abs(x - want[k])
        w.probe("steps compared")
        require((off <= 1e-7 * size).all(), "not-the-same", lambda: f"step {k} of {s['n']}: an unknown is off by {off.max():.3e} of {size:.1f}, "
                f"{ {key: (first[key], second[key]) for key in first if first[key] != second[key]} }, cuts {s['cuts']}")
        return True

    try:
        try:
            with w.quiet():
                follow(w, s, first, [], record)
        except Exception as e:
            # Newton's method ran away: the steps before are compared
            if not broken(e):
                raise
            w.probe("broke down")
        if second["angle"] != first["angle"]:
            w.probe("nontrivial")
        try:
            follow(w, s, second, s["cuts"], compare)
        except Exception as e:
            if not broken(e) or reached[0] + 1 in want:
                raise
    finally:
        mesh.UnsetDeformation()
    w.state(s["sides"], [x and x[0] for x in s["layers"]], s["order"], s["viscous"], s["riemann"], s["scheme"], first["scaling"], second["scaling"],
            second["condense"], first["angle"] != second["angle"], first["size"] != second["size"], len(s["cuts"]))
