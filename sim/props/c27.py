"""C27: an incomplete or contradictory problem is refused before anything is computed, and nothing remains of the refused attempt."""
import os

import numpy as np
import ngsolve as ngs

from dream.mesh import Force, Perturbation
from dream.compressible import (AdiabaticWall, FarField, GRCBC, Initial, InviscidWall, IsothermalWall, NSCBC, Outflow, Periodic,
                                PSpongeLayer, SpongeLayer, Symmetry, flowfields)

from sim import core, model, runs
from sim.core import require
from sim.model import legal

QUICK = 900
THOROUGH = 30000
RULE = ("a real flow problem with seeded conditions, layers and outputs is set up with gaps and contradictions (conditions without or with insufficient "
        "fields, no initial state, no periodic condition on a periodic mesh, conditions no formulation implements, layers without weight or target, or of higher "
        "order than the method, viscosity without or mixed method without viscosity, outputs without fields), tried, mended piece by piece (in place, or by "
        "setting it up again), interrupted while it is set up, tried again and at last run, possibly several times on one solver; a run that is accepted is compared "
        "with one of a solver that was set up correctly at once; non-trivial: two gaps at once, or a gap after a run")
MEASURE = "distinct (conditions, layers, viscous, gaps, how they were mended, what was tried) situations"
REAL = "conditions, CompressibleFlowSolver, HDG and mixed formulations, transient routine, outputs"
STUB = "-"
ASSUMPTIONS = ["a refusal is an error of type ValueError, TypeError or NotImplementedError", "a refused solver is initialised again before it is run",
               "states agree to 1e-8 relative to their largest value (mended conditions may be grouped differently)"]

SIDES = ("left", "right", "top", "bottom")
OPEN = ("farfield", "outflow", "grcbc", "nscbc", "grcbc-mass")
WALLS = ("inviscid_wall", "symmetry")
OUTPUTS = ("gfu", "vtk", "sensor")


def places(s):
    """What can be left out or contradicted, by place"""
    out = {}
    for k, kind in enumerate(s["sides"]):
        if kind in OPEN + ("isothermal_wall",):
            out[f"side{k}"] = ["none", "some"]
    for k, kind in enumerate(s["layers"]):
        out[f"initial{k}"] = ["none", "some"]
        if kind:
            out[f"layer{k}"] = ["function", "target", "some"] if kind[0] == "sponge" or kind[1] == kind[2] else ["function"]
    if any(x and x[0] == "psponge" and x[1] > 0 for x in s["layers"]):
        out["order"] = ["low"]
    out["initial"] = ["none"]
    if "periodic" in s["sides"]:
        out["periodic"] = ["none"]
    out["extra"] = ["force", "perturbation", "boundary", "domain"] + ([] if s["viscous"] else ["adiabatic"])
    out["viscosity"] = ["unmixed", "inviscid"] if s["viscous"] else ["strain_heat", "gradient", "viscous"]
    out["output"] = ["vtk", "point", "domain", "boundary"] + [f"{x}-emptied" for x in s["outputs"] if x != "gfu"]
    return out


def gen(rng, tier, i):
    mesh = rng.choice(("square", "square", "layers", "square-y"))
    viscous = rng.random() < 0.3
    order = rng.choice((0, 1, 1, 2))
    layers = []
    for _ in range(2 if mesh == "layers" else 1):
        x = rng.random()
        high = rng.randint(0, order)
        layers.append(["sponge", rng.choice((1.0, 5.0)), rng.randint(0, 2)] if x < 0.25 else ["psponge", high, rng.choice((high, 0))] if x < 0.5 else None)
    side = rng.choice(OPEN + WALLS + (("isothermal_wall",) if viscous else ()))
    sides = [rng.choice(OPEN), rng.choice(OPEN), side, rng.choice((side, rng.choice(OPEN)))]
    if mesh == "square-y":
        sides[2:] = ["periodic"] * 2
    s = {"mesh": mesh, "viscous": viscous, "order": order, "layers": layers, "sides": sides, "condense": rng.random() < 0.5,
         "riemann": rng.choice(("lax_friedrich", "roe", "hll", "hllem", "upwind")), "scheme": rng.choice(("implicit_euler", "bdf2")), "n": rng.randint(1, 3),
         "mach": rng.choice((0.2, 0.5)), "dir": [1.0, rng.choice((0.3, -0.2))], "amp": rng.choice((0.02, 0.05)), "outputs": [x for x in OUTPUTS if rng.random() < 0.2]}
    can = places(s)
    rounds = []
    for _ in range(rng.choice((1, 1, 2, 2, 3))):
        gaps = {}
        for _ in range(rng.choice((1, 1, 2, 3))):
            p = rng.choice(sorted(can))
            gaps[p] = rng.choice(can[p])
        gaps = [list(x) for x in gaps.items()]
        rounds.append({"gaps": gaps, "mend": [rng.choice(("fill", "again")) for _ in gaps], "check": [rng.random() < 0.7 for _ in gaps],
                       "fault": rng.choice(("interrupt", "abort")) if rng.random() < 0.2 else None, "run": rng.random() < 0.6})
    return {**s, "rounds": rounds}


_meshes = {}


def mesh_of(name):
    if name not in _meshes:
        _meshes[name] = model.layers(2) if name == "layers" else model.square(periodic="y" if name == "square-y" else "")
    return _meshes[name]


def check(s):
    legal(len(s["sides"]) == 4 and (s["mesh"] == "square-y") == ("periodic" in s["sides"]) == (s["sides"][2:] == ["periodic"] * 2))
    legal("periodic" not in s["sides"][:2] and 1 <= s["n"] <= 4 and s["order"] >= 0 and len(s["layers"]) == (2 if s["mesh"] == "layers" else 1))
    legal(s["viscous"] or "isothermal_wall" not in s["sides"])
    legal(any(x in OPEN for x in s["sides"][:2]) and s["riemann"] and set(s["outputs"]) <= set(OUTPUTS) and 0 < s["mach"] < 1)
    for x in s["layers"]:
        legal(not x or x[0] == "sponge" and len(x) == 3 or x[0] == "psponge" and s["order"] >= x[1] >= x[2] >= 0)
    can = places(s)
    for r in s["rounds"]:
        legal(len(r["gaps"]) == len(r["mend"]) == len(r["check"]) and len({p for p, _ in r["gaps"]}) == len(r["gaps"]))
        legal(all(p in can and g in can[p] for p, g in r["gaps"]))


class Problem:

    def __init__(self, s, root):
        self.s = s
        self.cfg = cfg = model.flow(mesh_of(s["mesh"]), scheme=s["scheme"], riemann=s["riemann"], order=s["order"], mach=s["mach"], interval=(0.0, 0.1 * s["n"]),
                                    step=0.1, condense=s["condense"], viscous="strain_heat" if s["viscous"] else None, max_it=10, root=root)
        self.inf = cfg.get_farfield_state(tuple(s["dir"]))
        self.emptied = False
        self.later = {}             # what is missing in objects that are in use, by place
        for name in s["outputs"]:
            setattr(cfg.io, name, True)
        self.arrange({})

    def side(self, kind, gap=None):
        inf = self.inf
        if kind in WALLS:
            return {"inviscid_wall": InviscidWall, "symmetry": Symmetry}[kind](), None
        fields = {"outflow": flowfields(p=inf.p), "isothermal_wall": flowfields(T=inf.T),
                  "grcbc-mass": flowfields(rho=inf.rho, rho_u=inf.rho * inf.u, rho_Ek=inf.rho_Ek)}.get(kind, inf)
        cls, kw = {"farfield": (FarField, {}), "outflow": (Outflow, {}), "isothermal_wall": (IsothermalWall, {}),
                   "grcbc": (GRCBC, {"target": "farfield", "relaxation_factor": 0.4}), "nscbc": (NSCBC, {"target": "outflow", "relaxation_factor": 0.4}),
                   "grcbc-mass": (GRCBC, {"target": "mass_inflow", "relaxation_factor": 0.4})}[kind]
        if gap == "some":
            kw["fields"] = flowfields(rho_H=1.0)
        elif gap is None:
            kw["fields"] = fields
        bc = cls(**kw)
        return bc, lambda: setattr(bc, "fields", fields)

    def initial(self, gap=None):
        inf = self.inf
        bump = 1 + self.s["amp"] * ngs.exp(-4 * (ngs.x**2 + (ngs.y - 0.1)**2))
        fields = flowfields(rho=inf.rho * bump, u=inf.u, p=inf.p * bump)
        dc = Initial() if gap == "none" else Initial(fields=flowfields(rho=inf.rho, p=inf.p) if gap == "some" else fields)
        return dc, lambda: setattr(dc, "fields", fields)

    def layer(self, x, gap=None):
        weight = ngs.CF(x[1]) if x[0] == "sponge" else ngs.CF(3.0)
        target = self.inf
        kw = {"order": x[2]} if x[0] == "sponge" else {"high_order": x[1], "low_order": x[2]}
        if gap != "function":
            kw["function"] = weight
        if gap == "some":
            kw["target_state"] = flowfields(rho=1.0)
        elif gap != "target":
            kw["target_state"] = target
        dc = (SpongeLayer if x[0] == "sponge" else PSpongeLayer)(**kw)
        return dc, (lambda: setattr(dc, "function", weight)) if gap == "function" else (lambda: setattr(dc, "target_state", target))

    def arrange(self, gaps):
        """Sets the conditions anew, with these gaps"""
        s, cfg = self.s, self.cfg
        cfg.bcs.clear()
        cfg.dcs.clear()
        self.later = {}
        for k, kind in enumerate(s["sides"]):
            if kind == "periodic":
                continue
            bc, fill = self.side(kind, gaps.get(f"side{k}"))
            cfg.bcs[SIDES[k]] = bc
            self.later[f"side{k}"] = fill
        if "periodic" in s["sides"] and "periodic" not in gaps:
            cfg.bcs["top|bottom"] = Periodic()
        self.later["periodic"] = lambda: cfg.bcs.__setitem__("top|bottom", "periodic")
        mats = list(dict.fromkeys(cfg.mesh.GetMaterials()))
        dcs = []
        for k, (mat, x) in enumerate(zip(mats, s["layers"])):
            if "initial" not in gaps:
                dc, fill = self.initial(gaps.get(f"initial{k}"))
                cfg.dcs[mat] = dc
                self.later[f"initial{k}"] = fill
            if x:
                dc, fill = self.layer(x, gaps.get(f"layer{k}"))
                cfg.dcs[mat] = dc
                self.later[f"layer{k}"] = fill
        extra = gaps.get("extra")
        if extra == "adiabatic":
            cfg.bcs["left"] = AdiabaticWall()
        elif extra == "boundary":
            cfg.bcs["right"] = Initial(fields=self.inf)
        elif extra:
            cfg.dcs[mats[0]] = {"force": Force(fields=flowfields(rho=1.0)), "perturbation": Perturbation(), "domain": FarField(fields=self.inf)}[extra]

    def settings(self, place, gap):
        """Contradictory settings (gap None: mended)"""
        s, cfg = self.s, self.cfg
        if place == "order":
            cfg.fem.order = s["order"] if gap is None else max(x[1] for x in s["layers"] if x and x[0] == "psponge") - 1
        elif place == "viscosity":
            if gap is None:
                cfg.fem.mixed_method = "strain_heat" if s["viscous"] else "inactive"
                cfg.dynamic_viscosity = "constant" if s["viscous"] else "inviscid"
                if s["viscous"]:
                    cfg.reynolds_number = 50
            elif gap == "unmixed":
                cfg.fem.mixed_method = "inactive"
            elif gap == "inviscid":
                cfg.dynamic_viscosity = "inviscid"
            elif gap == "viscous":
                cfg.dynamic_viscosity = "constant"
                cfg.reynolds_number = 50
            else:
                cfg.fem.mixed_method = gap
        elif place == "output":
            self.emptied = gap is not None and gap.endswith("emptied") or gap is None and self.emptied
            if gap is None:
                # a stream that only lacked its fields goes on
                if not self.emptied:
                    cfg.io.sensor = "sensor" in s["outputs"]
                    cfg.io.vtk = "vtk" in s["outputs"]
                self.outputs()
            elif gap == "vtk-emptied":
                cfg.io.vtk.fields = {}
            elif gap == "sensor-emptied":
                cfg.io.sensor.domain["all"].fields = None
            elif gap == "vtk":
                cfg.io.vtk = True
                cfg.io.vtk.fields = {}
            else:
                cfg.io.sensor = True
                setattr(cfg.io.sensor, gap, "empty")
                if gap == "point":
                    cfg.io.sensor.point["empty"].points = ((0.1, 0.1),)

    def outputs(self):
        """Fields of the outputs; they belong to the unknowns, so they are set after these are made"""
        cfg = self.cfg
        if "vtk" in self.s["outputs"]:
            cfg.io.vtk.fields = {"U": cfg.gfus["U"]}
        if "sensor" in self.s["outputs"]:
            if "all" not in cfg.io.sensor.domain:
                cfg.io.sensor.domain = "all"
            cfg.io.sensor.domain["all"].fields = {"U": cfg.gfus["U"]}


CONDITIONS = ("side", "initial", "layer", "periodic", "extra")


def run(w, s):
    check(s)
    with w.quiet():
        p = Problem(s, os.path.join(w.root, "straight"))
        p.cfg.initialize()
        p.outputs()
        want = runs.drive(None, p.cfg)
    # dofs of facets that are identified with others are not used, their values are arbitrary
    used = np.array([p.cfg.fes.CouplingType(k) != ngs.COUPLING_TYPE.UNUSED_DOF for k in range(p.cfg.fes.ndof)])
    legal(want.outcome == "done" and all(np.isfinite(x[used]).all() for x in want.states.values()))
    p = Problem(s, os.path.join(w.root, "crooked"))
    ran = False
    for k, r in enumerate([*s["rounds"], {"gaps": [], "mend": [], "check": [], "fault": None, "run": True}]):
        gaps = dict(r["gaps"])
        of_conditions = {q: g for q, g in gaps.items() if q.startswith(CONDITIONS)}
        if of_conditions:
            p.arrange(of_conditions)
        for q, g in gaps.items():
            if q not in of_conditions and q != "output":
                p.settings(q, g)
        if len(gaps) > 1 or (ran and gaps):
            w.probe("nontrivial")
        refused(w, p, gaps, f"round {k}")
        for (q, g), mend, look in zip(r["gaps"], r["mend"], r["check"]):
            del gaps[q]
            of_conditions.pop(q, None)
            if q.startswith(CONDITIONS):
                if mend == "fill" and q in p.later and "initial" not in of_conditions:
                    p.later[q]()
                else:
                    mend = "again"
                    p.arrange(of_conditions)
            elif q != "output":
                p.settings(q, None)
            w.state(s["sides"], s["layers"], s["viscous"], q, g, mend, look)
            if look:
                refused(w, p, gaps, f"round {k}, after {q} was mended")
        if r["fault"]:
            interrupted(w, p, r["fault"])
        if r["run"]:
            p.cfg.initialize()
            p.outputs()
            h = runs.drive(w, p.cfg)
            w.simtime += 0.1 * len(h.labels)
            require(h.outcome == "done" and h.labels == want.labels, "other-run", lambda: f"round {k}: ended {h.outcome} after {h.labels}: {h.error}")
            for t in want.labels:
                off = np.abs(h.states[t] - want.states[t])[used].max()
                require(off <= 1e-8 * np.abs(want.states[t][used]).max(), "other-run", lambda: f"round {k}: at {t} the state is {off:.3e} off that of a solver which was set up correctly at once")
            ran = True
    w.note("done")


def attempt(p, gaps):
    p.cfg.initialize()
    if "output" in gaps:
        p.outputs()
        p.settings("output", gaps["output"])
        try:
            for t in p.cfg.time.start_solution_routine():
                return f"a step to {t}"
        finally:
            p.settings("output", None)
    return "initialised"


def refused(w, p, gaps, where):
    if not gaps:
        return
    try:
        got = attempt(p, gaps)
    except (ValueError, TypeError, NotImplementedError) as e:
        w.fired["refused"] += 1
        w.note(where, type(e).__name__, sorted(gaps.items()))
        msg = str(e)
        require(type(e) in (ValueError, TypeError, NotImplementedError) and "NoneType" not in msg and "unsupported operand" not in msg and "argument" not in msg, "unclear-refusal",
                lambda: f"{where}: a problem with {gaps} ended in {type(e).__name__}: {msg[:200]}")
    except (AttributeError, KeyError, IndexError, UnboundLocalError, ZeroDivisionError, RuntimeError) as e:
        require(False, "unclear-refusal", f"{where}: a problem with {gaps} ended in {type(e).__name__}: {str(e)[:200]}")
    else:
        require(False, "not-refused", lambda: f"{where}: a problem with {gaps} went on to {got}")
    left = [x._rel for x in w.open_handles()]
    require(not left, "left-open", lambda: f"{where}: after the refusal {left} are open")
    w.probe("refused " + "+".join(sorted(x.rstrip("0123456789") for x in gaps)))


def interrupted(w, p, kind):
    """An interrupt in the middle of setting up"""
    def hook(*a):
        w.on_inverse = None
        w.fired[f"{kind}@setup"] += 1
        raise core.SimInterrupt() if kind == "interrupt" else core.SimAbort()
    w.on_inverse = hook
    try:
        p.cfg.initialize()
    except (core.SimInterrupt, core.SimAbort):
        pass
    finally:
        w.on_inverse = None
