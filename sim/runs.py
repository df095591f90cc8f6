"""Building and driving the systems of a scenario, and recording what they do."""
from __future__ import annotations

import os
import pathlib

import numpy as np
import ngsolve as ngs

from dream.config import UniqueConfiguration, ngsdict

from . import core, model
from .core import SimAbort, SimCrash, SimInterrupt, require
from .model import legal

_meshes = {}


def mesh_of(name):
    """Meshes are read-only here, and shared by the runs of a worker"""
    if name not in _meshes:
        with _nothing():
            _meshes[name] = {"square": lambda: model.square(), "layers": lambda: model.layers(2),
                             "layers3": lambda: model.layers(3), "cube": model.cube}[name]()
    return _meshes[name]


class _nothing:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def interval_of(g):
    legal(g["n"] >= 1)
    return float(g["start"]), model.end_of(g["start"], g["step"], g["n"])


def build(sys, g, time="transient", newton=None, root=None, init=True, u0=None, mesh=None, **kw):
    """A model solver for the system `sys` on the time grid `g`"""
    cfg = model.ode(mesh or mesh_of(sys["mesh"]), u0 if u0 is not None else sys["u0"], sys["src"], sys["par"], time=time,
                    scheme=sys["scheme"], interval=interval_of(g), step=float(g["step"]),
                    newton=newton or {"max_iterations": 12, "convergence_criterion": 1e-13}, root=root, rhs=sys.get("rhs", "blf"), compile=sys.get("compile"), joint=sys.get("joint"), **kw)
    if init:
        cfg.initialize()
    return cfg


def refuse(obj, name, seed=0):
    """Rates that make no sense are refused, and change nothing"""
    before = obj[name]
    value = (0, -1, -7, 0.4, "x")[seed % 5]
    try:
        setattr(obj, name, value)
    except ValueError:
        pass
    else:
        require(False, "accepted", lambda: f"{name} = {value!r} was accepted: {obj[name]}")
    require(obj[name] == before, "accepted", lambda: f"{name} = {value!r} was refused, but left {obj[name]} instead of {before}")


def labels_of(g):
    return model.timeline(g["start"], g["step"], g["n"])


def snapshot(cfg):
    """The state and the time levels of a solver"""
    levels = {(fes, level): model.vec(gfu) for fes, gfus in cfg.time.scheme.gfus.items() for level, gfu in gfus.items()}
    return model.vec(cfg.gfu), levels


class History:
    """What a run did, as seen by the user's loop"""

    def __init__(self):
        self.labels = []
        self.states = {}
        self.levels = {}
        self.outcome = None
        self.error = None

    def see(self, cfg, t):
        self.labels.append(t)
        self.states[t], self.levels[t] = snapshot(cfg)


def drive(w, cfg, hist=None, body=None, stop_after=None, how="close", reassemble=True, routine=None):
    """Run the solver as a user does.  body(i, t) is the loop body.

    Returns the history, with outcome one of done, stopped, crash, interrupt, abort, oserror.
    stop_after=(i, kind) leaves the loop in the body of step i: kind is 'close', 'drop', 'abort', 'interrupt' or 'crash'
    """
    hist = hist or History()
    if w is not None:
        w.compiled.clear()
    gen = (routine or cfg.time.start_solution_routine)(reassemble) if routine is None else routine()
    i = -1
    try:
        for i, t in enumerate(gen):
            hist.see(cfg, t)
            if w is not None:
                w.steps += 1
            if body is not None:
                body(i, t)
            if stop_after is not None and i == stop_after[0]:
                kind = stop_after[1]
                if w is not None:
                    w.fired[f"{kind}@body"] += 1
                    w.note("fault", kind, "body", i)
                if kind == "crash":
                    w.crashed = True
                    raise SimCrash()
                if kind == "interrupt":
                    raise SimInterrupt()
                if kind == "abort":
                    raise SimAbort()
                hist.outcome = "stopped"
                if kind == "close":
                    gen.close()
                break
        else:
            hist.outcome = "done"
    except SimCrash:
        hist.outcome = "crash"
    except SimInterrupt:
        hist.outcome = "interrupt"
    except SimAbort:
        hist.outcome = "abort"
    except OSError as e:
        hist.outcome, hist.error = "oserror", str(e)
    if hist.outcome in ("crash", "interrupt", "abort", "oserror"):
        # what becomes of the loop's iterator when an exception leaves the user's code: it is closed at the latest then
        gen.close()
    del gen
    if w is not None:
        compiled(w, cfg, reassemble and hist.outcome == "done" and routine is None)
    return hist


def compiled(w, cfg, assembled):
    """Forms are handed to the compiler with the options of the solver, or not at all"""
    options = {k: cfg.optimizations.compile[k] for k in ("realcompile", "wait", "keep_files")}
    if not options["realcompile"]:
        require(not w.compiled, "compiled", "forms are compiled, although that is switched off")
    names = ("realcompile", "wait", "keep_files")
    got = [{"realcompile": False, "wait": False, "keep_files": False, **dict(zip(names, args)), **kw} for args, kw in w.compiled]
    require(all(x == options for x in got), "compiled", lambda: f"forms are compiled with {got}, the options are {options}")
    if options["realcompile"] and assembled:
        require(got, "compiled", "forms are not compiled")
        w.probe("compiled")


def load_file(cfg, path, space=None):
    """Read a gridfunction file the way NGSolve does, not through dream"""
    gfu = ngs.GridFunction(space if space is not None else cfg.fes)
    core._real["gf.Load"](gfu, str(path))
    return model.vec(gfu)


def listing(path):
    return sorted(os.listdir(path)) if os.path.isdir(path) else []


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def close(a, b, tol=1e-9):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


__all__ = ["mesh_of", "build", "labels_of", "snapshot", "History", "drive", "load_file", "listing", "same", "close",
           "interval_of", "require", "legal"]


# --------------------------------------------------------------------------- the real flow solver

def flow_system(rng, small=True):
    """A compressible flow problem of a few triangles"""
    from . import gen as G
    s = {"flow": True, "mesh": rng.choice(("square", "layers")), "scheme": rng.choice(("implicit_euler", "bdf2")),
         "riemann": rng.choice(("lax_friedrich", "roe", "hll", "hllem", "upwind")),
         "order": rng.choice((0, 1, 1, 2)), "mach": rng.choice((0.2, 0.5)), "scaling": rng.choice(
            ("acoustic", "aerodynamic", "aeroacoustic")),
         "condense": rng.random() < 0.5, "viscous": rng.choice((None, None, "strain_heat", "gradient")),
         "bc": rng.choice(("farfield", "grcbc", "nscbc", "outflow")), "dir": [1.0, rng.choice((0.3, -0.2, 0.5))],
         "amp": rng.choice((0.02, 0.05)), "compile": G.compiling(rng)}
    if s["viscous"] == "gradient":
        s["viscous"] = None
    return s


def build_flow(s, g, root=None, init=True, crit=1e-11, max_it=12, mesh=None, bare=False):
    """bare: neither settings of the system (apart from those of the time grid), nor conditions"""
    mesh = mesh or mesh_of(s["mesh"])
    if bare:
        return model.flow(mesh, interval=interval_of(g), step=float(g["step"]), root=root)
    cfg = model.flow(mesh, scheme=s["scheme"], riemann=s["riemann"], order=s["order"], mach=s["mach"],
                     interval=interval_of(g), step=float(g["step"]), condense=s["condense"], viscous=s["viscous"],
                     scaling=s["scaling"], crit=crit, max_it=max_it, root=root, compile=s.get("compile"))
    flow_conditions(cfg, s)
    if init:
        cfg.initialize()
    return cfg


def flow_conditions(cfg, s):
    from dream.compressible import FarField, Initial, Outflow, GRCBC, NSCBC, flowfields
    inf = cfg.get_farfield_state(tuple(s["dir"]))
    if s["bc"] in ("grcbc", "nscbc"):
        CBC = GRCBC if s["bc"] == "grcbc" else NSCBC
        cfg.bcs["left|top|bottom"] = CBC(fields=inf, target="farfield", relaxation_factor=0.5, tangential_relaxation=0.1)
        cfg.bcs["right"] = CBC(fields=inf, target="outflow", relaxation_factor=0.5)
    elif s["bc"] == "outflow":
        cfg.bcs["left|top|bottom"] = FarField(fields=inf)
        cfg.bcs["right"] = Outflow(fields=inf)
    else:
        cfg.bcs["left|top|bottom|right"] = FarField(fields=inf)
    bump = 1 + s["amp"] * ngs.exp(-4 * (ngs.x**2 + (ngs.y - 0.1)**2))
    cfg.dcs["|".join(cfg.mesh.GetMaterials())] = Initial(fields=flowfields(rho=inf.rho * bump, u=inf.u, p=inf.p * bump))


def make(s, g, **kw):
    return build_flow(s, g, **kw) if s.get("flow") else build(s, g, **kw)


def enable(cfg, name, keep=False):
    """Switch an output on; with keep, one that is already on goes on with its stream object"""
    if not (keep and name in cfg.io.data):
        setattr(cfg.io, name, True)
    return cfg.io[name]


def without(w, cfg, life, name, folder):
    """A run with this output switched off: it writes none of its files"""
    def files():
        with w.quiet():
            out = {}
            for f in listing(folder):
                path = os.path.join(folder, f)
                if os.path.isfile(path):
                    with open(path, "rb") as file:
                        out[f] = file.read()
            return out
    if name in cfg.io.data:
        setattr(cfg.io, name, False)
    before = files()
    w.arm(life["faults"])
    h = drive(w, cfg, stop_after=life["leave"])
    w.simtime += float(life["grid"]["step"]) * len(h.labels)
    after = files()
    changed = sorted(f for f in {*before, *after} if before.get(f) != after.get(f))
    require(not changed, "switched-off", lambda: f"{name} is off, but the run has written {changed}")
    w.probe("runs with the output switched off")
    w.note("off", h.outcome, len(h.labels))
    return h


def in_use(cfg, root="", skip=()):
    """The settings, read one by one"""
    out = {}
    for name in cfg.data:
        if name in skip:
            continue
        try:
            value = getattr(cfg, name)
        except Exception:           # not in use
            continue
        if isinstance(value, UniqueConfiguration):
            out[root + name] = value.name
            out.update(in_use(value, root + name + "."))
        elif isinstance(value, ngs.Parameter):
            out[root + name] = value.Get()
        elif not isinstance(value, ngsdict):
            out[root + name] = str(value) if isinstance(value, pathlib.Path) else value
    return out
