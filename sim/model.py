"""The systems under simulation, and small reference models of what they have to do.

OdeSolver   a two-field solver on L2(order=0) built on dream's public extension points (SolverConfiguration,
            FiniteElementMethod).  Everything but its three lines of weak form is dream's real code, and the
            weak form decouples into scalar equations per cell, which numpy solves independently.
flow()      the real CompressibleFlowSolver on meshes of a few triangles.
"""
from __future__ import annotations

import logging
from decimal import Decimal

import numpy as np
import ngsolve as ngs
import netgen.occ as occ

from dream.config import interface, ngsdict
from dream.solver import SolverConfiguration, FiniteElementMethod
from dream.mesh import BoundaryConditions, DomainConditions
from dream.compressible import CompressibleFlowSolver, flowfields, FarField, Initial, InviscidWall

from .core import Invalid

# --------------------------------------------------------------------------- meshes


def square(maxh=1.0, periodic=""):
    face = occ.WorkPlane().RectangleC(1, 1).Face()
    for name, edge in zip(("bottom", "right", "top", "left"), face.edges):
        edge.name = name
    if "y" in periodic:
        face.edges[0].Identify(face.edges[2], "py", occ.IdentificationType.PERIODIC)
    if "x" in periodic:
        face.edges[1].Identify(face.edges[3], "px", occ.IdentificationType.PERIODIC)
    return ngs.Mesh(occ.OCCGeometry(face, dim=2).GenerateMesh(maxh=maxh))


def cube():
    """Unit cube of a few tetrahedra"""
    box = occ.Box((-0.5, -0.5, -0.5), (0.5, 0.5, 0.5))
    for name, face in zip(("left", "right", "front", "back", "bottom", "top"), box.faces):
        face.name = name
    return ngs.Mesh(occ.OCCGeometry(box).GenerateMesh(maxh=2.0))


def layers(n=2, maxh=1.0):
    """Unit square made of n vertical layers l0, l1, ..; the outer boundary is left, right, top, bottom"""
    wp = occ.WorkPlane()
    faces = []
    h = 1.0 / n
    for i in range(n):
        face = wp.MoveTo(-0.5 + (i + 0.5) * h, 0).RectangleC(h, 1).Face()
        face.name = f"l{i}"
        names = ["bottom", "right" if i == n - 1 else "inner", "top", "left" if i == 0 else "inner"]
        for name, edge in zip(names, face.edges):
            edge.name = name
        faces.append(face)
    return ngs.Mesh(occ.OCCGeometry(occ.Glue(faces), dim=2).GenerateMesh(maxh=maxh))


# --------------------------------------------------------------------------- the model solver

class OdeFiniteElementMethod(FiniteElementMethod):

    name: str = "sim_ode"
    cfg: SolverConfiguration

    def add_finite_element_spaces(self, spaces):
        if self.cfg.joint == "component":
            spaces["U"] = ngs.L2(self.mesh, order=0)**2
        else:
            spaces["U"] = ngs.L2(self.mesh, order=0)
            spaces["W"] = ngs.L2(self.mesh, order=0)

    def get_temporal_integrators(self):
        return {"U": ngs.dx, "W": ngs.dx} if self.cfg.joint == "variable" else {"U": ngs.dx}

    def add_symbolic_spatial_forms(self, blf, lf):
        if self.cfg.joint == "component":
            (u, w), (v, q) = self.cfg.TnT["U"]
        else:
            u, v = self.cfg.TnT["U"]
            w, q = self.cfg.TnT["W"]
        p = self.cfg.par
        src = self.cfg.src * (1 + p["a"] * self.cfg.clock)
        blf["space"] = (p["lam"] * u + p["mu"] * u**3 + p["c"] * (u - w) - p["poison"]) * v * ngs.dx
        if self.cfg.rhs == "lf":
            # in two forms
            lf["source"] = 0.3 * src * v * ngs.dx
            lf["source too"] = 0.7 * src * v * ngs.dx
        else:
            blf["space"] -= src * v * ngs.dx
        blf["space"] += (w - p["g"] * u) * q * ngs.dx

    def add_symbolic_temporal_forms(self, blf, lf):
        for variable in self.get_temporal_integrators():
            self.cfg.time.scheme.add_symbolic_temporal_forms(variable, blf, lf)

    def get_fields(self, quantities):
        return ngsdict(U=self.cfg.parts[0], W=self.cfg.parts[1])

    def set_initial_conditions(self):
        self.cfg.parts[0].vec.FV().NumPy()[:] = self.cfg.u0
        self.cfg.parts[1].vec.FV().NumPy()[:] = self.cfg.par_values["g"] * self.cfg.u0

    def set_boundary_conditions(self):
        pass


class OdeSolver(SolverConfiguration):

    name: str = "sim_ode"
    # None: of two variables the first one is integrated in time; "variable": both are; "component": one variable with two components is
    joint: str | None = None

    @interface(default=OdeFiniteElementMethod)
    def fem(self, fem):
        return fem

    @property
    def parts(self):
        """The two fields"""
        return self.gfu.components


def compile_options(cfg, options):
    """options: None, or whether to wait for the compiler and whether to keep its files"""
    cfg.optimizations.compile.realcompile = options is not None
    if options is not None:
        cfg.optimizations.compile.wait, cfg.optimizations.compile.keep_files = options


PAR = {"lam": 1.0, "mu": 0.0, "c": 0.5, "g": 0.5, "a": 0.0}


def ode(mesh, u0, src, par, time="transient", scheme="implicit_euler", interval=(0.0, 1.0), step=0.1,
        newton=None, quiet=True, root=None, rhs="blf", compile=None, joint=None):
    """A configured, not yet initialized OdeSolver"""
    cfg = OdeSolver(mesh, BoundaryConditions(mesh, []), DomainConditions(mesh, []))
    if quiet:
        cfg.io.log.to_terminal = False
        cfg.io.log.level = logging.ERROR
    if root is not None:
        cfg.io.folders.root = root
    cfg.rhs = rhs
    cfg.joint = joint
    cfg.par_values = {**PAR, **par}
    cfg.par = {k: ngs.Parameter(v) for k, v in cfg.par_values.items()}
    cfg.par["poison"] = ngs.Parameter(0.0)
    ne = mesh.ne
    cfg.u0 = np.resize(np.array(u0, float), ne)
    cfg.src = ngs.GridFunction(ngs.L2(mesh, order=0))
    cfg.src.vec.FV().NumPy()[:] = np.resize(np.array(src, float), ne)
    cfg.time = time
    cfg.time.scheme = scheme
    cfg.time.timer.interval = interval
    cfg.time.timer.step = step
    cfg.clock = cfg.time.timer.t
    compile_options(cfg, compile)
    for key, value in (newton or {}).items():
        if key == "damping":
            cfg.nonlinear_solver.method.damping_factor = value
        else:
            cfg.nonlinear_solver[key] = value
    return cfg


class OdeReference:
    """The same equations, in numpy: implicit Euler / BDF2 with a damped Newton iteration per cell"""

    def __init__(self, cfg):
        self.p = cfg.par_values
        self.u0 = cfg.u0.copy()
        self.src = cfg.src.vec.FV().NumPy().copy()
        mesh = cfg.mesh
        self.joint = cfg.joint is not None
        self.area = np.array(ngs.Integrate(ngs.CF(1), mesh, element_wise=True))

    def residual(self, u, w, un, unm, dt, t, bdf2, poison=0.0):
        p = self.p
        if self.joint:
            # the levels hold both components
            n = len(u)
            dw = (3 * w - 4 * un[n:] + unm[n:]) / (2 * dt) if bdf2 else (w - un[n:]) / dt
            un, unm = un[:n], unm[:n]
        else:
            dw = 0.0
        du = (3 * u - 4 * un + unm) / (2 * dt) if bdf2 else (u - un) / dt
        ru = du + p["lam"] * u + p["mu"] * u**3 + p["c"] * (u - w) - self.src * (1 + p["a"] * t) - poison
        rw = dw + w - p["g"] * u
        return ru, rw

    def newton(self, u, w, un, unm, dt, t, bdf2, it_max=10, crit=1e-8, damping=1.0, poison_at=None):
        """Returns u, w and the list of errors, one per iteration"""
        p = self.p
        errors = []
        for it in range(it_max):
            poison = 0.0 if not poison_at or it not in poison_at else poison_at[it] if isinstance(poison_at, dict) else float("nan")
            ru, rw = self.residual(u, w, un, unm, dt, t, bdf2, poison)
            rate = 3 / (2 * dt) if bdf2 else 1 / dt
            d = rate + p["lam"] + 3 * p["mu"] * u**2 + p["c"]
            e = 1 + rate if self.joint else 1.0
            # [[d, -c], [-g, e]] [du, dw] = [ru, rw]
            det = d * e - p["c"] * p["g"]
            du = (e * ru + p["c"] * rw) / det
            dw = (p["g"] * ru + d * rw) / det
            err = abs(float(np.sum(self.area * (du * ru + dw * rw))))
            errors.append(err)
            if np.isnan(err):
                break
            u, w = u - damping * du, w - damping * dw
            if err < crit:
                break
        return u, w, errors


# --------------------------------------------------------------------------- what the timeline has to be

def timeline(start: str, step: str, n: int) -> list[float]:
    """The labels start + step, .., start + n*step of a run, computed without rounding errors"""
    a, h = Decimal(start), Decimal(step)
    return [float(a + k * h) for k in range(1, n + 1)]


def end_of(start: str, step: str, n: int) -> float:
    return float(Decimal(start) + n * Decimal(step))


def scheduled(n: int, rate: int, closing: bool = True) -> list[int]:
    """Iterations 0..n-1 at which something with this rate is due; the last one always is"""
    its = [it for it in range(n) if it % rate == 0]
    if closing and n and (n - 1) % rate:
        its.append(n - 1)
    return its


# --------------------------------------------------------------------------- the real flow solver

def flow(mesh, scheme="bdf2", riemann="lax_friedrich", order=1, mach=0.3, interval=(0.0, 0.5), step=0.1,
         condense=False, viscous=None, scaling="acoustic", crit=1e-12, max_it=20, root=None, compile=None):
    cfg = CompressibleFlowSolver(mesh)
    cfg.io.log.to_terminal = False
    cfg.io.log.level = logging.ERROR
    if root is not None:
        cfg.io.folders.root = root
    cfg.mach_number = mach
    cfg.scaling = scaling
    cfg.riemann_solver = riemann
    cfg.fem.order = order
    if viscous:
        cfg.dynamic_viscosity = "constant"
        cfg.reynolds_number = 50
        cfg.fem.mixed_method = viscous
    cfg.time = "transient"
    cfg.time.scheme = scheme
    cfg.time.timer.interval = interval
    cfg.time.timer.step = step
    compile_options(cfg, compile)
    cfg.optimizations.static_condensation = condense
    cfg.nonlinear_solver.convergence_criterion = crit
    cfg.nonlinear_solver.max_iterations = max_it
    return cfg


def levels(cfg) -> dict[str, np.ndarray]:
    """The time levels of all variables of a solver in one vector each"""
    variables = cfg.time.scheme.gfus.values()
    return {level: np.concatenate([vec(gfus[level]) for gfus in variables]) for level in cfg.time.scheme.time_levels}


def vec(gfu) -> np.ndarray:
    return gfu.vec.FV().NumPy().copy()


def legal(cond):
    if not cond:
        raise Invalid()


def field(cfg):
    """A field of a solver of either kind"""
    return cfg.parts[0] if isinstance(cfg, OdeSolver) else cfg.gfus["U"]
