"""A small two-field solver, and the real flow solver on a few triangles, for the demonstrations."""
import logging
import os
import sys
import pathlib
import numpy as np
import ngsolve as ngs
import netgen.occ as occ

from dream.config import interface, ngsdict
from dream.solver import SolverConfiguration, FiniteElementMethod
from dream.mesh import BoundaryConditions, DomainConditions
from dream.compressible import CompressibleFlowSolver, flowfields, FarField, Initial, Outflow, InviscidWall

ngs.SetNumThreads(1)


def square(maxh=1.0, periodic=""):
    face = occ.WorkPlane().RectangleC(1, 1).Face()
    for name, edge in zip(("bottom", "right", "top", "left"), face.edges):
        edge.name = name
    if "y" in periodic:
        face.edges[0].Identify(face.edges[2], "py", occ.IdentificationType.PERIODIC)
    if "x" in periodic:
        face.edges[1].Identify(face.edges[3], "px", occ.IdentificationType.PERIODIC)
    return ngs.Mesh(occ.OCCGeometry(face, dim=2).GenerateMesh(maxh=maxh))


def layers(names=("l0", "l1"), maxh=1.0):
    wp = occ.WorkPlane()
    faces = []
    n = len(names)
    h = 1.0 / n
    for i, name in enumerate(names):
        face = wp.MoveTo(-0.5 + (i + 0.5) * h, 0).RectangleC(h, 1).Face()
        face.name = name
        edges = ["bottom", "right" if i == n - 1 else "inner", "top", "left" if i == 0 else "inner"]
        for e, edge in zip(edges, face.edges):
            edge.name = e
        faces.append(face)
    return ngs.Mesh(occ.OCCGeometry(occ.Glue(faces), dim=2).GenerateMesh(maxh=maxh))


class DemoFem(FiniteElementMethod):

    name: str = "demo"
    cfg: SolverConfiguration

    def add_finite_element_spaces(self, spaces):
        spaces["U"] = ngs.L2(self.mesh, order=0)
        spaces["W"] = ngs.L2(self.mesh, order=0)

    def get_temporal_integrators(self):
        return {"U": ngs.dx}

    def add_symbolic_spatial_forms(self, blf, lf):
        u, v = self.cfg.TnT["U"]
        w, q = self.cfg.TnT["W"]
        blf["space"] = (self.cfg.lam * u + 0.5 * (u - w) + self.cfg.mu * u**3 - self.cfg.src - self.cfg.poison) * v * ngs.dx
        blf["space"] += (w - 0.5 * u) * q * ngs.dx

    def add_symbolic_temporal_forms(self, blf, lf):
        self.cfg.time.scheme.add_symbolic_temporal_forms("U", blf, lf)

    def get_fields(self, quantities):
        return ngsdict(U=self.cfg.gfus["U"], W=self.cfg.gfus["W"])

    def set_initial_conditions(self):
        self.cfg.gfus["U"].Set(self.cfg.u0)
        self.cfg.gfus["W"].Set(0.5 * self.cfg.u0)

    def set_boundary_conditions(self):
        pass


class DemoSolver(SolverConfiguration):

    name: str = "demo"

    @interface(default=DemoFem)
    def fem(self, fem):
        return fem


def ode(mesh=None, scheme="implicit_euler", interval=(0.0, 1.0), step=0.1, root=None, init=True, time="transient",
        lam=1.0, mu=0.0, u0=None, crit=1e-13):
    mesh = mesh or square()
    cfg = DemoSolver(mesh, BoundaryConditions(mesh, []), DomainConditions(mesh, []))
    cfg.io.log.to_terminal = False
    if root is not None:
        cfg.io.folders.root = pathlib.Path(root).absolute()
    cfg.lam = ngs.Parameter(lam)
    cfg.mu = ngs.Parameter(mu)
    cfg.poison = ngs.Parameter(0.0)
    cfg.u0 = 1 + 0.3 * ngs.x if u0 is None else u0
    cfg.src = ngs.CF(0.2)
    cfg.time = time
    cfg.time.scheme = scheme
    cfg.time.timer.interval = interval
    cfg.time.timer.step = step
    cfg.optimizations.compile.realcompile = False
    cfg.nonlinear_solver.convergence_criterion = crit
    if init:
        cfg.initialize()
    return cfg


def flow(mesh=None, scheme="bdf2", order=1, interval=(0.0, 0.2), step=0.1, root=None, mach=0.3, direction=(1.0, 0.3)):
    cfg = CompressibleFlowSolver(mesh or square())
    cfg.io.log.to_terminal = False
    if root is not None:
        cfg.io.folders.root = pathlib.Path(root).absolute()
    cfg.mach_number = mach
    cfg.scaling = "acoustic"
    cfg.fem.order = order
    cfg.time = "transient"
    cfg.time.scheme = scheme
    cfg.time.timer.interval = interval
    cfg.time.timer.step = step
    cfg.optimizations.compile.realcompile = False
    cfg.nonlinear_solver.convergence_criterion = 1e-12
    cfg.inf = cfg.get_farfield_state(direction)
    return cfg


def bump(cfg, amp=0.05):
    b = 1 + amp * ngs.exp(-4 * (ngs.x**2 + (ngs.y - 0.1)**2))
    return Initial(fields=flowfields(rho=cfg.inf.rho * b, u=cfg.inf.u, p=cfg.inf.p * b))


def uniform(cfg):
    return Initial(fields=flowfields(rho=cfg.inf.rho, u=cfg.inf.u, p=cfg.inf.p))


def vec(gfu):
    return gfu.vec.FV().NumPy().copy()


def run(cfg, **kw):
    """Runs, and returns the labels and states"""
    return [(t, vec(cfg.gfu)) for t in cfg.time.start_solution_routine(**kw)]


def load(cfg, path, space=None):
    gfu = ngs.GridFunction(space or cfg.fes)
    gfu.Load(str(path))
    return vec(gfu)
