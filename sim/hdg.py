"""The discrete equations of a flow problem, written down a second time, directly from the equations and without dream.

The hybridised discontinuous Galerkin method of Vila-Perez et al. (2021) for the compressible Euler and Navier-Stokes
equations of an ideal gas, with the stabilisations, boundary conditions and layers dream documents.  Matrix functions of the
flux Jacobian are interpolation polynomials of the Jacobian instead of products of eigenvector matrices.
"""
from __future__ import annotations

import numpy as np
import ngsolve as ngs

from . import flows, model
from .core import require

CF = ngs.CF


def dot(a, b):
    return sum(a[i] * b[i] for i in range(2))


def pos(x):
    return ngs.IfPos(x, x, 0)


def matvec(A, x):
    return [sum(A[i][j] * x[j] for j in range(len(x))) for i in range(len(A))]


def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def combine(*terms):
    """Sum of factor * matrix"""
    n = len(terms[0][1])
    return [[sum(f * A[i][j] for f, A in terms) for j in range(n)] for i in range(n)]


EYE = [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]


class State:
    """The fields of conservative variables"""

    def __init__(self, U, gamma):
        self.U = [U[i] for i in range(4)]
        self.gamma = gamma
        self.rho = U[0]
        self.m = [U[1], U[2]]
        self.u = [U[1] / U[0], U[2] / U[0]]
        self.e = U[3]
        self.p = (gamma - 1) * (U[3] - 0.5 * (U[1] * U[1] + U[2] * U[2]) / U[0])
        self.c = ngs.sqrt(gamma * self.p / U[0])
        self.T = gamma / (gamma - 1) * self.p / U[0]

    def flux(self, n):
        """F n"""
        un = dot(self.u, n)
        return [self.rho * un, self.m[0] * un + self.p * n[0], self.m[1] * un + self.p * n[1], (self.e + self.p) * un]

    def jacobian(self, n):
        """dF/dU n"""
        g, u, un = self.gamma, self.u, dot(self.u, n)
        q = 0.5 * dot(u, u)
        H = (self.e + self.p) / self.rho
        phi = (g - 1) * q
        return [[0 * un, n[0] + 0 * un, n[1] + 0 * un, 0 * un],
                [phi * n[0] - u[0] * un, un - (g - 2) * u[0] * n[0], u[0] * n[1] - (g - 1) * u[1] * n[0], (g - 1) * n[0] + 0 * un],
                [phi * n[1] - u[1] * un, u[1] * n[0] - (g - 1) * u[0] * n[1], un - (g - 2) * u[1] * n[1], (g - 1) * n[1] + 0 * un],
                [(phi - H) * un, H * n[0] - (g - 1) * u[0] * un, H * n[1] - (g - 1) * u[1] * un, g * un]]

    def projections(self, n):
        """Projections on the eigenspaces of the velocities un - c, un, un + c"""
        A, c, un = self.jacobian(n), self.c, dot(self.u, n)
        lo, mid, hi = (combine((1.0, A), (-lam, EYE)) for lam in (un - c, un, un + c))
        return (combine((1 / (2 * c * c), matmul(mid, hi))), combine((-1 / (c * c), matmul(lo, hi))), combine((1 / (2 * c * c), matmul(lo, mid))))

    def function(self, n, f):
        """f(A)"""
        un = dot(self.u, n)
        lo, mid, hi = self.projections(n)
        return combine((f(un - self.c), lo), (f(un), mid), (f(un + self.c), hi))

    def diagonal(self, n, acoustic_in, entropy, vorticity, acoustic_out):
        """The matrix with these eigenvalues for the characteristics"""
        lo, mid, hi = self.projections(n)
        t = [-n[1], n[0]]
        right = [0.0, t[0], t[1], dot(self.u, t)]
        left = [-dot(self.u, t), t[0], t[1], 0.0]
        shear = [[r * l for l in left] for r in right]
        return combine((acoustic_in, lo), (entropy, combine((1.0, mid), (-1.0, shear))), (vorticity, shear), (acoustic_out, hi))


class Equations:
    """Residual of the discrete equations of view v of the problem s in the spaces of a solver"""

    def __init__(self, s, v, cfg):
        self.s, self.v = s, v
        self.fes = fes = cfg.fes
        self.gamma = g = s["gamma"]
        self.now = ngs.GridFunction(fes)
        self.old = ngs.GridFunction(fes)
        self.older = ngs.GridFunction(fes)
        self.names = list(cfg.spaces)
        self.mesh = mesh = cfg.mesh
        trial, test = fes.TnT()
        self.trial, self.test = dict(zip(self.names, trial)), dict(zip(self.names, test))
        self.n, self.t = ngs.specialcf.normal(2), ngs.specialcf.tangential(2)
        c = flows.speed(v["scaling"], s["mach"])
        direction = flows.rotation(v) @ np.array(s["dir"])
        self.u_inf = s["mach"] * c * direction / np.linalg.norm(direction)
        self.c_inf, self.p_inf, self.T_inf = c, c * c / g, c * c / (g - 1)
        self.dt = s["step"] * v["size"] / c
        self.Re = s["reynolds"] / (s["mach"] * c)
        self.terms = {}
        # time in units of the description
        self.clock = ngs.Parameter(0.0)
        self.mod = flows.modulation(s, v, self.clock)
        vol, bnd = s["bonus"]
        self.cells = ngs.dx(bonus_intorder=vol)
        self.edges = ngs.dx(element_boundary=True, bonus_intorder=bnd)
        self.U, self.V = State(self.trial["U"], g), self.test["U"]
        self.H, self.W = State(self.trial["Uhat"], g), self.test["Uhat"]
        inner = ngs.GridFunction(ngs.FacetFESpace(mesh, order=0))
        inner.vec[:] = 1
        for name, kind in zip(("left", "right", "top", "bottom"), s["sides"]):
            if kind != "periodic":
                for k, bit in enumerate(inner.space.GetDofs(mesh.Boundaries(name))):
                    if bit:
                        inner.vec[k] = 0
        self.inner = inner
        self.time()
        self.convection()
        if s["viscous"]:
            self.gradients()
            self.diffusion()
        for name, kind in zip(("left", "right", "top", "bottom"), s["sides"]):
            if kind != "periodic":
                self.condition(name, kind)
        for mat, layer in zip(dict.fromkeys(mesh.GetMaterials()), s["layers"]):
            if layer:
                self.layer(mat, layer)
        self.used = np.array([fes.CouplingType(k) != ngs.COUPLING_TYPE.UNUSED_DOF for k in range(fes.ndof)])

    def add(self, name, form):
        if name not in self.terms:
            self.terms[name] = ngs.BilinearForm(self.fes)
        self.terms[name] += form

    def conservative(self, rho, u, p):
        return [rho, rho * u[0], rho * u[1], p / (self.gamma - 1) + 0.5 * rho * (u[0] * u[0] + u[1] * u[1])]

    # ------------------------------------------------------------------ inside

    def time(self):
        old, older = self.old.components[0], self.older.components[0]
        rate = [(self.U.U[i] - old[i]) / self.dt if self.s["scheme"] == "implicit_euler" else
                (1.5 * self.U.U[i] - 2 * old[i] + 0.5 * older[i]) / self.dt for i in range(4)]
        self.add("time", CF(tuple(rate)) * self.V * ngs.dx)

    def stabilisation(self, H, n):
        un, c = dot(H.u, n), H.c
        kind = self.s["riemann"]
        if kind == "lax_friedrich":
            return combine((ngs.IfPos(un, un, -un) + c, EYE))
        if kind == "hll":
            return combine((pos(un + c), EYE))
        if kind == "upwind":
            return H.function(n, pos)
        if kind == "roe":
            return H.function(n, lambda x: ngs.IfPos(x, x, -x))
        size = ngs.IfPos(un, un, -un)
        theta = size / (size + c)
        theta = ngs.IfPos(theta - 1e-8, theta, 1e-8)
        return combine((pos(un + c), H.diagonal(n, 1.0, theta, theta, 1.0)))

    def convection(self):
        U, H, n = self.U, self.H, self.n
        Fx, Fy = U.flux((1.0, 0.0)), U.flux((0.0, 1.0))
        dV = ngs.grad(self.V)
        self.add("convection", -sum(Fx[i] * dV[i, 0] + Fy[i] * dV[i, 1] for i in range(4)) * self.cells)
        jump = [U.U[i] - H.U[i] for i in range(4)]
        F = [a + b for a, b in zip(H.flux(n), matvec(self.stabilisation(H, n), jump))]
        self.add("convection", CF(tuple(F)) * self.V * self.edges)
        self.add("transmission", self.inner * CF(tuple(F)) * self.W * self.edges)

    def viscosity(self, T):
        if self.s["mu"] == "constant":
            return 1.0
        S = self.s["ref"][1] / self.s["ref"][0] * self.T_inf
        return (T / self.T_inf)**1.5 * (self.T_inf + S) / (T + S)

    def mixed(self):
        Q = self.trial["Q"]
        return [[Q[0], Q[1]], [Q[1], Q[2]]], [Q[3], Q[4]]

    def gradients(self):
        """Q is the deviatoric strain rate (xx, xy, yy) and the temperature gradient"""
        U, H, n = self.U, self.H, self.n
        eps, dT = self.mixed()
        P = self.test["Q"]
        dP = ngs.grad(P)
        self.add("mixed", (eps[0][0] * P[0] + 2 * eps[0][1] * P[1] + eps[1][1] * P[2] + dT[0] * P[3] + dT[1] * P[4]) * ngs.dx)
        # (u, div dev P), dev P = P - tr P/3
        self.add("mixed", (U.u[0] * (dP[0, 0] + dP[1, 1] - (dP[0, 0] + dP[2, 0]) / 3) + U.u[1] * (dP[1, 0] + dP[2, 1] - (dP[0, 1] + dP[2, 1]) / 3)
                           + U.T * (dP[3, 0] + dP[4, 1])) * self.cells)
        mean = (P[0] + P[2]) / 3
        self.add("mixed", -(H.u[0] * ((P[0] - mean) * n[0] + P[1] * n[1]) + H.u[1] * (P[1] * n[0] + (P[2] - mean) * n[1])
                            + H.T * (P[3] * n[0] + P[4] * n[1])) * self.edges)

    def viscous_flux(self, S, n):
        mu = self.viscosity(S.T) / self.Re
        eps, dT = self.mixed()
        stress = [2 * mu * dot(eps[i], n) for i in range(2)]
        return [0 * mu * n[0], stress[0], stress[1], dot(stress, S.u) + mu / self.s["prandtl"] * dot(dT, n)]

    def diffusion(self):
        U, H, n = self.U, self.H, self.n
        Gx, Gy = self.viscous_flux(U, (1.0, 0.0)), self.viscous_flux(U, (0.0, 1.0))
        dV = ngs.grad(self.V)
        self.add("diffusion", sum(Gx[i] * dV[i, 0] + Gy[i] * dV[i, 1] for i in range(1, 4)) * self.cells)
        mu = self.viscosity(H.T) / self.Re
        tau = [0.0, mu, mu, mu / self.s["prandtl"]]
        G = [a - b * (x - y) for a, b, x, y in zip(self.viscous_flux(H, n), tau, U.U, H.U)]
        self.add("diffusion", -CF(tuple(G)) * self.V * self.edges)
        self.add("transmission", -self.inner * CF(tuple(G)) * self.W * self.edges)

    # ------------------------------------------------------------------ conditions

    def far(self):
        a, b, c = self.s["far"]
        return a, b * self.u_inf, c * self.p_inf * self.mod

    def condition(self, name, kind):
        U, H, n, g = self.U, self.H, self.n, self.gamma
        dS = ngs.ds(skeleton=True, definedon=self.mesh.Boundaries(name), bonus_intorder=self.s["bonus"][1])
        rho, u, p = self.far()
        inf = self.conservative(rho, u, p)
        zero = [0 * x for x in H.U]
        if kind == "farfield":
            into, out = H.function(n, lambda x: ngs.IfPos(-x, 1, 0)), H.function(n, lambda x: ngs.IfPos(x, 1, 0))
            R = [h - a - b for h, a, b in zip(H.U, matvec(out, U.U), matvec(into, inf))]
        elif kind == "farfield-full":
            out, into = H.function(n, pos), H.function(n, lambda x: -pos(-x))
            R = [a - b for a, b in zip(matvec(out, [h - x for h, x in zip(H.U, U.U)]), matvec(into, [h - x for h, x in zip(H.U, inf)]))]
        elif kind == "outflow":
            # density and momentum of the inside, pressure of the outside
            R = [H.U[i] - U.U[i] for i in range(3)] + [H.U[3] - p / (g - 1) - 0.5 * dot(U.m, U.m) / U.rho]
        elif kind in ("inviscid_wall", "symmetry"):
            mn = dot(U.m, n)
            R = [H.U[0] - U.rho, H.U[1] - U.m[0] + mn * n[0], H.U[2] - U.m[1] + mn * n[1], H.U[3] - U.e]
            dS = ngs.ds(skeleton=True, definedon=self.mesh.Boundaries(name))
        elif kind == "isothermal_wall":
            R = [H.U[0] - U.rho, H.U[1], H.U[2], H.U[3] - U.rho * self.T_inf * self.s["wall"] * self.s["far"][2] / self.s["far"][0] * self.mod / g]
        else:
            R = self.characteristic(kind, rho, u, p, inf)
        self.add(f"{kind} at {name}", CF(tuple(r + z for r, z in zip(R, zero))) * self.W * dS)

    def characteristic(self, kind, rho, u, p, inf):
        """dU/dt = D (target - U) - beta B dU/dt + .. for the incoming characteristics, outgoing ones from the inside"""
        s, U, H, n, t, g = self.s, self.U, self.H, self.n, self.t, self.gamma
        kind, _, target = kind.partition("-")
        if target == "":
            goal = inf
        elif target == "out":
            goal = [U.rho, U.m[0], U.m[1], p / (g - 1) + 0.5 * dot(U.m, U.m) / U.rho]
        elif target == "mass":
            goal = [rho, rho * u[0], rho * u[1], U.p / (g - 1) + 0.5 * rho * (u[0]**2 + u[1]**2)]
        else:
            # velocity of the outside, temperature of the inside, on the isentrope of the outside
            r = rho * (U.p / p)**(1 / g)
            goal = [r, r * u[0], r * u[1], r * U.T / g + 0.5 * r * (u[0]**2 + u[1]**2)]
        f = flows.factors(s)
        if kind == "grcbc":
            D = H.diagonal(n, *(f[k] / self.dt for k in ("acoustic_in", "entropy", "vorticity_0", "acoustic_out")))
        else:
            # 1 - M^2 with the Mach number of the far field
            rate = H.c / (2.0 * self.v["size"])
            less = 1 - s["mach"]**2
            D = H.diagonal(n, f["acoustic_in"] * rate * less, f["entropy"] * rate, f["vorticity_0"] * rate, f["acoustic_out"] * rate * less)
        k = self.names.index("Uhat")
        old, older = self.old.components[k], self.older.components[k]
        if s["scheme"] == "implicit_euler":
            dt, before = self.dt, [old[i] for i in range(4)]
        else:
            dt, before = self.dt / 1.5, [(2 * old[i] - 0.5 * older[i]) / 1.5 for i in range(4)]
        into, out = H.function(n, lambda x: ngs.IfPos(-x, 1, 0)), H.function(n, lambda x: ngs.IfPos(x, 1, 0))
        dH = ngs.grad(self.trial["Uhat"])
        along = [dH[i, 0] * t[0] + dH[i, 1] * t[1] for i in range(4)]
        change = [a - 0.2 * b for a, b in zip(matvec(D, [x - h for x, h in zip(goal, H.U)]), matvec(H.jacobian(t), along))]
        if s["viscous"] and s["cbcvis"]:
            change = [a + b for a, b in zip(change, self.viscous_change(target))]
        new = [b + dt * x for b, x in zip(before, change)]
        return [h - a - b for h, a, b in zip(H.U, matvec(out, U.U), matvec(into, new))]

    def viscous_change(self, target):
        """The divergence of the viscous flux, where the normal derivatives of the shear stress and the heat flux through an outflow vanish, and
        that of the normal stress elsewhere"""
        U, n, t = self.U, self.n, self.t
        mu = self.viscosity(U.T) / self.Re
        eps, _ = self.mixed()
        dU, dQ = ngs.grad(self.trial["U"]), ngs.grad(self.trial["Q"])
        out = [0 * mu * n[0]] * 4
        for d in (n, t):
            down = [dU[i, 0] * d[0] + dU[i, 1] * d[1] for i in range(3)]
            du = [(down[i + 1] - U.u[i] * down[0]) / U.rho for i in range(2)]
            q = [dQ[i, 0] * d[0] + dQ[i, 1] * d[1] for i in range(5)]
            E, heat = [[q[0], q[1]], [q[1], q[2]]], [q[3], q[4]]
            if d is n:
                nn, nt, tt = (dot([dot(E[0], a), dot(E[1], a)], b) for a, b in ((n, n), (n, t), (t, t)))
                if target == "out":
                    nt, heat = 0, [dot(heat, t) * t[0], dot(heat, t) * t[1]]
                else:
                    nn = 0
                E = [[nn * n[i] * n[j] + nt * (n[i] * t[j] + t[i] * n[j]) + tt * t[i] * t[j] for j in range(2)] for i in range(2)]
            force = [2 * mu * dot(E[i], d) for i in range(2)]
            work = [2 * mu * dot(eps[i], d) for i in range(2)]
            out = [a + b for a, b in zip(out, [0, force[0], force[1], dot(U.u, force) + dot(work, du) + mu / self.s["prandtl"] * dot(heat, d)])]
        return out

    def layer(self, mat, layer):
        s, v = self.s, self.v
        R = flows.rotation(v)
        x = (R[0, 0] * (ngs.x - v["move"][0]) + R[1, 0] * (ngs.y - v["move"][1])) / v["size"]
        y = (R[0, 1] * (ngs.x - v["move"][0]) + R[1, 1] * (ngs.y - v["move"][1])) / v["size"]
        strength = self.c_inf / v["size"] * layer[1] * self.shape(x, y)
        if layer[0] == "sponge" or layer[2] == layer[3]:
            goal = self.conservative(1.0, self.u_inf, self.p_inf)
        else:
            low = ngs.L2(self.mesh, order=layer[3])
            goal = [ngs.Interpolate(self.trial["U"][i], low) for i in range(4)]
        dX = ngs.dx(definedon=self.mesh.Materials(mat), bonus_intorder=layer[2] if layer[0] == "sponge" else 0)
        self.add(f"layer {mat}", CF(tuple(strength * (a - b) for a, b in zip(self.U.U, goal))) * self.V * dX)

    def shape(self, x, y):
        if not self.s["shape"]:
            return 1 + x
        kind = self.s["shape"][0]
        a, b = flows.SPAN[kind]
        z = ((ngs.sqrt(x * x + y * y) if kind == "radial" else x) - a) / (b - a)
        z = ngs.IfPos(z, ngs.IfPos(1 - z, z, 1), 0)
        return z**3 * (10 - 15 * z + 6 * z**2) if kind == "penta" else z**self.s["shape"][1]

    # ------------------------------------------------------------------ results

    def initial(self):
        """Conservative variables in the beginning, by material"""
        out = {}
        for k, mat in enumerate(dict.fromkeys(self.mesh.GetMaterials())):
            rho, u, p = flows.start(self.s, self.v, k, 1.0, self.u_inf, self.p_inf)
            out[mat] = CF(tuple(self.conservative(rho, u, p)))
        return self.mesh.MaterialCF(out)

    def projection(self, name, how):
        """Projection of the beginning on a space"""
        fes = self.fes.components[self.names.index(name)]
        u, v = fes.TnT()
        a, f = ngs.BilinearForm(u * v * how).Assemble(), ngs.LinearForm(self.initial() * v * how).Assemble()
        return (a.mat.Inverse(fes.FreeDofs(), inverse="umfpack") * f.vec).Evaluate().FV().NumPy().copy()

    def residual(self, t, now, old, older):
        """By space: name of the space -> largest residual, largest contribution of a term"""
        self.clock.Set(t * self.c_inf / self.v["size"])
        for gfu, x in ((self.now, now), (self.old, old), (self.older, older)):
            gfu.vec.FV().NumPy()[:] = np.where(self.used, x, 0.0)
        total, size = np.zeros(len(now)), np.zeros(len(now))
        vec = self.now.vec.CreateVector()
        for form in self.terms.values():
            form.Apply(self.now.vec, vec)
            x = vec.FV().NumPy()
            total += x
            size = np.maximum(size, np.abs(x))
        out = {}
        for k, name in enumerate(self.names):
            r = self.fes.Range(k)
            on = self.used[r.start:r.stop]
            out[name] = float(np.abs(total[r.start:r.stop][on]).max()), float(size[r.start:r.stop][on].max())
        return out


def check_orders(cfg, order, reduced):
    """The unknowns have the order of the method, and of the polynomial sponge layers (by material) within these"""
    mesh = cfg.mesh
    at = {}
    for el in mesh.Elements():
        p = reduced.get(el.mat, order)
        for name in ("U", "Q"):
            if name in cfg.spaces:
                n = sum(d >= 0 for d in cfg.spaces[name].components[0].GetDofNrs(el))
                require(n == (p + 1) * (p + 2) // 2, "order", lambda: f"{name} has {n} functions on an element of {el.mat}, the order is {p}, that of layers {reduced}")
        for edge in el.edges:
            at.setdefault(edge, []).append(reduced.get(el.mat))
    fes = cfg.spaces["Uhat"].components[0]
    for edge, orders in at.items():
        n = sum(d >= 0 and fes.CouplingType(d) != ngs.COUPLING_TYPE.UNUSED_DOF for d in fes.GetDofNrs(edge))
        within = [p for p in orders if p is not None]
        p = max(within) if within else order
        # between a layer and the rest either order may hold
        require(n == p + 1 or (None in orders and n == order + 1), "order", lambda: f"Uhat has {n} functions on a facet of order {p}, orders of the layers next to it: {orders}")
