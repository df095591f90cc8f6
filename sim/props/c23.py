"""C23: quantities read from a flow solver are those of its current state and settings, whatever happened and however they are asked for."""
import random

import numpy as np
import ngsolve as ngs

from sim import flows, hdg, model
from sim.core import require
from sim.flows import broken, follow, mesh_of
from sim.model import legal

QUICK = 600
THOROUGH = 10000
RULE = ("a real flow problem is computed in up to 4 pieces with interrupted solves, renewed spaces, and changed Mach, Reynolds and Prandtl numbers, heat "
        "capacity ratio and reference values in between; after steps, quantities asked for in the beginning and just now, equations applied to seeded sets of given quantities, "
        "fluxes, Jacobians, transforms, coefficients and far field states are evaluated in every cell and compared with formulas of the conservative variables; "
        "non-trivial: something happened between two readings")
MEASURE = "distinct (conditions, order, viscous, scaling, what changed, cuts) situations"
REAL = "the whole compressible flow solver: state, fields, equations, equation of state, viscosity, scaling"
STUB = "values of conservative variables and their gradients are read from NGSolve's grid functions"
ASSUMPTIONS = ["states with positive density and pressure", "relative tolerance 1e-9", "the run ends where a step does not converge or values grow 50-fold"]

CHANGES = ("mach", "gamma", "reynolds", "prandtl", "ref")


def gen(rng, tier, i):
    s = flows.gen(rng, tier, i)
    s["views"] = s["views"][:1]
    s["changes"] = [[rng.randint(0, s["n"]), rng.choice(CHANGES), rng.choice((0.5, 0.8, 1.1, 1.3))] for _ in range(rng.choice((0, 1, 1, 2, 3)))]
    s["ask"] = rng.randint(0, 10**6)
    return s


# --------------------------------------------------------------------------- the quantities of a state

def vector(*x):
    return ngs.CF(tuple(x))


def matrix(rows):
    return ngs.CF(tuple(x for r in rows for x in r), dims=(len(rows), len(rows[0])))


class Own:
    """All quantities as formulas of the conservative variables and their gradients"""

    def __init__(self, cfg, par):
        U = cfg.gfus["U"]
        G = ngs.grad(U)
        self.g = g = par["gamma"]
        self.par = par
        S = self.S = hdg.State(U, g)
        rho, m, e, u, p = S.rho, S.m, S.e, S.u, S.p
        ek = (m[0] * m[0] + m[1] * m[1]) / (2 * rho * rho)
        d = {"rho": rho, "u": vector(*u), "rho_u": vector(*m), "p": p, "T": S.T, "c": S.c, "rho_E": e, "E": e / rho, "rho_Ek": rho * ek, "Ek": ek,
             "rho_Ei": e - rho * ek, "Ei": e / rho - ek, "rho_H": e + p, "H": (e + p) / rho}
        dr, dm, de = [[G[i, j] for j in range(2)] for i in (0,)][0], [[G[i, j] for j in range(2)] for i in (1, 2)], [G[3, j] for j in range(2)]
        du = [[(dm[i][j] - u[i] * dr[j]) / rho for j in range(2)] for i in range(2)]
        dek = [u[0] * du[0][j] + u[1] * du[1][j] for j in range(2)]
        dE = [(de[j] - e / rho * dr[j]) / rho for j in range(2)]
        dEi = [dE[j] - dek[j] for j in range(2)]
        drek = [ek * dr[j] + rho * dek[j] for j in range(2)]
        dp = [(g - 1) * (de[j] - drek[j]) for j in range(2)]
        d.update({"grad_rho": vector(*dr), "grad_u": matrix(du), "grad_rho_u": matrix(dm), "grad_p": vector(*dp), "grad_T": vector(*(g * x for x in dEi)),
                  "grad_rho_E": vector(*de), "grad_E": vector(*dE), "grad_rho_Ei": vector(*(a - b for a, b in zip(de, drek))), "grad_Ei": vector(*dEi),
                  "grad_rho_Ek": vector(*drek), "grad_Ek": vector(*dek), "grad_rho_H": vector(*(a + b for a, b in zip(de, dp)))})
        third = (du[0][0] + du[1][1]) / 3
        self.strain = matrix([[du[0][0] - third, (du[0][1] + du[1][0]) / 2], [(du[0][1] + du[1][0]) / 2, du[1][1] - third]])
        self.du, self.dp, self.dr = du, dp, dr
        self.d = d
        if "Q" in cfg.gfus:
            Q = cfg.gfus["Q"]
            self.mixed = {"eps": matrix([[Q[0], Q[1]], [Q[1], Q[2]]]), "grad_T": vector(Q[3], Q[4])}

    # settings

    def c_inf(self):
        return flows.speed(self.par["scaling"], self.par["mach"])

    def viscosity(self):
        if self.par["mu"] == "constant":
            return ngs.CF(1.0)
        T, Ti = self.S.T, self.c_inf()**2 / (self.g - 1)
        S = self.par["S"] / self.par["T"] * Ti
        return (T / Ti) * ngs.sqrt(T / Ti) * (Ti + S) / (T + S)

    def Re(self):
        return self.par["reynolds"] / (self.par["mach"] * self.c_inf())

    def far(self, direction):
        c, M, g = self.c_inf(), self.par["mach"], self.g
        n = np.array(direction) / np.linalg.norm(direction)
        q = 0.5 * (M * c)**2
        return {"rho": 1.0, "c": c, "T": c * c / (g - 1), "p": c * c / g, "u": vector(*(M * c * n)), "rho_Ei": c * c / g / (g - 1), "rho_Ek": q,
                "rho_E": c * c / g / (g - 1) + q}


# name of the equation: sets of quantities it is documented for, result
EQUATIONS = {
    "density": (("p", "T"), ("p", "c"), ("rho_Ei", "T"), ("rho",)), "velocity": (("rho", "rho_u"), ("u",)), "momentum": (("rho", "u"), ("rho_u",)),
    "pressure": (("rho", "T"), ("rho_Ei",), ("rho", "c"), ("p",)), "temperature": (("p", "rho"), ("Ei",), ("c",), ("T",)),
    "inner_energy": (("p",), ("rho", "T"), ("rho_E", "rho_Ek"), ("rho_Ei",)), "specific_inner_energy": (("T",), ("rho", "p"), ("rho", "rho_Ei"), ("E", "Ek"), ("Ei",)),
    "kinetic_energy": (("rho", "u"), ("rho", "rho_u"), ("rho_E", "rho_Ei"), ("rho", "Ek"), ("rho_Ek",)),
    "specific_kinetic_energy": (("u",), ("rho", "rho_u"), ("rho", "rho_Ek"), ("E", "Ei"), ("Ek",)),
    "energy": (("rho", "E"), ("rho_Ei", "rho_Ek"), ("p", "rho", "u"), ("rho", "T", "rho_u"), ("rho_E",)), "specific_energy": (("rho", "rho_E"), ("Ei", "Ek"), ("E",)),
    "enthalpy": (("rho_E", "p"), ("rho", "H"), ("rho_H",)), "specific_enthalpy": (("rho", "rho_H"), ("rho", "E", "p"), ("H",)),
    "speed_of_sound": (("rho", "p"), ("T",), ("Ei",), ("c",))}
GRADIENTS = {
    "density_gradient": (("p", "T", "grad_p", "grad_T"), ("T", "rho_Ei", "grad_T", "grad_rho_Ei"), ("grad_rho",)),
    "velocity_gradient": (("rho", "rho_u", "grad_rho", "grad_rho_u"), ("grad_u",)), "momentum_gradient": (("rho", "u", "grad_rho", "grad_u"), ("grad_rho_u",)),
    "pressure_gradient": (("rho", "T", "grad_rho", "grad_T"), ("grad_rho_Ei",), ("grad_p",)),
    "temperature_gradient": (("rho", "p", "grad_p", "grad_rho"), ("grad_Ei",), ("grad_T",)), "energy_gradient": (("grad_rho_Ei", "grad_rho_Ek"), ("grad_rho_E",)),
    "specific_energy_gradient": (("grad_Ei", "grad_Ek"), ("grad_E",)), "inner_energy_gradient": (("grad_rho_E", "grad_rho_Ek"), ("grad_rho_Ei",)),
    "specific_inner_energy_gradient": (("grad_E", "grad_Ek"), ("grad_Ei",)),
    "kinetic_energy_gradient": (("grad_rho_E", "grad_rho_Ei"), ("rho", "u", "grad_rho", "grad_u"), ("rho", "rho_u", "grad_rho", "grad_rho_u"), ("grad_rho_Ek",)),
    "specific_kinetic_energy_gradient": (("grad_E", "grad_Ei"), ("u", "grad_u"), ("rho", "rho_u", "grad_rho", "grad_rho_u"), ("grad_Ek",)),
    "enthalpy_gradient": (("grad_rho_E", "grad_p"), ("grad_rho_H",))}
SYMBOLS = {"density": "rho", "velocity": "u", "momentum": "rho_u", "pressure": "p", "temperature": "T", "inner_energy": "rho_Ei", "specific_inner_energy": "Ei",
           "kinetic_energy": "rho_Ek", "specific_kinetic_energy": "Ek", "energy": "rho_E", "specific_energy": "E", "enthalpy": "rho_H", "specific_enthalpy": "H",
           "speed_of_sound": "c"}
LONG = {v: k for k, v in SYMBOLS.items()} | {"grad_" + v: k + "_gradient" for k, v in SYMBOLS.items()} | {"eps": "strain_rate_tensor"}
OFFERED = ("rho", "u", "rho_u", "p", "T", "c", "rho_E", "rho_Ek", "rho_Ei", "grad_rho", "grad_u", "grad_rho_u", "grad_rho_E", "grad_rho_Ek", "grad_rho_Ei", "grad_p", "grad_T", "eps")
NOT_OFFERED = ("E", "H", "vorticity")


class Reading:
    """One reading of everything, with the choices of this seed"""

    def __init__(self, w, cfg, own, points, rng, what):
        self.w, self.cfg, self.own, self.points, self.rng, self.what = w, cfg, own, points, rng, what
        self.strict = False

    @staticmethod
    def of_inner_energy(U):
        return U.Ei is not None and U.c is None and U.T is None and (U.rho is None or U.p is None)

    def at(self, cf):
        if not isinstance(cf, ngs.CF):
            cf = ngs.CF(cf)
        return np.array(cf(self.points)).reshape(len(self.points), -1)

    def equal(self, kind, got, want, about):
        a, b = self.at(got), self.at(want)
        size = max(float(np.abs(b).max()), 1e-3)
        self.w.probe("readings")
        require(a.shape == b.shape, kind, lambda: f"{self.what}: {about} has {a.shape[1]} components, not {b.shape[1]}")
        off = np.abs(a - b)
        require((off <= 1e-9 * size).all(), kind, lambda: f"{self.what}: {about} is off by {off.max():.3e} of {size:.3e}")

    def fields(self, names):
        from dream.compressible import flowfields
        out = flowfields()
        names = list(names)
        self.rng.shuffle(names)
        for x in names:
            out[self.rng.choice((x, LONG[x]))] = self.own.d[x]
        return out

    def asked(self, known):
        """Fields asked for by symbol or by name, wanted or not"""
        default = ["rho", "u", "p", "T"]
        chosen = self.rng.sample(known, self.rng.randint(0, 6))
        ask = {}
        for x in chosen:
            if x in default:
                ask[x] = self.rng.random() < 0.6
            else:
                ask[self.rng.choice((x, LONG[x]))] = self.rng.random() < 0.85
        for x in self.rng.sample(NOT_OFFERED, self.rng.choice((0, 0, 1))):
            ask[x] = True
        off = {x for x in default if ask.get(x) is False}
        want = ({x for x in default} - off) | {x for x in known if ask.get(x) or ask.get(LONG[x])}
        got = self.cfg.get_fields(**ask)
        require(set(got) == {LONG[x] for x in want}, "fields", lambda: f"{self.what}: asked for {ask}, got {list(got)}")
        for x in want:
            self.offered(got, x, "fields", f"{x} of get_fields({ask})")
        return {x: got[LONG[x]] for x in want}

    def offered(self, got, x, kind, about):
        want = self.own.mixed.get(x) if hasattr(self.own, "mixed") and x in self.own.mixed else self.own.d[x]
        self.equal(kind, got[LONG[x]], want, about)

    def equations(self, n):
        cfg, rng = self.cfg, self.rng
        for _ in range(n):
            name = "speed_of_sound" if self.strict else rng.choice(list(EQUATIONS))
            given = ("Ei",) if self.strict else rng.choice(EQUATIONS[name])
            more = rng.sample(list(SYMBOLS.values()), rng.choice((0, 0, 0, 2, 5)))
            U = self.fields(set(given) | set(more))
            want = self.own.d[SYMBOLS[name]]
            if name == "speed_of_sound" and self.of_inner_energy(U):
                # known finding: gamma divides where it should multiply
                got, g = getattr(cfg, name)(U), self.own.g
                wrong = ngs.sqrt((g - 1) * self.own.d["Ei"] / g)
                if not self.strict and np.allclose(self.at(got), self.at(wrong), rtol=1e-9):
                    self.w.probe("known finding")
                    continue
                self.equal("speed-of-sound-of-inner-energy", got, want, f"{name} of {sorted(U)}")
                continue
            self.equal("equation", getattr(cfg, name)(U), want, f"{name} of {sorted(U)}")
        for _ in range(n // 2):
            name = rng.choice(list(GRADIENTS))
            given = rng.choice(GRADIENTS[name])
            more = rng.sample([x for x in self.own.d if x != "grad_H"], rng.choice((0, 0, 0, 3, 8)))
            names = set(given) | set(more)
            U, dU = self.fields(x for x in names if not x.startswith("grad_")), self.fields(x for x in names if x.startswith("grad_"))
            self.equal("equation", getattr(cfg, name)(U, dU), self.own.d["grad_" + SYMBOLS[name[:-9]]], f"{name} of {sorted(U)}, {sorted(dU)}")

    def fluxes(self):
        cfg, own, rng = self.cfg, self.own, self.rng
        S = own.S
        everything = self.fields(list(SYMBOLS.values()))
        x, y = S.flux((1.0, 0.0)), S.flux((0.0, 1.0))
        self.equal("flux", cfg.get_convective_flux(everything), matrix([[a, b] for a, b in zip(x, y)]), "the convective flux")
        speed = ngs.sqrt(S.u[0] * S.u[0] + S.u[1] * S.u[1])
        self.equal("number", cfg.get_local_mach_number(everything), speed / S.c, "the local Mach number")
        if hasattr(own, "mixed"):
            mu = own.viscosity()
            Q = own.mixed
            dU = cfg.get_fields(eps=True, grad_T=True)
            tau = 2 * mu / own.Re() * Q["eps"]
            q = -mu / own.Re() / own.par["prandtl"] * Q["grad_T"]
            u = vector(*S.u)
            power = tau * u - q
            self.equal("viscosity", cfg.viscosity(everything), mu, "the viscosity")
            self.equal("flux", cfg.deviatoric_stress_tensor(everything, dU), tau, "the stress")
            self.equal("flux", cfg.heat_flux(everything, dU), q, "the heat flux")
            self.equal("flux", cfg.get_diffusive_flux(everything, dU), matrix([[0 * u[0], 0 * u[0]], [tau[0, 0], tau[0, 1]], [tau[1, 0], tau[1, 1]], [power[0], power[1]]]),
                       "the diffusive flux")
            self.equal("flux", cfg.stress_tensor(everything, dU), matrix([[tau[0, 0] - S.p, tau[0, 1]], [tau[1, 0], tau[1, 1] - S.p]]), "the stress tensor")
            self.equal("number", cfg.get_local_reynolds_number(everything), S.rho * speed / mu, "the local Reynolds number")
        else:
            self.equal("flux", cfg.stress_tensor(everything), matrix([[-S.p, 0 * S.p], [0 * S.p, -S.p]]), "the stress tensor")
        self.equal("equation", cfg.strain_rate_tensor(self.fields(["grad_u"])), own.strain, "the strain rate")

    def matrices(self):
        cfg, S, rng = self.cfg, self.own.S, self.rng
        everything = self.fields(list(SYMBOLS.values()))
        a = rng.uniform(-3.2, 3.2)
        n = (float(np.cos(a)), float(np.sin(a)))
        t = (n[1], -n[0])
        un, c, rho, g = hdg.dot(S.u, n), S.c, S.rho, self.own.g
        self.equal("jacobian", cfg.conservative_convective_jacobian_x(everything), matrix(S.jacobian((1.0, 0.0))), "the Jacobian in x")
        self.equal("jacobian", cfg.conservative_convective_jacobian_y(everything), matrix(S.jacobian((0.0, 1.0))), "the Jacobian in y")
        zero = 0 * rho
        for k, (name, d) in enumerate((("x", (1.0, 0.0)), ("y", (0.0, 1.0)))):
            ud = S.u[k]
            want = [[ud, rho * d[0], rho * d[1], zero], [zero, ud, zero, d[0] / rho], [zero, zero, ud, d[1] / rho], [zero, rho * c * c * d[0], rho * c * c * d[1], ud]]
            self.equal("jacobian", getattr(cfg, f"primitive_convective_jacobian_{name}")(everything), matrix(want), f"the primitive Jacobian in {name}")
        # dU/dV and back, V = (rho, u, p)
        q = hdg.dot(S.u, S.u) / 2
        one = zero + 1
        M = matrix([[one, zero, zero, zero], [S.u[0], rho, zero, zero], [S.u[1], zero, rho, zero], [q, rho * S.u[0], rho * S.u[1], one / (g - 1)]])
        Mi = matrix([[one, zero, zero, zero], [-S.u[0] / rho, 1 / rho, zero, zero], [-S.u[1] / rho, zero, 1 / rho, zero],
                     [(g - 1) * q, -(g - 1) * S.u[0], -(g - 1) * S.u[1], one * (g - 1)]])
        # dW/dV and back, W = (p - rho c un, c^2 rho - p, u t, p + rho c un)
        k, k2 = rho * c, 1 / (c * c)
        L = matrix([[zero, -k * n[0], -k * n[1], one], [c * c, zero, zero, -one], [zero, t[0] * one, t[1] * one, zero], [zero, k * n[0], k * n[1], one]])
        Li = matrix([[k2 / 2, k2, zero, k2 / 2], [-n[0] / (2 * k), zero, t[0] * one, n[0] / (2 * k)], [-n[1] / (2 * k), zero, t[1] * one, n[1] / (2 * k)], [one / 2, zero, zero, one / 2]])
        self.equal("transform", cfg.conservative_from_primitive(everything), M, "conservative from primitive")
        self.equal("transform", cfg.primitive_from_conservative(everything), Mi, "primitive from conservative")
        self.equal("transform", cfg.characteristic_from_primitive(everything, n), L, "characteristic from primitive")
        self.equal("transform", cfg.primitive_from_characteristic(everything, n), Li, "primitive from characteristic")
        self.equal("transform", cfg.characteristic_from_conservative(everything, n), L * Mi, "characteristic from conservative")
        self.equal("transform", cfg.conservative_from_characteristic(everything, n), M * Li, "conservative from characteristic")
        for kind, f in ((None, lambda x: x), ("absolute", lambda x: ngs.IfPos(x, x, -x)), ("incoming", lambda x: ngs.IfPos(x, 0, x)), ("outgoing", hdg.pos)):
            A = matrix(S.function(n, f))
            self.equal("jacobian", cfg.get_conservative_convective_jacobian(everything, n, kind), A, f"the {kind} Jacobian")
            self.equal("jacobian", cfg.get_primitive_convective_jacobian(everything, n, kind), Mi * A * M, f"the primitive {kind} Jacobian")
            self.equal("velocities", cfg.characteristic_velocities(everything, n, kind), vector(f(un - c), f(un), f(un), f(un + c)), f"the {kind} velocities")
            dV = vector(hdg.dot(self.own.dr, n), hdg.dot(self.own.du[0], n), hdg.dot(self.own.du[1], n), hdg.dot(self.own.dp, n))
            dU = self.fields(["grad_rho", "grad_p", "grad_u"])
            W = L * dV
            self.equal("characteristics", cfg.characteristic_variables(everything, dU, n), W, "the characteristic variables")
            lam = (f(un - c), f(un), f(un), f(un + c))
            self.equal("characteristics", cfg.characteristic_amplitudes(everything, dU, n, kind), vector(*(lam[i] * W[i] for i in range(4))), f"the {kind} amplitudes")
            if kind in ("incoming", "outgoing"):
                sign = (lambda x: ngs.IfPos(-x, 1, 0)) if kind == "incoming" else (lambda x: ngs.IfPos(x, 1, 0))
                one_ = matrix(S.function(n, sign))
                self.equal("identity", cfg.get_conservative_convective_identity(everything, n, kind), one_, f"the {kind} identity")
                self.equal("identity", cfg.get_primitive_convective_identity(everything, n, kind), Mi * one_ * M, f"the primitive {kind} identity")

    def surroundings(self, kept):
        """Far field, coefficients, reference values"""
        cfg, own, S, rng = self.cfg, self.own, self.own.S, self.rng
        far = own.far(kept["dir"])
        for about, inf in (("kept", kept["inf"]), ("new", cfg.get_farfield_state(kept["dir"]))):
            require(set(inf) == {LONG[x] for x in far}, "far-field", lambda: f"{self.what}: {about} far field has {list(inf)}")
            for x, want in far.items():
                self.equal("far-field", inf[LONG[x]], want, f"{x} of the {about} far field")
        U = cfg.get_fields()
        self.equal("coefficient", cfg.pressure_coefficient(U, kept["inf"]), (S.p - far["p"]) / far["rho_Ek"], "the pressure coefficient")
        self.equal("equation", cfg.isentropic_density(self.fields(["p"]), kept["inf"]), (S.p / far["p"])**(1 / own.g), "the isentropic density from the pressure")
        self.equal("equation", cfg.isentropic_density(self.fields(["T"]), kept["inf"]), (S.T / far["T"])**(1 / (own.g - 1)), "the isentropic density from the temperature")
        r, k, p, T = (rng.uniform(0.5, 2) for _ in range(4))
        from dream.compressible import flowfields
        other = flowfields(rho=r, rho_Ek=k, p=p, T=T)
        self.equal("coefficient", cfg.pressure_coefficient(U, other), (S.p - p) / k, "the pressure coefficient of another reference")
        self.equal("equation", cfg.isentropic_density(self.fields(["p"]), other), r * (S.p / p)**(1 / own.g), "the isentropic density of another reference from the pressure")
        self.equal("equation", cfg.isentropic_density(self.fields(["T"]), other), r * (S.T / T)**(1 / (own.g - 1)), "the isentropic density of another reference from the temperature")
        ref = {"rho": 1.293, "u": 1, "c": 343, "T": 293.15, "p": 101325, **own.par["values"]}
        full = self.fields(["rho", "u", "p", "T", "c", "E"])
        dim = cfg.get_dimensionful_state(full)
        require(set(dim) == {LONG[x] for x in ref if x != "L" and LONG[x] in full}, "dimensions", lambda: f"{self.what}: dimensionful {list(dim)}")
        for x in dim:
            self.equal("dimensions", dim[x], ref[SYMBOLS[x]] * own.d[SYMBOLS[x]], f"dimensionful {x}")

    def forces(self, kept):
        cfg, own, S, rng = self.cfg, self.own, self.own.S, self.rng
        far = own.far(kept["dir"])
        side = cfg.mesh.Boundaries(rng.choice(("left", "top", "right|bottom")))
        a = rng.uniform(-3, 3)
        d = (2 * float(np.cos(a)), 2 * float(np.sin(a)))
        n = ngs.specialcf.normal(2)
        want = -S.p * (n[0] * d[0] + n[1] * d[1]) / 2 / far["rho_Ek"]
        dU = None
        if hasattr(own, "mixed"):
            tau = 2 * own.viscosity() / own.Re() * own.mixed["eps"]
            want += hdg.dot([tau[i, 0] * n[0] + tau[i, 1] * n[1] for i in range(2)], d) / 2 / far["rho_Ek"]
            dU = cfg.get_fields(eps=True)
        U = cfg.get_fields(c=True)
        from dream.compressible import flowfields
        k = rng.uniform(0.5, 2)
        for name in ("drag_coefficient", "lift_coefficient"):
            got, own_, size = (ngs.Integrate(ngs.BoundaryFromVolumeCF(f), cfg.mesh, definedon=side)
                               for f in (getattr(cfg, name)(U, dU, kept["inf"], d), want, ngs.sqrt(S.p * S.p) / far["rho_Ek"]))
            if not np.isfinite(own_):
                # the fluid is freezing at this side
                self.w.probe("no coefficient")
                continue
            require(abs(got - own_) <= 1e-9 * size, "coefficient", lambda: f"{self.what}: {name} is {got}, not {own_}")
            got = ngs.Integrate(ngs.BoundaryFromVolumeCF(getattr(cfg, name)(U, dU, flowfields(rho_Ek=k), d)), cfg.mesh, definedon=side) * k / far["rho_Ek"]
            require(abs(got - own_) <= 1e-9 * size, "coefficient", lambda: f"{self.what}: {name} of another reference is {got}, not {own_}")


def run(w, s):
    legal(len(s["views"]) == 1 and all(len(c) == 3 and c[1] in CHANGES and 0.3 <= c[2] <= 2 for c in s["changes"]))
    flows.check(s)
    v = s["views"][0]
    par = {"scaling": v["scaling"], "mach": s["mach"], "gamma": s["gamma"], "reynolds": s["reynolds"], "prandtl": s["prandtl"], "mu": s["mu"],
           "S": s["ref"][1], "T": s["ref"][0] if s["viscous"] and s["mu"] == "sutherland" else 293.15,
           "values": {"T": s["ref"][0]} if s["viscous"] and s["mu"] == "sutherland" else {}}
    rng = random.Random(s["ask"])
    kept = {}
    direction = tuple(float(x) for x in flows.rotation(v) @ np.array(s["dir"]))
    past = ["nothing"]

    def begin(cfg):
        """Quantities that are read again and again"""
        known = [x for x in OFFERED if x != "eps" or s["viscous"]]
        kept.update(fes=cfg.fes, dir=direction, inf=cfg.get_farfield_state(direction), fields=cfg.get_fields(**dict.fromkeys(known, True)), known=known)
        rule = ngs.IntegrationRule([(0.2, 0.3), (0.55, 0.15), (0.1, 0.75)], [1.0, 1.0, 1.0])
        kept["points"] = cfg.mesh.MapToAllElements(rule, ngs.VOL)

    def judge(k, cfg):
        if kept.get("fes") is not cfg.fes:
            begin(cfg)
        x = np.nan_to_num(model.vec(cfg.gfu))
        if k == 0:
            kept["first"] = np.abs(x).max()
        if np.abs(x).max() > 50 * kept["first"]:
            return False
        for at, what, factor in s["changes"]:
            if at == k:
                change(cfg, s, par, what, factor)
                past.append(what)
                w.note("changed", what)
                w.probe("nontrivial")
        own = Own(cfg, dict(par))
        r = Reading(w, cfg, own, kept["points"], rng, f"step {k} of {s['n']} after {past}")
        r.strict = s.get("strict", False)
        if min(r.at(own.S.rho).min(), r.at(own.S.p).min()) <= 1e-3:
            return False
        for name in kept["known"]:
            r.offered(kept["fields"], name, "kept", f"{name}, asked for in the beginning,")
        r.asked(kept["known"])
        r.equations(8)
        r.fluxes()
        r.surroundings(kept)
        r.forces(kept)
        if rng.random() < 0.5:
            r.matrices()
        past.append(f"step {k}")
        return True

    try:
        follow(w, s, v, s["cuts"], judge)
    except Exception as e:
        # Newton's method ran away
        if not broken(e):
            raise
        w.probe("broke down")
    finally:
        mesh_of(s).UnsetDeformation()
    w.state(s["sides"], s["order"], s["viscous"], v["scaling"], [c[1] for c in s["changes"]], len(s["cuts"]))


def change(cfg, s, par, what, factor):
    if what == "ref":
        # only some of the reference values
        values = {"p": 1e5 * factor} if factor < 1 else {"T": 300 * factor, "c": 340 * factor}
        cfg.scaling.dimensionful_values = values
        par["values"] = values
        par["T"] = values.get("T", 293.15)
        return
    if what in ("reynolds", "prandtl") and not s["viscous"]:
        return
    value = par[what] * factor if what != "gamma" else 1 + (par["gamma"] - 1) * factor
    par[what] = value
    if what == "mach":
        cfg.mach_number = value
    elif what == "gamma":
        cfg.equation_of_state.heat_capacity_ratio = value
    elif what == "reynolds":
        cfg.reynolds_number = value
    else:
        cfg.prandtl_number = value
