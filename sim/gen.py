"""Random parts of scenarios.  Everything drawn here is plain JSON."""
from __future__ import annotations

from decimal import Decimal


def dec(x: Decimal) -> str:
    x = x.normalize()
    return format(x, "f")


def grid(rng, nmax=8, nmin=1, digits=4, simple=False, long=0.03):
    """A time grid: start, step and number of steps as exact decimals; with the given probability it is a long one"""
    g = _grid(rng, nmax, nmin, digits, simple)
    if rng.random() < long:
        g["n"] = rng.choice((11, 12, 17, 21, 33, 51, 65, 101, 130))
    return g


def _grid(rng, nmax, nmin, digits, simple):
    if not simple and rng.random() < 0.15:
        # many digits
        d = rng.randint(3, digits + 5)
        step = Decimal(rng.randint(10**5, 10**7 - 1)).scaleb(-d)
        start = Decimal(rng.choice((0, rng.randint(1, 10**6), rng.randint(1, 10**6) * 10**rng.randint(0, 3)))).scaleb(-rng.randint(0, d))
        if (start + 200 * step).scaleb(max(d, -start.as_tuple().exponent)) < 10**13:
            return {"start": dec(start), "step": dec(step), "n": rng.randint(nmin, nmax)}
    d = rng.choice((1, 1, 1, 2, 2, 3)) if simple else rng.randint(0, digits)
    step = Decimal(rng.choice((1, 1, 1, 2, 25, 5, 3, 7, 125, 15, rng.randint(1, 99)))).scaleb(-d)
    if simple:
        step = Decimal(rng.choice((1, 1, 2, 5, 25))).scaleb(-d)
    kind = rng.random()
    if kind < 0.4:
        start = Decimal(0)
    elif kind < 0.7:
        start = step * rng.randint(1, 30)
    else:
        e = rng.randint(0, 2 if simple else digits + 1)
        start = Decimal(rng.randint(1, 999)).scaleb(-e)
    return {"start": dec(start), "step": dec(step), "n": rng.randint(nmin, nmax)}


def values(rng, n, lo=-2.0, hi=2.0):
    return [round(rng.uniform(lo, hi), 3) or 0.5 for _ in range(n)]


def par(rng, nonlinear=True, timedep=True):
    return {"lam": rng.choice((0.5, 1.0, 2.0, 3.7)), "mu": rng.choice((0.0, 0.3, 1.0)) if nonlinear else 0.0,
            "c": rng.choice((0.0, 0.5, 1.3)), "g": rng.choice((0.5, -0.4, 1.0)),
            "a": rng.choice((0.0, 0.7)) if timedep else 0.0}


def compiling(rng):
    return None if rng.random() < 0.85 else [rng.random() < 0.5, rng.random() < 0.5]


def system(rng, nonlinear=True, timedep=True):
    """A model solver: which mesh, which equations, which scheme"""
    return {"mesh": rng.choice(("square", "square", "square", "layers", "layers", "cube")), "scheme": rng.choice(("implicit_euler", "bdf2")),
            "u0": values(rng, 4), "src": values(rng, 4), "par": par(rng, nonlinear, timedep), "rhs": rng.choice(("blf", "lf")), "compile": compiling(rng), "joint": rng.choice((None, None, None, None, None, None, "component", "component", "variable", "variable"))}


NEWTON = {"max_iterations": 12, "convergence_criterion": 1e-13}


def file_fault(rng, nops, kinds=("crash", "interrupt", "enospc", "eio")):
    return {"op": rng.randint(1, max(1, nops)), "kind": rng.choice(kinds),
            "frac": rng.choice((0.0, 0.0, 0.25, 0.5, 0.9, 1.0))}
