"""The reference beside a running model solver: the iterates and the time levels it has to have, in numpy."""
from __future__ import annotations

import numpy as np

from . import model


class Shadow:

    def __init__(self, cfg):
        self.cfg = cfg
        self.ref = model.OdeReference(cfg)
        self.ne = cfg.mesh.ne
        self.sync()

    def sync(self):
        """Take over the state of the solver"""
        x = model.vec(self.cfg.gfu)
        self.u, self.w = x[:self.ne], x[self.ne:]
        levels = model.levels(self.cfg)
        self.un = levels["n"]
        self.unm = levels["n-1"] if "n-1" in levels else self.un
        self.bdf2 = "n-1" in levels

    def initial(self):
        self.u, self.w = self.ref.u0.copy(), self.ref.p["g"] * self.ref.u0
        self.un = self.unm = self.old()
        self.bdf2 = "n-1" in self.cfg.time.scheme.time_levels

    @property
    def x(self):
        return np.concatenate([self.u, self.w])

    def solve(self, dt, t, it_max, crit, damping, poison_at=(), stop=None):
        """The Newton iteration from here on; stop: number of updates after which it is cut short.  Returns the errors"""
        n = it_max if stop is None else min(stop, it_max)
        self.u, self.w, errors = self.ref.newton(self.u, self.w, self.un, self.unm, dt, t, self.bdf2, n, crit, damping,
                                                 poison_at if isinstance(poison_at, dict) else set(poison_at))
        return errors

    def shift(self):
        if self.bdf2:
            self.unm = self.un.copy()
        self.un = self.old()

    def old(self):
        """What a time level takes over of the state"""
        return self.x if self.ref.joint else self.u.copy()

    def differences(self):
        """Names and sizes of what differs between solver and reference"""
        x = model.vec(self.cfg.gfu)
        levels = model.levels(self.cfg)
        pairs = {"state": (x, self.x), "level n": (levels["n"], self.un)}
        if "n-1" in levels:
            pairs["level n-1"] = (levels["n-1"], self.unm)
        out = {}
        for name, (a, b) in pairs.items():
            with np.errstate(all="ignore"):
                d = np.abs(a - b) / (1 + np.abs(b))
            out[name] = float("inf") if np.isnan(d).any() else float(d.max())
        return out
