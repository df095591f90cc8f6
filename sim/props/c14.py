"""C14: several solvers in one process do not disturb each other, however their steps are interleaved."""
import gc
import os

import ngsolve as ngs

from dream.config import ngsdict, UniqueConfiguration
from dream.mesh import Condition
from dream.compressible import CompressibleFlowSolver, Initial

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal

QUICK = 1400
THOROUGH = 32000
RULE = ("two or three solvers (same or different mesh object, equations, scheme, Newton settings, time grid, outputs; 1 run in 14 with a flow "
        "solver) first run alone, and then under a seeded interleaving: step by step in a seeded order, and nested inside each other at "
        "seeded points within residual evaluation, linearisation, factorisation and file output; some are reconfigured, fail, are left or deleted in "
        "between; trajectories, configurations and output files must be the same to the bit; non-trivial: a solver ran nested inside another one")
MEASURE = "distinct (solvers, mesh sharing, who ran inside whom at which kind of point, endings) situations"
REAL = "everything but the weak form of the model solver (in 13 of 14 runs)"
STUB = "weak form of the model solver; the interleaving is decided by the simulator at the seams, all in one thread"
ASSUMPTIONS = ["solvers that write have their own output folder", "logging is process-wide by design and not compared"]


def gen(rng, tier, i):
    solvers = []
    flow = rng.random() < 0.07
    mesh = rng.choice(("square", "layers", "square" if flow else "cube"))
    for k in range(rng.randint(2, 3)):
        g = G.grid(rng, nmax=4, nmin=2, simple=True)
        sys = G.system(rng)
        if rng.random() < 0.7 or flow:
            sys["mesh"] = mesh
        if flow and k == 0:
            sys = runs.flow_system(rng)
            g.update(step=rng.choice(("0.1", "0.05")), start="0", n=2)
        streams = [x for x in ("gfu", "sensor", "vtk") if rng.random() < 0.45]
        solvers.append({"sys": sys, "grid": g, "streams": streams, "rate": rng.choice((1, 1, 2)), "it": rng.choice((12, 12, 2, 1)),
                        "damping": rng.choice((1.0, 1.0, 0.8)),
                        "leave": [rng.randint(0, g["n"] - 1), rng.choice(("close", "abort", "drop", "delete"))] if rng.random() < 0.2 else None,
                        "fail": [rng.randint(0, g["n"] - 1), rng.randint(0, 1)] if rng.random() < 0.12 else None})
    return {"solvers": solvers, "idle_mesh": rng.choice(("square", "layers")), "order": [rng.randint(0, 2) for _ in range(16)],
            "nest": [[rng.randint(0, 60), rng.randint(0, 2)] for _ in range(rng.randint(0, 8))], "late": rng.random() < 0.3,
            "touch": [[rng.randint(0, 12), rng.randint(0, 2), rng.choice(("crit", "new", "rates", "gc"))] for _ in range(rng.randint(0, 3))],
            "idle": [[rng.randint(0, 2), rng.choice(sorted(IDLE)), rng.randint(0, 9)] for _ in range(rng.randint(3, 10))] if rng.random() < 0.3 else []}


def _dimensional(cfg, v):
    cfg.scaling.dimensionful_values = {("T", "L", "rho", "p", "c", "u")[v % 6]: 100.0 + v}


def _condition(cfg, v):
    inf = cfg.get_farfield_state((1, 0.1 * v))
    cfg.bcs["left|right"] = "farfield" if v % 2 else "outflow"
    cfg.bcs["left"][-1].fields = inf
    cfg.dcs["|".join(cfg.mesh.GetMaterials())] = Initial(fields=inf)


def _sensor(cfg, v):
    cfg.io.sensor = True
    cfg.io.sensor.point = f"p{v}"
    cfg.io.sensor.point[f"p{v}"].rate = v + 1


IDLE = {
    "mach": lambda cfg, v: setattr(cfg, "mach_number", 0.1 + 0.05 * v),
    "reynolds": lambda cfg, v: setattr(cfg, "reynolds_number", 10.0 + v),
    "prandtl": lambda cfg, v: setattr(cfg, "prandtl_number", 0.5 + 0.1 * v),
    "gamma": lambda cfg, v: cfg.update({"equation_of_state.heat_capacity_ratio": 1.2 + 0.1 * v}),
    "scaling": lambda cfg, v: setattr(cfg, "scaling", ("acoustic", "aerodynamic", "aeroacoustic")[v % 3]),
    "dimensional": _dimensional, "condition": _condition, "sensor": _sensor,
    "riemann": lambda cfg, v: setattr(cfg, "riemann_solver", ("roe", "hll", "hllem", "upwind", "lax_friedrich")[v % 5]),
    "viscosity": lambda cfg, v: setattr(cfg, "dynamic_viscosity", ("inviscid", "constant", "sutherland")[v % 3]),
    "order": lambda cfg, v: cfg.update({"fem": {"order": v % 4}}),
    "mixed": lambda cfg, v: setattr(cfg.fem, "mixed_method", ("inactive", "strain_heat")[v % 2]),
    "time": lambda cfg, v: setattr(cfg, "time", ("transient", "pseudo", "stationary")[v % 3]),
    "step": lambda cfg, v: cfg.time.is_stationary or setattr(cfg.time.timer, "step", 0.01 * (v + 1)),
    "newton": lambda cfg, v: cfg.update({"nonlinear_solver": {"max_iterations": v + 1, "convergence_criterion": 10.0**-v}}),
    "damping": lambda cfg, v: setattr(cfg.nonlinear_solver.method, "damping_factor", 0.1 * (v + 1)),
    "bonus": lambda cfg, v: setattr(cfg.optimizations.bonus_int_order, "bnd", v),
    "folders": lambda cfg, v: setattr(cfg.io.folders, ("root", "states", "vtk")[v % 3], f"f{v}"),
    "stream": lambda cfg, v: setattr(cfg.io, ("gfu", "vtk", "settings")[v % 3], v < 6),
    "info": lambda cfg, v: cfg.info.update({f"key{v}": v}),
    "clear": lambda cfg, v: (cfg.bcs.clear(), cfg.dcs.clear()),
    "new": None}


def known(cfg):
    """All settings and conditions of a solver, by value"""
    at = cfg.mesh(0.01, 0.02)

    def value(x):
        if isinstance(x, ngsdict):
            return {k: value(v) for k, v in x.items()}
        if isinstance(x, ngs.CF):
            return x(at)
        if isinstance(x, Condition):
            return type(x).__name__, {k: value(v) for k, v in x.data.items()}
        if isinstance(x, UniqueConfiguration):
            return x.name, {k: value(v) for k, v in x.data.items()}
        if isinstance(x, ngs.Parameter):
            return x.Get()
        if isinstance(x, dict):
            return {k: value(v) for k, v in x.items()}
        return repr(x)
    out = {k: value(v) for k, v in cfg.data.items()}
    out["io"][1].pop("log", None)       # process-wide
    for x in ("bcs", "dcs"):
        out[x] = {r: [value(c) for c in conditions] for r, conditions in getattr(cfg, x).items()}
    out["far field"] = value(cfg.get_farfield_state((1, 0.3)))
    return out


def idle(w, acts, name):
    """Settings of solvers that do not run: what is done to one of them is seen in that one"""
    mesh = runs.mesh_of(name)

    def new():
        cfg = CompressibleFlowSolver(mesh)
        cfg.io.log.to_terminal = False
        cfg.mach_number = 0.3
        return cfg
    cfgs = [new() for _ in range(3)]
    have = [known(c) for c in cfgs]
    first = have[0]
    for x in have:
        require(x == first, "idle-default", lambda: f"a new solver is not as the first one was: {changed(first, x)}")
    for k, (who, act, v) in enumerate(acts):
        what = f"{act}({v}) on solver {who}, after {acts[:k]}"
        if act == "new":
            cfgs[who] = None
            gc.collect()
            cfgs[who] = new()
            require(known(cfgs[who]) == first, "idle-default", lambda: f"{what}: a new solver is not as the first one was: {changed(first, known(cfgs[who]))}")
        else:
            try:
                IDLE[act](cfgs[who], v)
            except (ValueError, TypeError, KeyError) as e:
                w.note("refused", act, type(e).__name__)
        now = [known(c) for c in cfgs]
        for i in range(3):
            require(i == who or now[i] == have[i], "idle-shared", lambda: f"{what}: solver {i} has changed: {changed(have[i], now[i])}")
        have = now
    w.probe("idle solvers", 3)
    w.state("idle", tuple((a[0], a[1]) for a in acts[:4]))


def changed(a, b):
    return {k: (a.get(k), b.get(k)) for k in a if a.get(k) != b.get(k)}


class Proc:
    """One solver and its loop"""

    def __init__(self, w, k, spec, root):
        self.w, self.k, self.spec = w, k, spec
        self.busy, self.done = False, False
        self.labels, self.states = [], []
        self.count = [0, 0]
        self.outcome = None
        s = spec
        self.root = os.path.join(w.root, root)
        os.makedirs(self.root, exist_ok=True)
        self.cfg = cfg = runs.make(s["sys"], s["grid"], root=self.root)
        cfg.nonlinear_solver.max_iterations = s["it"]
        cfg.nonlinear_solver.method.damping_factor = s["damping"]
        field = {"U": model.field(cfg)}
        for name in s["streams"]:
            setattr(cfg.io, name, True)
        if "gfu" in s["streams"]:
            cfg.io.gfu.rate, cfg.io.gfu.time_level_rate = s["rate"], 1
        if "vtk" in s["streams"]:
            cfg.io.vtk.fields, cfg.io.vtk.subdivision, cfg.io.vtk.rate = field, 0, s["rate"]
        if "sensor" in s["streams"]:
            cfg.io.sensor.domain = "d"
            cfg.io.sensor.domain["d"].fields = field
            cfg.io.sensor.point = "p"
            cfg.io.sensor.point["p"].fields, cfg.io.sensor.point["p"].points = field, ((0.11, 0.07),)
        self.tree = tree(cfg)
        self.loop = cfg.time.start_solution_routine()

    def advance(self):
        """One step of the loop"""
        self.busy = True
        leave = self.spec["leave"]
        try:
            t = next(self.loop)
            self.labels.append(t)
            self.states.append(model.vec(self.cfg.gfu))
            self.count[:] = [len(self.labels), 0]
            if leave and len(self.labels) - 1 == leave[0]:
                self.end(leave[1])
        except StopIteration:
            self.end("done")
        except core.SimAbort:
            self.end("failed")
        finally:
            self.busy = False

    def end(self, how):
        self.done, self.outcome = True, how
        if how == "abort":
            try:
                self.loop.throw(core.SimAbort())
            except (core.SimAbort, StopIteration):
                pass
        if how != "drop":
            self.loop.close()
        self.loop = None
        self.after = tree(self.cfg)
        if how == "delete":
            self.cfg = None
            gc.collect()


def tree(cfg):
    return {k: repr(v) for k, v in cfg.to_tree().items() if k.split(".")[0] != "io" or k.startswith("io.folders")
            if isinstance(v, (str, int, float, bool, tuple, type(None))) and not k.startswith("io.log")}


def run(w, s):
    legal(2 <= len(s["solvers"]) <= 3 and all(x["grid"]["n"] >= 1 and x["rate"] >= 1 and x["it"] >= 1 and x["damping"] > 0 for x in s["solvers"]))
    legal(all(len(x) == 2 for x in s["nest"]) and all(len(x) == 3 for x in s["touch"]))
    if s["idle"]:
        legal(all(len(x) == 3 and 0 <= x[0] <= 2 and x[1] in IDLE and x[2] >= 0 for x in s["idle"]) and s["idle_mesh"] in ("square", "layers"))
        idle(w, s["idle"], s["idle_mesh"])
    alone = []
    for k, spec in enumerate(s["solvers"]):
        w.on_apply = None
        p = Proc(w, k, spec, f"alone{k}")
        fails(w, [p], lambda: p)
        while not p.done:
            p.advance()
        alone.append(p)
    w.on_apply = None

    nest = {}
    for at, who in s["nest"]:
        nest.setdefault(at, who)
    events = [0]
    stack, procs = [], []

    def point(kind):
        def hook(*a):
            if not stack:
                return
            p = stack[-1]
            if kind == "apply":
                fail(p)
            events[0] += 1
            who = nest.get(events[0])
            if who is None or who >= len(procs) or procs[who].busy or procs[who].done or len(stack) > 2:
                return
            w.note("nested", kind, p.k, who)
            w.state("nested", kind, p.k, who, bool(procs[who].spec["sys"].get("flow")), len(procs[who].labels))
            w.fired[f"preempted in {kind}"] += 1
            w.probe("nontrivial")
            step(procs[who])
        return hook

    def on_save(gfu, filename, save):
        point("save")()

    def fail(p):
        f = p.spec["fail"]
        if f and p.count == [f[0], f[1]]:
            p.count[1] += 1
            w.fired["abort@apply"] += 1
            raise core.SimAbort()
        p.count[1] += 1

    def step(p):
        stack.append(p)
        try:
            p.advance()
        finally:
            stack.pop()
        w.steps += 1

    w.on_apply, w.on_linearize, w.on_inverse = point("apply"), point("linearize"), point("inverse")
    w.on_save, w.on_vtk = on_save, point("vtk")
    first = 1 if s["late"] else len(s["solvers"])
    for k, spec in enumerate(s["solvers"][:first]):
        procs.append(Proc(w, k, spec, f"mixed{k}"))
    turn = 0
    extra = []
    while True:
        for at, who, what in s["touch"]:
            if at == turn:
                touch(w, s, procs, who, what, extra)
        if turn == 1 and first < len(s["solvers"]):
            procs += [Proc(w, k, spec, f"mixed{k}") for k, spec in enumerate(s["solvers"][first:], first)]
        ready = [p for p in procs if not p.done]
        if not ready and turn > 1:
            break
        if ready:
            choice = s["order"][turn % len(s["order"])] if s["order"] else 0
            step(ready[choice % len(ready)])
        turn += 1
        require(turn < 400, "no-progress", lambda: f"{[p.labels for p in procs]}")
    w.on_apply = w.on_linearize = w.on_inverse = w.on_save = w.on_vtk = None

    with w.quiet():
        for a, b in zip(alone, procs):
            compare(w, a, b)
    w.state([p.spec["streams"] for p in procs], [p.outcome for p in procs])
    w.note("ends", [(p.outcome, p.labels) for p in procs])


def fails(w, procs, current):
    def on_apply(*a):
        p = current()
        f = p.spec["fail"]
        if f and p.count == [f[0], f[1]]:
            p.count[1] += 1
            raise core.SimAbort()
        p.count[1] += 1
    w.on_apply = on_apply


def touch(w, s, procs, who, what, extra):
    """Something happens to another solver, or to one that has come to its end"""
    w.note("touch", what)
    if what == "new":
        spec = s["solvers"][who % len(s["solvers"])]
        if not spec["sys"].get("flow"):
            other = runs.build({**spec["sys"], "scheme": "bdf2" if spec["sys"]["scheme"] != "bdf2" else "implicit_euler"},
                               {"start": "3", "step": "0.5", "n": 2}, newton={"max_iterations": 1, "convergence_criterion": 0.1, "damping": 0.3},
                               root=os.path.join(w.root, "extra"))
            other.optimizations.bonus_int_order.vol = 3
            extra.append(other)
    elif what == "crit":
        for other in extra:
            other.nonlinear_solver.convergence_criterion = 0.5
            other.time.timer.step = 0.123
            other.info["touched"] = True
    elif what == "rates":
        for other in extra:
            other.io.gfu = True
            other.io.gfu.filename, other.io.gfu.rate = "other", 7
            other.io.folders.states = "elsewhere"
    else:
        extra.clear()
        gc.collect()


def compare(w, a, b):
    what = f"solver {b.k} ({b.spec['sys'].get('scheme')}, {b.spec['streams']})"
    require(a.outcome == b.outcome, "outcome", lambda: f"{what}: ends {b.outcome}, alone {a.outcome}")
    require(a.labels == b.labels, "labels", lambda: f"{what}: {b.labels}, alone {a.labels}")
    for t, x, y in zip(a.labels, a.states, b.states):
        require(runs.same(x, y), "trajectory", lambda: f"{what}: at {t} differs by {abs(x - y).max():.3e} from when it runs alone")
    fix = lambda x, p: {k: v.replace(p.root, "ROOT") for k, v in x.items()}     # noqa: E731
    for x, y in ((a.tree, b.tree), (a.after, b.after)):
        x, y = fix(x, a), fix(y, b)
        require(x == y, "configuration", lambda: f"{what}: { {k: (x.get(k), y.get(k)) for k in set(x) | set(y) if x.get(k) != y.get(k)} }")
    x, y = files(a.root), files(b.root)
    require(sorted(x) == sorted(y), "files", lambda: f"{what}: files {sorted(set(x) ^ set(y))}")
    for k in x:
        require(x[k] == y[k], "file-content", lambda: f"{what}: {k} has other content than when it runs alone")


def files(root):
    out = {}
    for base, _, names in os.walk(root):
        for name in names:
            with open(os.path.join(base, name), "rb") as f:
                out[os.path.relpath(os.path.join(base, name), root)] = f.read()
    return out
