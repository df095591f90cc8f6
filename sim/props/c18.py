"""C18: what a run writes, logs or is asked for does not change what it computes, nor what its other outputs hold."""
import logging
import os

import ngsolve as ngs

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal

QUICK = 4000
THOROUGH = 60000
RULE = ("one to three consecutive runs of a solver (transient or pseudo-time; 1 in 20 the flow solver) with a seeded selection of outputs, rates, "
        "options and log settings, and seeded requests in the loop body (settings as a tree, fields, sensors measured by hand, states and settings "
        "saved by hand, outputs and log destinations switched, folders moved, times listed), some ended by failing output; the same runs, left after "
        "the same step, are repeated without any output, or with a single one: unknowns, time levels, Newton iterations, settings and the files of "
        "the single output must be the same to the bit; non-trivial: an output failed, or something was requested within a run")
MEASURE = "distinct (system, time mode, outputs, requests, end of the run) situations"
REAL = "IOConfiguration with all streams, transient and pseudo-time routine, Newton solver, configuration tree, logging"
STUB = "weak form of the model solver (in 19 of 20 runs)"
ASSUMPTIONS = ["Timer.to_array() moves the clock of the solver and is therefore only asked for between two runs"]

STREAMS = ("gfu", "vtk", "sensor", "ngsmesh", "settings")
REQUESTS = ("tree", "repr", "fields", "measure", "save", "settings", "toggle", "log", "logfile", "level", "folder", "rate", "levels")


def gen(rng, tier, i):
    flow = rng.random() < 0.05
    g = G.grid(rng, nmax=4, nmin=1, simple=True)
    sys = runs.flow_system(rng) if flow else G.system(rng)
    if flow:
        g.update(step=rng.choice(("0.1", "0.05")), start="0", n=rng.randint(1, 2))
    on = [x for x in STREAMS if rng.random() < 0.5]
    rng.shuffle(on)
    opts = {"gfu": [rng.choice((1, 2, 3)), rng.choice((1, 2, 100)), rng.choice((None, "state"))],
            "vtk": [rng.choice((1, 2, 3)), rng.choice((0, 1)), rng.choice((None, "out"))],
            "sensor": [[rng.choice(("point", "domain", "boundary", "domain_L2", "boundary_L2")), rng.choice((1, 2, 3)), rng.choice((0, 2, 5)),
                        rng.choice((None, "all", "first"))] for _ in range(rng.randint(1, 4))],
            "settings": [rng.random() < 0.7, rng.random() < 0.7]}
    out = []
    for _ in range(1 if flow else rng.randint(1, 3)):
        r = {"n": g["n"] if flow else rng.randint(1, 4), "faults": [], "ask": [], "list": rng.random() < 0.15}
        if rng.random() < 0.35:
            r["faults"] = [{"op": rng.randint(1, 14 + 6 * len(on)), "kind": rng.choice(("enospc", "eio", "emfile", "interrupt")),
                            "frac": rng.choice((0.0, 0.5, 1.0)), "sticky": rng.random() < 0.2}]
        for _ in range(rng.randint(0, 4)):
            r["ask"].append([rng.randint(0, r["n"] - 1), rng.choice(REQUESTS), rng.randint(0, 5)])
        out.append(r)
    return {"sys": sys, "grid": g, "time": "transient" if flow or rng.random() < 0.75 else "pseudo", "on": on, "opts": opts, "runs": out,
            "single": rng.choice(("gfu", "gfu", "vtk", "sensor", None)), "log": rng.choice(("ERROR", "INFO", "DEBUG")), "file": rng.random() < 0.3,
            "terminal": rng.random() < 0.3, "it": rng.choice((12, 12, 2, 1)), "condense": rng.random() < 0.3}


def configure(cfg, s, on, fields):
    """Switch the outputs `on` on, with the options of the scenario"""
    for name in on:
        setattr(cfg.io, name, True)
        o = s["opts"].get(name)
        if name == "gfu":
            cfg.io.gfu.rate, cfg.io.gfu.time_level_rate = o[:2]
            if o[2]:
                cfg.io.gfu.filename = o[2]
        elif name == "vtk":
            cfg.io.vtk.rate, cfg.io.vtk.subdivision = o[:2]
            cfg.io.vtk.fields = dict(fields)
            if o[2]:
                cfg.io.vtk.filename = o[2]
        elif name == "sensor":
            cfg.io.sensor.mode = "a"
            for j, (kind, rate, order, regions) in enumerate(o):
                if kind == "point":
                    cfg.io.sensor.point = f"s{j}"
                    cfg.io.sensor.point[f"s{j}"].points = ((0.11, 0.07), (-0.3, 0.21))
                else:
                    setattr(cfg.io.sensor, kind, f"s{j}")
                    x = cfg.io.sensor[kind][f"s{j}"]
                    x.integration_order = order
                    names = list(dict.fromkeys(cfg.mesh.GetMaterials() if kind.startswith("domain") else cfg.mesh.GetBoundaries()))
                    if regions:
                        x.regions = tuple(names) if regions == "all" else names[0]
                x = cfg.io.sensor[kind][f"s{j}"]
                x.rate = rate
                x.fields = dict(fields)
        elif name == "settings":
            cfg.io.settings.pickle, cfg.io.settings.txt = o


def ask(w, cfg, s, what, k, root):
    io = cfg.io
    if what == "tree":
        cfg.to_tree()
    elif what == "repr":
        repr(cfg)
        len(cfg), list(cfg), list(cfg.io.values())
    elif what == "fields":
        if s["sys"].get("flow"):
            f = cfg.get_fields(rho=True, u=True, p=True, T=True, M=True, c=True)
        else:
            f = cfg.get_fields(U=True)
        for x in f.values():
            ngs.Integrate(x, cfg.mesh, order=2)
    elif what == "measure" and "sensor" in io:
        for kind in ("point", "domain", "boundary"):
            for x in (io.sensor[kind] or {}).values():
                if hasattr(x, "_field"):
                    list(x.measure())
    elif what == "save":
        on = "gfu" in io
        if on:
            io.gfu.save_gridfunction(cfg.gfu, f"mine{k}")
    elif what == "levels":
        if "gfu" in io:
            for gfus in cfg.time.scheme.gfus.values():
                for level, gfu in gfus.items():
                    io.gfu.save_gridfunction(gfu, f"mine{k}_{level}")
    elif what == "settings" and "settings" in io:
        io.settings.save_to_pickle(f"mine{k}")
        io.settings.save_to_txt(f"mine{k}")
    elif what == "toggle":
        # not the streams in use: the outputs of a run are those that were switched on when it began
        name = [x for x in STREAMS if x not in s["on"] and x != s["single"]]
        if name:
            name = name[k % len(name)]
            setattr(io, name, name not in io)
            if name == "vtk" and name in io:
                io.vtk.fields = {"U": model.field(cfg)}
            if name == "sensor" and name in io:
                io.sensor.domain = "late"
                io.sensor.domain["late"].fields = {"U": model.field(cfg)}
    elif what == "log":
        io.log.to_terminal = k % 2 == 0
    elif what == "logfile":
        io.log.to_file = k % 2 == 0
    elif what == "level":
        io.log.level = (logging.DEBUG, logging.INFO, logging.ERROR)[k % 3]
    elif what == "folder":
        io.folders.settings = f"cfg{k}"
    elif what == "rate" and "settings" in io:
        io.settings.txt = k % 2 == 0


def settings(cfg, time):
    skip = {"time.timer.t", "time.timer.interval"} | ({"time.timer.step"} if time == "pseudo" else set())
    return {k: str(v) for k, v in cfg.to_tree().items() if k.split(".")[0] != "io" and k not in skip}


def execute(w, s, root, on, observed, plan=None):
    """All runs of the scenario; returns what the computation did.  plan: after how many steps each run was left"""
    g = s["grid"]
    os.makedirs(root, exist_ok=True)
    newton = {"max_iterations": s["it"], "convergence_criterion": 1e-13}
    if s["sys"].get("flow"):
        cfg = runs.build_flow(s["sys"], {**g, "n": s["runs"][0]["n"]}, root=root, crit=1e-11, max_it=s["it"])
        fields = cfg.get_fields(rho=True, u=True, p=True)
    else:
        cfg = runs.build(s["sys"], {**g, "n": s["runs"][0]["n"]}, time=s["time"], newton=newton, root=root)
        cfg.optimizations.static_condensation = s["condense"]
        fields = {"U": cfg.parts[0], "W": cfg.parts[1]}
    if s["time"] == "pseudo":
        cfg.time.max_time_step, cfg.time.increment_at = 1.0, 2
    configure(cfg, s, on, fields)
    if observed:
        cfg.io.log.level = getattr(logging, s["log"])
        cfg.io.log.to_terminal = s["terminal"]
        cfg.io.log.to_file = s["file"]
    story = []
    before = settings(cfg, s["time"])
    at = float(g["start"])
    for k, r in enumerate(s["runs"]):
        if plan is not None and (k not in plan or plan[k] is None):
            continue                # this run did not even begin
        cfg.time.timer.interval = (at, model.end_of(repr(at), g["step"], r["n"]))
        if s["time"] == "pseudo":
            cfg.time.timer.step = float(g["step"])
        if observed and r["list"] and s["time"] == "transient":
            cfg.time.timer.to_array()
        seen = []
        calls = [w.lin_calls, w.lin_calls]

        def body(i, t):
            calls[1] = w.lin_calls
            if observed:
                for j, what, n in r["ask"]:
                    if j == i:
                        w.probe("nontrivial")
                        w.probe(f"asked for {what}")
                        ask(w, cfg, s, what, n, root)
            nl = cfg.nonlinear_solver
            seen.append((t, runs.snapshot(cfg), w.lin_calls - calls[0], repr(getattr(nl, "error", None)), nl.is_converged, cfg.time.timer.t.Get(),
                         cfg.time.timer.step.Get()))

        if observed:
            w.arm(r["faults"])
        stop = [plan[k] - 1, "close"] if plan is not None and plan[k] else None
        h = runs.drive(w, cfg, body=body, stop_after=stop)
        w.arm([])
        if h.outcome != "done" and observed:
            w.probe("nontrivial")
        # how far it got, as far as the computation is concerned: an interrupt may also hit the log file within a step
        within = w.lin_calls > calls[1]
        story.append((k, len(h.labels), h.outcome, seen, runs.snapshot(cfg), settings(cfg, s["time"]), within))
        require(observed or h.outcome in ("done", "stopped"), "outcome", lambda: f"the run without output ended by {h.outcome} {h.error}")
        if h.labels and s["time"] == "transient":
            at = h.labels[-1]
        require(story[-1][5] == before, "settings", lambda: f"run {k} changed {changed(before, story[-1][5])}")
        if within:
            break
    return story


def changed(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def differ(a, b):
    if not runs.same(a[0], b[0]):
        return "the unknowns"
    for key in a[1]:
        if not runs.same(a[1][key], b[1][key]):
            return f"time level {key}"


def files(root):
    out = {}
    for folder in ("states", "vtk", "sensors"):
        for name in runs.listing(os.path.join(root, folder)):
            if "mine" not in name:
                with open(os.path.join(root, folder, name), "rb") as f:
                    out[folder, name] = f.read().replace(root.encode(), b"")
    return out


def run(w, s):
    legal(s["runs"] and all(r["n"] >= 1 for r in s["runs"]) and s["it"] >= 1 and s["opts"]["gfu"][0] >= 1 and s["opts"]["gfu"][1] >= 1)
    legal(s["opts"]["vtk"][0] >= 1 and all(x[1] >= 1 and x[2] >= 0 for x in s["opts"]["sensor"]) and s["opts"]["sensor"])
    legal(set(s["on"]) <= set(STREAMS) and len(set(s["on"])) == len(s["on"]))
    legal(not s["sys"].get("flow") or len(s["runs"]) == 1)
    w.bufsize = 64
    rich = execute(w, s, os.path.join(w.root, "rich"), s["on"], True)
    faults = sum(w.fired.values())
    # done: run it to its end, None: leave it out
    plan = {x[0]: 0 if x[2] == "done" else x[1] or None for x in rich}
    on = [s["single"]] if s["single"] in s["on"] else []
    plain = execute(w, s, os.path.join(w.root, "plain"), on, False, plan)
    rich = [x for x in rich if plan[x[0]] is not None]
    require(len(rich) == len(plain), "runs", lambda: f"{len(rich)} and {len(plain)} runs")
    for a, b in zip(rich, plain):
        # a request in the loop body may have been the one that failed
        due = len(b[3]) if a[2] == "done" else a[1]
        require(a[1] == due == b[1], "steps", lambda: f"run {a[0]}: {a[1]} steps with outputs, {b[1]} without")
        for x, y in zip(a[3], b[3]):
            what = differ(x[1], y[1])
            require(what is None, "trajectory", lambda: f"run {a[0]} at {x[0]}: {what} differ by the outputs {s['on']}")
            require(x[0] == y[0] and x[2:] == y[2:], "iterations", lambda: f"run {a[0]} at {x[0]}: {x[2:]} with outputs, {y[0]} {y[2:]} without")
        what = None if a[6] else differ(a[4], b[4])
        require(what is None, "trajectory", lambda: f"after run {a[0]}, {a[2]}: {what} differ by the outputs {s['on']}")
        require(a[5] == b[5], "settings", lambda: f"after run {a[0]}: {changed(a[5], b[5])}")
        w.simtime += float(s["grid"]["step"]) * len(a[3])
    if on and not faults:
        name = {"gfu": "states", "vtk": "vtk", "sensor": "sensors"}.get(on[0])
        a, b = ({k: v for k, v in files(os.path.join(w.root, x)).items() if k[0] == name} for x in ("rich", "plain"))
        require(a.keys() == b.keys(), "files", lambda: f"{on[0]}: {sorted(set(a) ^ set(b))} only with or without the outputs {s['on']}")
        for key in a:
            require(a[key] == b[key], "files", lambda: f"{key} differs by the outputs {s['on']}")
        w.probe("single output compared")
    w.state(bool(s["sys"].get("flow")), s["time"], sorted(s["on"]), s["single"], [(x[2], len(x[3])) for x in rich],
            sorted({x[1] for r in s["runs"] for x in r["ask"]}))
