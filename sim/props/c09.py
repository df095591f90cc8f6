"""C09: the stored mesh and settings describe the run that stored them, and reproduce it."""
import os

import numpy as np
import ngsolve as ngs

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal

QUICK = 2000
THOROUGH = 40000
RULE = ("a seeded solver (scheme, step, Newton settings, optimisations; 1 run in 25 the real flow solver) with mesh and settings output in "
        "a seeded combination and order with the other streams, in up to three runs in the same folder between which settings are "
        "changed, each possibly hit by a full or failing disk, a Ctrl-C or a kill at a seeded file operation; then everything is "
        "loaded in a new process, applied to a new solver on the loaded mesh, and the run repeated; non-trivial: a fault fired, or "
        "a run was repeated from its files")
MEASURE = "distinct (streams and order, formats, fault, operation it hit, outcome, solver) situations"
REAL = "MeshStream, SettingsStream, the configuration tree (to_tree, update), pickle, IOConfiguration, TransientConfig, NGSolve meshes"
STUB = "weak form of the model solver in 24 of 25 runs; kill is simulated in-process"
ASSUMPTIONS = ["boundary and initial conditions, forms and io settings are set by the user's script, they are no part of the stored settings that are applied again",
               "a write that was cut is noticed by pickle when it is loaded (no checksum)"]

CHANGES = ("step", "scheme", "crit", "max_it", "damping", "condense", "bonus", "gfu_rate", "interval", "toggle")


def gen(rng, tier, i):
    flow = rng.random() < 0.04
    g = G.grid(rng, nmax=3, simple=True)
    if flow:
        g.update(step=rng.choice(("0.1", "0.05")), start="0", n=min(2, g["n"]))
    streams = ["ngsmesh", "settings"] if rng.random() < 0.7 else [rng.choice(("ngsmesh", "settings"))]
    streams += [x for x in ("gfu", "vtk", "sensor", "log") if rng.random() < 0.25]
    rng.shuffle(streams)
    lives = []
    for k in range(rng.randint(1, 3)):
        life = {"changes": [[c, rng.randint(0, 5)] for c in rng.sample(CHANGES, rng.randint(0, 3))], "faults": [], "leave": None,
                "fresh": rng.random() < 0.3, "manual": rng.random() < 0.15}
        x = rng.random()
        if x < 0.45:
            f = {"op": rng.randint(1, 12), "kind": rng.choice(("crash", "crash", "interrupt", "enospc", "eio", "eacces", "emfile")),
                 "frac": rng.choice((0.0, 0.1, 0.5, 0.9, 0.99))}
            if rng.random() < 0.5:
                f.update(on=rng.choice(("open", "write", "write")), op=rng.randint(1, 4))
            life["faults"] = [f]
        elif x < 0.6:
            life["leave"] = [rng.randint(0, g["n"] - 1), rng.choice(("close", "drop", "abort", "interrupt", "crash"))]
        lives.append(life)
    return {"sys": runs.flow_system(rng) if flow else G.system(rng), "grid": g, "streams": streams, "lives": lives,
            "formats": {"pickle": rng.random() < 0.85, "txt": rng.random() < 0.6, "yaml": rng.random() < 0.3},
            "names": [rng.choice(("mesh", "net")), rng.choice(("settings", "conf", "a.b"))], "doc": rng.random() < 0.3,
            "buf": rng.choice((64, 4096, 65536))}


def change(cfg, s, g, c, v):
    """Change a setting and return the time grid"""
    t = cfg.time
    if c == "step":
        g = dict(g, step=("0.1", "0.05", "0.033333333333", "0.01", "0.25", "0.5")[v])
        t.timer.interval, t.timer.step = runs.interval_of(g), float(g["step"])
    elif c == "interval":
        g = dict(g, start=("0", "1", "0.123456789012", "2.5", "10", "0.1")[v])
        t.timer.interval = runs.interval_of(g)
    elif c == "scheme":
        t.scheme = ("implicit_euler", "bdf2")[v % 2]
        cfg.initialize()
    elif c == "crit":
        cfg.nonlinear_solver.convergence_criterion = (1e-13, 1e-12, 1e-10, 1e-9 / 3, 1e-6, 1e-3)[v]
    elif c == "max_it":
        cfg.nonlinear_solver.max_iterations = (12, 1, 2, 3, 7, 20)[v]
    elif c == "damping":
        cfg.nonlinear_solver.method.damping_factor = (1.0, 0.9, 0.5, 2 / 3, 0.99, 1.0)[v]
    elif c == "condense":
        cfg.optimizations.static_condensation = bool(v % 2) and bool(s["sys"].get("flow"))
    elif c == "bonus":
        cfg.optimizations.bonus_int_order = {"vol": v % 3, "bnd": v % 2}
        cfg.initialize()
    elif c == "toggle":
        # another output comes or goes, and its settings with it
        cfg.io.gfu = "gfu" not in cfg.io
    elif c == "gfu_rate" and "gfu" in cfg.io:
        cfg.io.gfu.rate = 1 + v
    return g


def configure(cfg, s):
    field = {"U": model.field(cfg)}
    for name in s["streams"]:
        if name == "log":
            continue
        setattr(cfg.io, name, True)
        if name == "vtk":
            cfg.io.vtk.fields, cfg.io.vtk.subdivision = field, 0
        if name == "sensor":
            cfg.io.sensor.point = "p"
            cfg.io.sensor.point["p"].points, cfg.io.sensor.point["p"].fields = ((0.3, 0.1),), field
        if name == "ngsmesh":
            cfg.io.ngsmesh.filename = s["names"][0]
        if name == "settings":
            cfg.io.settings.filename = s["names"][1]
            cfg.io.settings.update(**s["formats"])
    if s["doc"]:
        cfg.set_solver_documentation(["first line", "second line"])


def plain(tree):
    """The entries with plain values"""
    return {k: v for k, v in tree.items() if isinstance(v, (str, int, float, bool, tuple, type(None)))}


def summary(mesh):
    return (mesh.dim, [tuple(mesh[v].point) for v in mesh.vertices],
            [(tuple(v.nr for v in el.vertices), el.mat) for el in mesh.Elements(ngs.VOL)],
            [(tuple(v.nr for v in el.vertices), el.mat) for el in mesh.Elements(ngs.BND)], mesh.GetMaterials(), mesh.GetBoundaries())


def run(w, s):
    w.bufsize = s["buf"]
    legal(len(set(s["streams"])) == len(s["streams"]) and all(f in ("ngsmesh", "settings", "gfu", "vtk", "sensor", "log") for f in s["streams"])
          and set(s["streams"]) & {"ngsmesh", "settings"} and s["grid"]["n"] >= 1 and s["names"][0] and s["names"][1])
    flow = s["sys"].get("flow")
    meshfile = os.path.join(w.root, s["names"][0] + ".pickle")
    setfile = os.path.join(w.root, "cfg", s["names"][1])
    cfg, g, stored = None, s["grid"], {}
    last = None                 # what an undisturbed run would have to find: (grid, tree, states)
    for k, life in enumerate(s["lives"]):
        if cfg is None or life["fresh"]:
            if cfg is not None:
                cfg = None
                w.reboot()
            g = s["grid"]
            cfg = runs.make(s["sys"], g)
            if "log" in s["streams"] and not flow:
                cfg.io.log.level = "INFO"
            configure(cfg, s)
        for c, v in life["changes"]:
            if flow and c in ("scheme", "condense"):
                continue
            new = change(cfg, s, g, c, v)
            if new is not g:
                g = new
        cfg.initialize() if flow else cfg.time.set_initial_conditions()
        if "vtk" in s["streams"]:
            cfg.io.vtk.fields = {"U": model.field(cfg)}
        if "sensor" in s["streams"]:
            cfg.io.sensor.point["p"].fields = {"U": model.field(cfg)}
        cfg.time.timer.t = cfg.time.timer.interval[0]
        tree = plain(runs.in_use(cfg))
        full = dict(cfg.to_tree())
        with w.quiet():
            before = {f: read(f) for f in files(s, meshfile, setfile)}
        w.arm(life["faults"])
        ev = len(w.events)
        if life["manual"]:
            h = runs.History()
            try:
                for name in s["streams"]:
                    if name in ("ngsmesh", "settings"):
                        cfg.io[name].save_pre_time_routine()
                h.outcome = "saved"
            except core.SimCrash:
                h.outcome = "crash"
            except core.SimInterrupt:
                h.outcome = "interrupt"
            except OSError as e:
                h.outcome = "oserror"
        else:
            leave = life["leave"]
            h = runs.drive(w, cfg, stop_after=leave)
            w.simtime += float(g["step"]) * len(h.labels)
        w.state(tuple(s["streams"]), tuple(s["formats"].values()), tuple(x[1:3] for x in w.events[ev:] if x[0] == "fault"), h.outcome, bool(flow))
        injected = [e for e in w.events[ev:] if e[0] == "fault"]
        what = f"run {k} ({h.outcome}) with {s['streams']}"
        written = bool(h.labels) or h.outcome in ("done", "saved")
        if injected and injected[0][1] in core.FAULT_ERRNO:
            require(h.outcome == "oserror", "failure-hidden", lambda: f"{what}: {injected[0]} was not reported")
        elif not injected or life["leave"]:
            require(h.outcome != "oserror", "spurious-error", lambda: f"{what}: {h.error}")
        # pickles are written once for all when the first step is reached
        if h.outcome == "crash":
            cfg = None
            w.reboot()
            w.probe("killed")
        with w.quiet():
            check_files(w, s, what, meshfile, setfile, tree, full, before, written, stored, k, h.outcome == "crash")
        if written:
            last = (g, tree, h)
    if w.fired:
        w.probe("nontrivial")
    if last is None or not s["formats"]["pickle"] or set(s["streams"]) < {"ngsmesh", "settings"}:
        return
    if not {"ngsmesh", "settings"} <= set(s["streams"]):
        return
    again(w, s, *last, meshfile, setfile)


def files(s, meshfile, setfile):
    out = [meshfile] if "ngsmesh" in s["streams"] else []
    if "settings" in s["streams"]:
        out += [f"{setfile}.{e}" for e in ("pickle", "txt", "yaml") if s["formats"][e]]
    return out


def read(path):
    return open(path, "rb").read() if os.path.exists(path) else None


def check_files(w, s, what, meshfile, setfile, tree, full, before, written, stored, k, crashed):
    fmt = s["formats"]
    want = files(s, meshfile, setfile)
    there = [os.path.join(w.root, f) for f in runs.listing(w.root) if f.endswith(".pickle")]
    there += [os.path.join(w.root, "cfg", f) for f in runs.listing(os.path.join(w.root, "cfg"))]
    extra = sorted(set(there) - set(want))
    require(not extra, "unasked-file", lambda: f"{what}: there is {extra}")
    missing = sorted(set(want) - set(there))
    require(not (written and missing), "file-missing", lambda: f"{what}: there is no {missing}")
    mesh = runs.mesh_of(s["sys"]["mesh"])
    helper = runs.build({"mesh": s["sys"]["mesh"], "u0": [1.0], "src": [1.0], "par": {}, "scheme": "bdf2"}, {"start": "0", "step": "1", "n": 1}, init=False,
                        root=w.root)
    helper.io.ngsmesh = helper.io.settings = True
    helper.io.ngsmesh.filename, helper.io.settings.filename = s["names"]

    if "ngsmesh" in s["streams"] and os.path.exists(meshfile):
        try:
            got = helper.io.ngsmesh.load_routine()
        except Exception as e:
            require(not written, "mesh-unreadable", lambda: f"{what}: the mesh does not load: {e!r}")
            w.probe("torn mesh refused")
        else:
            require(summary(got) == summary(mesh), "mesh-differs", lambda: f"{what}: the mesh that was stored is another one")
            w.probe("mesh loaded")
    if "settings" not in s["streams"]:
        return
    if fmt["pickle"] and os.path.exists(setfile + ".pickle"):
        try:
            got = helper.io.settings.load_from_pickle()
        except Exception as e:
            require(not written, "settings-unreadable", lambda: f"{what}: the settings do not load: {e!r}")
            w.probe("torn settings refused")
        else:
            fresh = read(setfile + ".pickle") != before[setfile + ".pickle"] or written
            if fresh:
                require(isinstance(got, dict) and plain(got) == tree, "settings-differ",
                        lambda: f"{what}: settings stored and in use differ in { {key: (plain(got).get(key), tree.get(key)) for key in set(tree) | set(plain(got)) if plain(got).get(key) != tree.get(key)} }")
                require(sorted(got) == sorted(full), "settings-differ", lambda: f"{what}: entries {set(got) ^ set(full)}")
                w.probe("settings loaded")
    if written and fmt["txt"]:
        text = read(setfile + ".txt").decode()
        for key, value in tree.items():
            require(f".{key}: {value}\n" in text + "\n", "txt-entry", lambda: f"{what}: '{key}: {value}' is not in the text")
        if s["doc"]:
            require("first line\nsecond line" in text, "txt-doc", lambda: f"{what}: the documentation is not in the text")
    if written and fmt["yaml"] and not set(s["streams"]) & {"vtk", "sensor"} and not s["sys"].get("flow"):
        import yaml
        got = yaml.unsafe_load(read(setfile + ".yaml").decode())
        require(plain(got) == tree, "yaml-differs", lambda: f"{what}: {got}")


SKIP = ("io", "info", "scaling.dimensionful_values")


def again(w, s, g, tree, h, meshfile, setfile):
    """A new process repeats the last run from its files, and gets the same"""
    w.reboot()
    flow = s["sys"].get("flow")
    with w.quiet():
        helper = runs.build({"mesh": s["sys"]["mesh"], "u0": [1.0], "src": [1.0], "par": {}, "scheme": "bdf2"}, {"start": "0", "step": "1", "n": 1}, init=False,
                            root=w.root)
        helper.io.ngsmesh = helper.io.settings = True
        helper.io.ngsmesh.filename, helper.io.settings.filename = s["names"]
        try:
            mesh = helper.io.ngsmesh.load_routine()
            got = helper.io.settings.load_from_pickle()
        except Exception:
            w.probe("nothing to repeat from")   # torn by a later run, checked there
            return
        if plain(got) != tree:
            w.probe("files of a later run")
            return
        apply = {k: v for k, v in got.items() if k.split(".")[0] not in SKIP and k not in SKIP}
        if flow:
            cfg = runs.build_flow(s["sys"], {"start": "5", "step": "0.5", "n": 1}, init=False, mesh=mesh, bare=True)
            cfg.update(**apply)
            runs.flow_conditions(cfg, s["sys"])
        else:
            other = dict(s["sys"], scheme="bdf2" if s["sys"]["scheme"] != "bdf2" else "implicit_euler")
            cfg = runs.build(other, {"start": "5", "step": "0.5", "n": 1}, init=False, newton={"max_iterations": 5}, mesh=mesh)
            cfg.update(**apply)
            cfg.clock = cfg.time.timer.t
        cfg.initialize()
        left = plain(runs.in_use(cfg))
        for key, value in tree.items():
            if key.split(".")[0] not in SKIP:
                require(left.get(key) == value, "not-applied", lambda: f"{key} is {left.get(key)} after applying the stored settings, not {value}")
        n = len(h.labels)
        h2 = runs.drive(None, cfg)
    require(h2.labels[:n] == h.labels and (h.outcome != "done" or len(h2.labels) == n), "labels", lambda: f"{h.labels} was repeated as {h2.labels}")
    for t in h.labels:
        require(runs.same(h2.states[t], h.states[t]), "trajectory", lambda: f"repeated from its files, the run differs at {t} by {np.nanmax(np.abs(h2.states[t] - h.states[t])):.3e}")
    w.probe("runs repeated from files")
    w.probe("nontrivial")
