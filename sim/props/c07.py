"""C07: however a run ends, its output streams are closed and the solver can be used again."""
import os

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal

import ngsolve as ngs

QUICK = 4000
THOROUGH = 60000
RULE = ("a seeded selection of output streams (states, VTK, up to four sensors, mesh, settings), then one to three runs of the same solver "
        "that each end by a seeded failure (disk full or failing, no permission, no file handles left at a seeded operation; "
        "Ctrl-C in I/O, in a solve or in the loop body; user exception; failing factorisation; loop left or iterator dropped; "
        "a stream without fields that can not be opened), then an undisturbed run; non-trivial: a failure fired")
MEASURE = "distinct (streams, failure, operation it hit, outcome, step) situations"
REAL = "IOConfiguration, all streams, TransientConfig, Newton solver, Python file objects and csv, NGSolve files and VTK output"
STUB = "weak form of the model solver; errors are injected at the Python-level file operations and at NGSolve's Save/Do/Inverse"
ASSUMPTIONS = ["no second Ctrl-C arrives while the streams are being closed"]


def gen(rng, tier, i):
    g = G.grid(rng, nmax=4, simple=True)
    streams = {"gfu": rng.random() < 0.4, "vtk": rng.random() < 0.35, "sensors": rng.choice((0, 1, 2, 3, 4)),
               "ngsmesh": rng.random() < 0.25, "settings": rng.random() < 0.25}
    fails = []
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        f = {"faults": [], "leave": None, "hook": None, "nofields": None, "raises": True}
        if x < 0.5:
            f["faults"] = [{"op": rng.randint(1, 12 + 8 * streams["sensors"]), "sticky": rng.random() < 0.3, "frac": rng.choice((0.0, .5, 1.0)),
                            "kind": rng.choice(("enospc", "eio", "emfile", "eacces", "interrupt", "interrupt"))}]
            if rng.random() < 0.5:
                f["faults"][0].update(on=rng.choice(("open", "write", "open", "mkdir")), op=rng.randint(1, 5))
        elif x < 0.75:
            f["leave"] = [rng.randint(0, g["n"] - 1), rng.choice(("close", "drop", "abort", "interrupt"))]
        elif x < 0.9:
            f["hook"] = [rng.choice(("inverse", "apply")), rng.choice(("memory", "interrupt", "abort")), rng.randint(0, 2 * g["n"])]
        else:
            f["nofields"] = rng.choice(("vtk", "sensor"))
        fails.append(f)
    return {"sys": G.system(rng, nonlinear=False), "grid": g, "streams": streams, "fails": fails, "order": rng.randint(0, 119),
            "buf": rng.choice((32, 4096)), "manual": rng.random() < 0.15, "pseudo": rng.random() < 0.25}


def configure(cfg, s):
    fields = {"U": cfg.parts[0], "W": cfg.parts[1]}
    st = s["streams"]
    names = ["gfu", "vtk", "sensors", "ngsmesh", "settings"]
    k = s["order"]
    while names:                    # the streams are switched on in a seeded order
        name = names.pop(k % len(names))
        k //= max(1, len(names))
        if name == "sensors" and st["sensors"]:
            cfg.io.sensor = True
            for j in range(st["sensors"]):
                kind = ("point", "domain", "boundary_L2", "domain_L2")[j % 4]
                setattr(cfg.io.sensor, kind, f"s{j}")
                x = cfg.io.sensor[kind][f"s{j}"]
                x.fields = dict(fields)
                if kind == "point":
                    x.points = ((0.31, 0.07),)
                if kind == "boundary_L2":
                    x.regions = "left"
        elif name == "vtk" and st["vtk"]:
            cfg.io.vtk = True
            cfg.io.vtk.fields = dict(fields)
            cfg.io.vtk.subdivision = 0
        elif name in ("gfu", "ngsmesh", "settings") and st[name]:
            setattr(cfg.io, name, True)


def outputs(root):
    out = {}
    for folder in ("states", "sensors", "vtk"):
        for name in runs.listing(os.path.join(root, folder)):
            with open(os.path.join(root, folder, name), "rb") as f:
                out[folder, name] = f.read()
    return out


def run(w, s):
    g = s["grid"]
    legal(g["n"] >= 1 and 0 <= s["streams"]["sensors"] <= 4)
    legal(any(s["streams"].values()))
    w.bufsize = max(1, s["buf"])
    time = "pseudo" if s.get("pseudo") else "transient"
    if s.get("pseudo"):
        s["grid"] = g = {**g, "n": 1}       # its loop has one step
        for f in s["fails"]:
            if f["leave"]:
                f["leave"][0] = 0
    cfg = runs.build(s["sys"], g, time=time)
    configure(cfg, s)
    fired = 0
    for k, f in enumerate(s["fails"]):
        cfg.time.set_initial_conditions()
        cfg.time.timer.step = float(g["step"])
        if f["nofields"] == "vtk" and not s["streams"]["vtk"] or f["nofields"] == "sensor" and s["streams"]["sensors"] < 2:
            continue
        if f["nofields"] == "vtk":
            keep, cfg.io.vtk.fields = cfg.io.vtk.fields, None
        elif f["nofields"] == "sensor":
            last = cfg.io.sensor["domain"]["s1"]
            keep, last.fields = last.fields, None
        before = sum(w.fired.values())
        error, h = attempt(w, cfg, s, f)
        hit = sum(w.fired.values()) > before
        fired += hit or error is not None
        what = f"failure {f} ({h.outcome if h else type(error).__name__})"
        left = [x._rel for x in w.open_handles()]
        require(not left, "left-open", lambda: f"{what}: {left} still open")
        if hit:
            last_fault = [e for e in w.events if e[0] == "fault"][-1]
            kind = last_fault[1]
            quiet = h is not None and h.outcome == "done"
            require(not quiet, "swallowed", lambda: f"{what}: the failure {last_fault} was not reported to the user")
        w.state(tuple(s["streams"].values()), str(f["faults"][:1]), f["leave"], f["hook"] and f["hook"][:2], f["nofields"],
                h.outcome if h else type(error).__name__)
        if f["nofields"] == "vtk":
            require(isinstance(error, ValueError), "swallowed", lambda: f"{what}: no error for a stream without fields")
            cfg.io.vtk.fields = keep
        elif f["nofields"] == "sensor":
            require(isinstance(error, ValueError), "swallowed", lambda: f"{what}: no error for a stream without fields")
            last.fields = keep
    # after the trouble: as good as new
    w.arm([])
    w.write_error = None
    w.on_apply = w.on_inverse = None
    cfg.time.set_initial_conditions()
    cfg.time.timer.step = float(g["step"])
    cfg.time.timer.t = 0.0
    h = runs.drive(w, cfg)
    require(h.outcome == "done", "unusable", lambda: f"the run after the failures {s['fails']} was {h.outcome}: {h.error}")
    left = [x._rel for x in w.open_handles()]
    require(not left, "left-open", lambda: f"after an undisturbed run: {left} still open")
    w.simtime += float(g["step"]) * g["n"]
    with w.quiet():
        fresh_root = os.path.join(os.path.dirname(w.root), "fresh")
        os.makedirs(fresh_root)
        fresh = runs.build(s["sys"], g, time=time, root=fresh_root, init=False)
        fresh.initialize()
        configure(fresh, s)
        hf = runs.drive(None, fresh)
        require(h.labels == hf.labels, "unusable", lambda: f"labels after failures {h.labels}, of a fresh solver {hf.labels}")
        for t in h.labels:
            require(runs.same(h.states[t], hf.states[t]), "unusable", lambda: f"after {s['fails']}: state {t} differs from a fresh solver's")
        got, want = outputs(w.root), outputs(fresh_root)
        for key in want:
            require(key in got, "unusable", lambda: f"after {s['fails']}: {key} is missing")
            require(got[key] == want[key], "unusable", lambda: f"after {s['fails']}: {key} differs from a fresh solver's")
    w.probe("files compared with a fresh solver", len(want))
    if fired:
        w.probe("nontrivial")


def attempt(w, cfg, s, f):
    """One run that may fail.  Returns (error that is not a plain I/O error or None, history or None)"""
    w.arm(f["faults"])
    count = [0]

    def hook(*a):
        count[0] += 1
        if count[0] == f["hook"][2] + 1:
            w.fired[f"{f['hook'][1]}@{f['hook'][0]}"] += 1
            w.note("fault", f["hook"][1], f["hook"][0], "")
            if f["hook"][1] == "memory":
                raise MemoryError("injected: factorisation ran out of memory")
            raise core.SimInterrupt() if f["hook"][1] == "interrupt" else core.SimAbort()

    if f["hook"]:
        if f["hook"][0] == "inverse":
            w.on_inverse = hook
        else:
            w.on_apply = hook
    try:
        if s["manual"]:
            return None, manual(w, cfg, s, f)
        return None, runs.drive(w, cfg, stop_after=f["leave"])
    except (MemoryError, ValueError) as e:
        return e.with_traceback(None), None
    finally:
        w.on_inverse = w.on_apply = None
        w.arm([])
        w.write_error = None


def manual(w, cfg, s, f):
    """The documented way without a time loop: with cfg.io as io"""
    h = runs.History()
    try:
        with cfg.io as io:
            io.save_pre_time_routine(0.0)
            for it in range(s["grid"]["n"]):
                io.save_in_time_routine(float(it + 1), it)
                if f["leave"] and it == f["leave"][0]:
                    raise core.SimAbort()
            io.save_post_time_routine(float(s["grid"]["n"]), s["grid"]["n"] - 1)
        h.outcome = "done"
    except core.SimInterrupt:
        h.outcome = "interrupt"
    except core.SimAbort:
        h.outcome = "abort"
    except OSError as e:
        h.outcome, h.error = "oserror", str(e)
    return h
