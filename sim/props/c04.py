"""C04: an incompletely written state is never passed off as saved, and never as loaded."""
import os

import numpy as np
import ngsolve as ngs

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal

QUICK = 8000
THOROUGH = 150000
RULE = ("a seeded model run whose gridfunction writes meet a full or failing disk (one write cut at a seeded byte, or all of them "
        "from a seeded one on), or a kill; then every file is loaded, after further damage (cut, grown, emptied, removed, swapped "
        "with a file of another space) of a seeded selection; non-trivial: a write was cut or a damaged file was loaded")
MEASURE = "distinct (kind of disk failure, operation, steps, kinds of damage, load entry point) situations"
REAL = "GridfunctionStream, IOConfiguration, TransientConfig, NGSolve's own Save and Load with a real short write (RLIMIT_FSIZE)"
STUB = "weak form of the model solver"
ASSUMPTIONS = ["damage changes the length of a file; flipped bits inside a file of the right length are not detectable (no checksum)",
               "one process per file (no MPI)"]


def gen(rng, tier, i):
    g = G.grid(rng, nmax=5, simple=rng.random() < 0.75, digits=7)
    x = rng.random()
    fault = None
    if x < 0.75:
        fault = {"on": "save", "op": rng.randint(1, 2 + 4 * g["n"]), "kind": rng.choice(("enospc", "enospc", "crash", "eio", "emfile", "eacces")),
                 "frac": rng.choice((0.0, 0.2, 0.3, 0.5, 0.7, 0.99, rng.random())), "sticky": rng.random() < 0.4}
    damage = []
    for _ in range(rng.randint(0, 3)):
        damage.append({"file": rng.randint(0, 30), "how": rng.choice(("cut", "cut", "grow", "empty", "remove", "swap")),
                       "frac": rng.random()})
    return {"sys": G.system(rng), "grid": g, "rate": rng.choice((1, 2, 3)), "tlr": rng.choice((1, 2, 100)),
            "faults": [fault] if fault else [], "damage": damage, "via": rng.choice(("run", "run", "run", "direct")), "plain": rng.random() < 0.5,
            "reload_fresh": rng.random() < 0.5, "twice": rng.random() < 0.4}


def run(w, s):
    g = s["grid"]
    legal(g["n"] >= 1 and s["rate"] >= 1 and s["tlr"] >= 1)
    cfg = runs.build(s["sys"], g)
    cfg.io.gfu = True
    cfg.io.gfu.rate, cfg.io.gfu.time_level_rate = s["rate"], s["tlr"]
    truth = {}          # what was being saved under each name, newest first
    broken = set()

    def on_save(gfu, filename, real):
        name = os.path.basename(filename)
        truth[name] = (model.vec(gfu), gfu.space)

    def silent(where):
        lost = [e[1] for e in w.events if e[0] == "cut" and not e[1] in told]
        require(not lost, "save-silent", lambda: f"the write of {lost} was cut short, but {where}")

    told = set()

    def body(i, t):
        silent(f"the run goes on in step {t}")

    # the last one under the name of the stream
    names = [[f"direct{k}"] for k in range(g["n"])]
    if s.get("plain"):
        names[-1] = []
    w.on_save = on_save
    if s["twice"]:
        # files of an earlier run lie in the folder already
        if s["via"] == "run":
            runs.drive(w, cfg)
            cfg.u0 = cfg.u0 + 1
            cfg.time.set_initial_conditions()
        else:
            for k in range(g["n"]):
                cfg.io.gfu.save_gridfunction(cfg.gfu, *names[k])
            cfg.gfu.vec.FV().NumPy()[:] += 9
    w.arm(s["faults"])
    if s["via"] == "run":
        h = runs.drive(w, cfg, body=body)
        outcome = h.outcome
    else:
        outcome = "done"
        try:
            for k in range(g["n"]):
                cfg.io.gfu.save_gridfunction(cfg.gfu, *names[k])
                silent("save_gridfunction returned")
                w.steps += 1
                cfg.gfu.vec.FV().NumPy()[:] += 1
        except core.SimCrash:
            outcome = "crash"
        except OSError:
            outcome = "oserror"
    w.on_save = None
    cuts = [e[1] for e in w.events if e[0] == "cut"]
    if outcome in ("done", "stopped"):
        silent(f"the run ended as {outcome}")
    if cuts:
        require(outcome in ("oserror", "crash"), "save-silent", lambda: f"{cuts} cut short, but the run was {outcome}")
        broken.update(os.path.basename(c) for c in cuts)
        w.probe("nontrivial")
    elif outcome == "oserror":
        require(False, "save-false-alarm", lambda: f"every file was written, but the run failed: {h.error}")
    w.simtime += float(g["step"]) * g["n"]

    # the disk, as it is found later
    if outcome == "crash":
        cfg = None
        w.reboot()
    else:
        w.arm([])
    folder = os.path.join(w.root, "states")
    with w.quiet():
        files = runs.listing(folder)
        for name in [f for f in files if f in broken]:
            if outcome == "crash" and os.path.getsize(os.path.join(folder, name)) == truth[name][0].nbytes:
                # killed before this write began, an older file of that name is still there
                broken.discard(name)
                truth.pop(name)
        files = [f for f in files if f in truth]
        for name in files:
            path = os.path.join(folder, name)
            want, space = truth[name]
            if name not in broken:
                require(os.path.getsize(path) == want.nbytes and runs.same(runs.load_file(cfg, path, space), want),
                        "state-wrong", lambda: f"{name} is on disk, was not hit by a failure, and is wrong")
        damaged = damage(folder, files, s["damage"], truth, broken)
    if cfg is None or s["reload_fresh"]:
        cfg = runs.build(s["sys"], g)
        cfg.io.gfu = True
    unknown = {f for f in os.listdir(folder) if f not in truth} if os.path.isdir(folder) else set()
    kinds = load_all(w, cfg, folder, truth, damaged | broken)
    if s["via"] == "run":
        load_routines(w, cfg, g, folder, truth, damaged | broken, unknown)
    if damaged:
        w.probe("nontrivial")
    w.state(outcome, tuple(f["kind"] for f in s["faults"]), w.n if cuts else 0, g["n"], tuple(d["how"] for d in s["damage"]), kinds)


def damage(folder, files, plan, truth, broken):
    out = set()
    for d in plan:
        if not files:
            break
        name = files[d["file"] % len(files)]
        path = os.path.join(folder, name)
        if not os.path.exists(path):
            continue
        size = truth[name][0].nbytes
        real = core._real
        if d["how"] == "cut":
            n = int(d["frac"] * size)
            if n >= os.path.getsize(path):
                continue
            os.truncate(path, n)
        elif d["how"] == "grow":
            with real["open"](path, "ab") as f:
                f.write(b"\0" * (8 * (1 + int(d["frac"] * 9))))
        elif d["how"] == "empty":
            os.truncate(path, 0)
        elif d["how"] == "remove":
            os.unlink(path)
        elif d["how"] == "swap":
            other = next((f for f in files if truth[f][0].nbytes != size and f not in broken
                          and os.path.exists(os.path.join(folder, f))), None)
            if other is None or other in out:
                continue
            with real["open"](os.path.join(folder, other), "rb") as f:
                data = f.read()
            with real["open"](path, "wb") as f:
                f.write(data)
        out.add(name)
    for name in list(out):
        path = os.path.join(folder, name)
        if os.path.exists(path) and os.path.getsize(path) == truth[name][0].nbytes:
            broken.discard(name)
            out.discard(name)
            truth.pop(name)                 # right length, unknown content: no statement about this one
    return out


def load_all(w, cfg, folder, truth, bad):
    """Load every file through dream; the bad ones have to be refused, leaving the gridfunction alone"""
    count = [0, 0]
    for name, (want, space) in sorted((k, v) for k, v in truth.items() if k.endswith(".ngs")):
        with w.quiet():
            exists = os.path.exists(os.path.join(folder, name))
        if not exists and name not in bad:
            continue
        gfu = ngs.GridFunction(space)
        gfu.vec.FV().NumPy()[:] = -7.5
        try:
            cfg.io.gfu.load_gridfunction(gfu, *([] if name == "gfu.ngs" else [name[:-4]]))
        except Exception as e:
            require(name in bad, "load-refused", lambda: f"{name} is intact, but could not be loaded: {e!r}")
            require(bool(np.all(gfu.vec.FV().NumPy() == -7.5)), "load-partial",
                    lambda: f"{name} was refused, but has changed the gridfunction")
            count[0] += 1
        else:
            require(name not in bad, "load-silent", lambda: f"{name} is damaged, but was loaded without a word")
            require(runs.same(model.vec(gfu), want), "load-wrong", lambda: f"{name} was loaded with other values than it was saved")
            count[1] += 1
    w.probe("damaged files refused", count[0])
    w.note("loads", count)
    return tuple(min(c, 4) for c in count)


def load_routines(w, cfg, g, folder, truth, bad, unknown):
    """The same by the routines for a time: states, time levels, and the playback"""
    io = cfg.io.gfu
    levels = {f"{fes}_{level}": gfu for fes, gfus in cfg.time.scheme.gfus.items() for level, gfu in gfus.items()}
    for t in [float(g["start"])] + runs.labels_of(g):
        state = f"gfu_{t}.ngs"
        names = {f"gfu_{t}_{key}.ngs": gfu for key, gfu in levels.items()}
        with w.quiet():
            exists = set(runs.listing(folder))
        for routine, files in ((io.load_routine, {state: cfg.gfu}), (io.load_time_levels, names)):
            if any(f in unknown for f in files):
                continue
            for gfu in (cfg.gfu, *levels.values()):
                gfu.vec.FV().NumPy()[:] = -7.5
            wrong = sorted(f for f in files if f in bad or f not in exists)
            try:
                routine(t)
            except Exception as e:
                require(wrong, "load-refused", lambda: f"{routine.__name__}({t}): every file is intact, but {e!r}")
                w.probe("damaged files refused by load routines", 1)
            else:
                require(not wrong, "load-silent", lambda: f"{routine.__name__}({t}) loaded, but {wrong} are damaged or missing")
                for f, gfu in files.items():
                    require(runs.same(model.vec(gfu), truth[f][0]), "load-wrong", lambda: f"{routine.__name__}({t}): {f} has other values")
            for f, gfu in files.items():
                got = model.vec(gfu)
                require(bool(np.all(got == -7.5)) or f not in wrong and runs.same(got, truth[f][0]), "load-partial",
                        lambda: f"{routine.__name__}({t}): {f} was refused, but has changed the gridfunction")
            if wrong and routine == io.load_routine:
                require(bool(np.all(model.vec(cfg.gfu) == -7.5)), "load-partial", lambda: f"{routine.__name__}({t}) failed, but changed the state")
