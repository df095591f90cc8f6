"""C15: every output lands in the folder that is configured for it, whatever was reconfigured, moved or removed before."""
import os
import shutil
from pathlib import PurePosixPath as P

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal

QUICK = 10000
THOROUGH = 90000
RULE = ("a seeded history of up to 12 acts on one solver: set root or an output folder (relative, nested, absolute, inside another "
        "one, to the current directory, by attribute or update), change the process's working directory, remove or pre-create folders, "
        "let another process win the race for creating one, fail their creation, run with a seeded set of streams, also removing the states folder "
        "between two steps; after every act the configured folders, and after every run the set of files on disk, are compared with a "
        "small model; non-trivial: a folder was changed before a run")
MEASURE = "distinct (kind of act, folder, kind of path, streams, fault, outcome) situations"
REAL = "path configuration, IOFolders, path properties of all streams, IOConfiguration, TransientConfig, files on scratch disk"
STUB = "weak form of the model solver"
ASSUMPTIONS = ["folder names without '..' and links", "an output folder above the root folder is not moved any more", "open VTK and sensor files keep their place when their folder is removed during a run"]

KEYS = ("root", "states", "vtk", "settings", "sensors")
NAMES = ("a", "b", "a/b", "out", "out/x", "states", "b/states", "vtk", "deep/er/est", ".")


def gen(rng, tier, i):
    acts = []
    for _ in range(rng.randint(2, 9)):
        x = rng.random()
        if x < 0.5:
            acts.append({"do": "set", "key": rng.choice(KEYS + ("root",)), "name": rng.choice(NAMES), "abs": rng.random() < 0.4,
                         "via": rng.choice(("attr", "update", "item")), "cwd": rng.random() < 0.08, "path": rng.random() < 0.3})
        elif x < 0.58:
            acts.append({"do": "chdir", "name": rng.choice(NAMES[:6])})
        elif x < 0.66:
            acts.append({"do": rng.choice(("remove", "create")), "key": rng.choice(KEYS)})
        elif x < 0.7:
            acts.append({"do": "folders", "name": rng.choice(("single", "benchmark"))})
        else:
            acts.append(run_act(rng))
    acts.append(run_act(rng))
    return {"sys": G.system(rng, nonlinear=False), "acts": acts}


def run_act(rng):
    act = {"do": "run", "streams": rng.sample(["gfu", "vtk", "settings", "sensor", "ngsmesh", "log"], rng.randint(1, 4)), "n": rng.randint(1, 3),
           "faults": [], "vanish": None, "prefix": rng.choice(("x", "y")), "keep": rng.random() < 0.6}
    x = rng.random()
    if x < 0.25:
        act["faults"] = [{"on": "mkdir", "op": rng.randint(1, 6), "kind": rng.choice(("race", "race", "eacces", "enospc"))}]
    elif x < 0.45:
        act["vanish"] = rng.randint(0, 2)
    return act


def run(w, s):
    home = os.path.join(w.root, "home")
    os.mkdir(home)
    os.chdir(home)
    cfg = runs.build(s["sys"], {"start": "0", "step": "0.1", "n": 1})
    m = {"root": P(home), **{k: P(home) / v for k, v in (("states", "states"), ("vtk", "vtk"), ("settings", "cfg"), ("sensors", "sensors"))}}
    cwd = P(home)
    changed = False
    for k, act in enumerate(s["acts"]):
        what = f"act {k} {act}"
        if act["do"] == "set":
            legal(act["key"] in KEYS and act["name"])
            value = str(P(w.root) / "other" / act["name"]) if act["abs"] else act["name"]
            if act["cwd"]:
                value = None
            if act["key"] != "root" and m["root"] != m[act["key"]] and m["root"].is_relative_to(m[act["key"]]):
                continue        # an output folder above the root folder: nothing is promised for what moves along with it
            if act["path"] and value is not None:
                import pathlib
                value = pathlib.Path(value)
            key = act["key"]
            new = cwd if value is None else P(value) if P(value).is_absolute() else m["root"] / P(value)
            if act["via"] == "attr":
                setattr(cfg.io.folders, key, value)
            elif act["via"] == "item":
                cfg.io.folders[key] = value
            else:
                cfg.io.update({"folders": {key: value}})
            old, m[key] = m[key], new
            for other in KEYS:
                if other != key and (key == "root" or old != m["root"]) and m[other].is_relative_to(old) and other != "root":
                    m[other] = new / m[other].relative_to(old)
            changed = True
            w.state("set", key, act["name"], act["abs"], act["cwd"], act["via"])
        elif act["do"] == "chdir":
            with w.quiet():
                target = P(w.root) / "home" / act["name"]
                os.makedirs(target, exist_ok=True)
                os.chdir(target)
            cwd = target
        elif act["do"] == "folders":
            old = type(cfg.io.folders).__name__
            cfg.io.folders = act["name"]
            if type(cfg.io.folders).__name__ != old:
                m = {"root": cwd, **{f: cwd / v for f, v in (("states", "states"), ("vtk", "vtk"), ("settings", "cfg"), ("sensors", "sensors"))}}
        elif act["do"] in ("remove", "create"):
            path = m[act["key"]]
            with w.quiet():
                if act["do"] == "create":
                    os.makedirs(path, exist_ok=True)
                elif not cwd.is_relative_to(path) and str(path) != w.root:
                    shutil.rmtree(path, ignore_errors=True)
            w.state(act["do"], act["key"])
        else:
            one_run(w, cfg, act, m, what)
            if changed:
                w.probe("nontrivial")
        got = {key: str(cfg.io.folders[key]) for key in KEYS}
        require(got == {key: str(v) for key, v in m.items()}, "folder", lambda: f"{what}: { {key: (got[key], str(m[key])) for key in KEYS if got[key] != str(m[key])} } (got, due)")
        w.note(act["do"], {key: os.path.relpath(v, w.root) for key, v in got.items()})
        with w.quiet():
            dirs = {str(p) for p in cfg.io.folders.get_directory_paths()}
            real = {os.path.join(m["root"], d) for d in runs.listing(str(m["root"])) if os.path.isdir(os.path.join(m["root"], d))}
            require(dirs == real, "directory-list", lambda: f"{what}: {dirs} instead of {real}")
            for start in ("", "s", "out"):
                names = sorted(cfg.io.folders.get_directory_names(start))
                want = sorted(os.path.basename(d) for d in real if os.path.basename(d).startswith(start))
                require(names == want, "directory-list", lambda: f"{what}: {names} instead of {want}")
    # the solver is dropped with its log file
    cfg.io.log.to_file = False


def snapshot(root):
    out = {}
    for base, _, names in os.walk(root):
        for name in names:
            path = os.path.join(base, name)
            st = os.stat(path)
            out[path] = (st.st_mtime_ns, st.st_size, st.st_ino)
    return out


def one_run(w, cfg, act, m, what):
    legal(act["n"] >= 1 and act["streams"])
    px = act["prefix"]
    field = {"U": cfg.parts[0]}
    for name in ("gfu", "vtk", "settings", "sensor", "ngsmesh"):
        if name not in act["streams"]:
            setattr(cfg.io, name, False)
        else:
            runs.enable(cfg, name, act["keep"])
            cfg.io[name].filename = px + name
    if "vtk" in act["streams"]:
        cfg.io.vtk.fields, cfg.io.vtk.subdivision = field, 0
    if "sensor" in act["streams"]:
        cfg.io.sensor.domain.clear()
        cfg.io.sensor.domain = px + "d"
        cfg.io.sensor.domain[px + "d"].fields = field
    g = {"start": "0", "step": "0.1", "n": act["n"]}
    cfg.time.timer.interval, cfg.time.timer.step = runs.interval_of(g), 0.1
    cfg.time.set_initial_conditions()
    with w.quiet():
        for path in snapshot(w.root):        # all that is found afterwards is from this run
            os.remove(path)
    w.arm([])
    cfg.io.log.filename = px + "log"
    outcome = "done"
    vanished = []

    def body(i, t):
        if act["vanish"] == i:
            with w.quiet():
                if os.path.isdir(m["states"]) and not any(P(x).is_relative_to(m["states"]) for x in [os.getcwd()] + [m[k] for k in KEYS if k != "states"]):
                    shutil.rmtree(m["states"])
                    vanished.append(i)
                    w.fired["folder removed"] += 1

    w.arm(act["faults"])
    try:
        if "log" in act["streams"]:
            cfg.io.log.to_file = True
        h = runs.drive(w, cfg, body=body)
        outcome = h.outcome
    except OSError as e:
        outcome = "oserror"
    w.arm([])
    if "log" in act["streams"]:
        cfg.io.log.to_file = False

    w.simtime += 0.1 * act["n"]
    with w.quiet():
        found = set(snapshot(w.root))
    times = [0.0] + runs.labels_of(g)
    due = set()
    j = lambda key, name: str(m[key] / name)        # noqa: E731
    if "gfu" in act["streams"]:
        first = times[vanished[0] + 1] if vanished else -1
        due |= {j("states", f"{px}gfu_{t}.ngs") for t in times if t >= first}
        if not vanished:
            due |= {j("states", f"{px}gfu_{t}_{var}_{lv}.ngs") for t in times[:2] for var in cfg.time.scheme.gfus for lv in cfg.time.scheme.time_levels}
        elif vanished[0] == 0:
            due |= {j("states", f"{px}gfu_{t}_{var}_{lv}.ngs") for t in times[1:2] for var in cfg.time.scheme.gfus for lv in cfg.time.scheme.time_levels}
    if "vtk" in act["streams"]:
        due |= {j("vtk", f"{px}vtk{x}") for x in [".pvd", ".vtu"] + [f"_step{k:05d}.vtu" for k in range(1, act["n"] + 1)]}
    if "settings" in act["streams"]:
        due |= {j("settings", f"{px}settings.{e}") for e in ("pickle", "txt")}
    if "sensor" in act["streams"]:
        due.add(j("sensors", px + "d.csv"))
    if "ngsmesh" in act["streams"]:
        due.add(j("root", px + "ngsmesh.pickle"))
    if "log" in act["streams"]:
        due.add(j("root", px + "log.log"))
    w.state("run", sorted(act["streams"]), outcome, [f["kind"] for f in act["faults"]], bool(vanished))
    failed = [e for e in w.fired if e.startswith(("eacces", "enospc"))]
    if outcome == "done":
        require(found == due, "files", lambda: f"{what}: missing {sorted(due - found)}, unexpected {sorted(found - due)}")
    else:
        require(failed, "spurious-error", lambda: f"{what}: {outcome}")
        require(found <= due, "files", lambda: f"{what}: unexpected {sorted(found - due)}")
