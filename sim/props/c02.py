"""C02: the files of the gridfunction stream."""
import os

from sim import gen as G, runs, core
from sim.core import require
from sim.model import legal, scheduled

QUICK = 12000
THOROUGH = 100000
RULE = ("a seeded model run with gridfunction output (rate, time level rate, filename, scheme, grid), up to two lives in the same "
        "folder, each with at most two faults (crash with the file being written torn, Ctrl-C, exception in the loop body, early "
        "exit) at a seeded operation; non-trivial: a rate above 1 or a life that ended early")
MEASURE = "distinct (scheme, steps, rate, time level rate, outcome, step reached) situations"
REAL = "GridfunctionStream, IOConfiguration, TransientConfig, schemes, Newton solver, NGSolve files on a real (scratch) disk"
STUB = "weak form of the model solver; the crash is simulated in-process (files keep what reached write(2))"
ASSUMPTIONS = ["a killed process loses nothing that it handed to the kernel (no power failure)"]


def gen(rng, tier, i):
    lives = []
    for k in range(rng.randint(1, 3 if tier == "quick" else 4)):
        g = G.grid(rng, nmax=7, simple=rng.random() < 0.6, digits=7)
        x = rng.random()
        faults, leave = [], None
        if x < 0.35:
            faults = [G.file_fault(rng, 3 * g["n"] + 4, ("crash", "crash", "interrupt"))]
        elif x < 0.6:
            leave = [rng.randint(0, 6), rng.choice(("close", "drop", "abort", "interrupt", "crash"))]
        lives.append({"grid": g, "rate": rng.choice((1, 1, 2, 3, 4, 7)), "tlr": rng.choice((1, 2, 3, 100)),
                      "name": rng.choice(("gfu", "gfu", "state", "a_b")), "faults": faults, "leave": leave,
                      "others": rng.random() < 0.2, "fresh": rng.random() < 0.6, "keep": rng.random() < 0.6, "off": rng.random() < 0.06})
    return {"sys": G.system(rng), "lives": lives}


def state_name(name, t):
    return f"{name}_{t}.ngs"


def level_name(name, t, fes, level):
    return f"{name}_{t}_{fes}_{level}.ngs"


def run(w, s):
    disk = {}           # what has to be there: name -> vector
    torn = set()        # names that an earlier life may have left broken
    free = set()        # names that are neither required nor forbidden
    nontrivial = False
    cfg = None
    for k, life in enumerate(s["lives"]):
        g = life["grid"]
        legal(g["n"] >= 1 and life["rate"] >= 1 and life["tlr"] >= 1)
        if cfg is None or life["fresh"] or crashed:
            if cfg is not None:
                cfg = None
                w.reboot()
            cfg = runs.build(s["sys"], g)
        else:
            cfg.time.timer.interval, cfg.time.timer.step = runs.interval_of(g), float(g["step"])
            cfg.time.set_initial_conditions()
        if life.get("off"):
            if life["others"]:
                cfg.io.settings = cfg.io.ngsmesh = True
            crashed = runs.without(w, cfg, life, "gfu", os.path.join(w.root, "states")).outcome == "crash"
            w.crashed = False
            continue
        runs.enable(cfg, "gfu", life["keep"])
        cfg.io.gfu.filename = life["name"]
        runs.refuse(cfg.io.gfu, "rate", life["rate"])
        runs.refuse(cfg.io.gfu, "time_level_rate", life["tlr"])
        cfg.io.gfu.rate, cfg.io.gfu.time_level_rate = life["rate"], life["tlr"]
        if life["others"]:
            cfg.io.settings = True
            cfg.io.ngsmesh = True
        start = float(g["start"])
        pre = runs.snapshot(cfg)
        w.arm(life["faults"])
        h = runs.drive(w, cfg, stop_after=life["leave"])
        w.simtime += float(g["step"]) * len(h.labels)
        crashed = h.outcome == "crash"
        w.crashed = False
        check(w, cfg, life, g, start, pre, h, disk, torn, free)
        w.state(s["sys"]["scheme"], g["n"], life["rate"], life["tlr"], h.outcome, len(h.labels))
        nontrivial |= life["rate"] > 1 or h.outcome != "done"
    if nontrivial:
        w.probe("nontrivial")


def check(w, cfg, life, g, start, pre, h, disk, torn, free):
    """Bring the expected disk up to date with one life, and compare"""
    name, rate, tlr = life["name"], life["rate"], life["tlr"]
    snaps = {start: pre, **{t: (h.states[t], h.levels[t]) for t in h.labels}}
    writes = []         # in order: (file, vector), what this life had to write, whole or in part

    def due(t, state, levels):
        vec, lev = snaps[t]
        out = []
        if levels:
            out += [(level_name(name, t, f, l), lev[f, l]) for f, l in lev]
        if state:
            out.append((state_name(name, t), vec))
        return out

    writes.append(due(start, True, True))
    for it, t in enumerate(h.labels):
        writes.append(due(t, it % rate == 0, it % tlr == 0))
    n = len(h.labels)
    if h.outcome == "done":
        if (n - 1) % rate:
            writes.append(due(h.labels[-1], True, False))
            # the closing save may bring its time levels along
            free.update(f for f, _ in due(h.labels[-1], False, True) if f not in dict(sum(writes, [])))
        complete = len(writes)
    else:
        # the files of every step before the one that was left, and nothing of that step, unless its writing was hit
        complete = n
    done = dict(sum(writes[:complete], []))
    maybe = {}
    if h.outcome != "done" and life["leave"] is None:
        maybe = dict(sum(writes[complete:], []))
        if n == g["n"]:
            maybe.update(due(h.labels[-1], True, True))
    disk.update(done)
    torn.difference_update(done)
    free.difference_update(done)
    with w.quiet():
        folder = os.path.join(w.root, "states")
        have = set(runs.listing(folder))
        # of the files of the step that was hit, one may be incomplete; the others are old or new
        broken = []
        for f, new in maybe.items():
            old = disk.get(f)
            if f in have and f not in torn and f not in free:
                got = read(cfg, os.path.join(folder, f), new)
                if got is None or not (runs.same(got, new) or old is not None and runs.same(got, old)):
                    broken.append(f)
        require(len(broken) <= 1, "state-wrong", lambda: f"{life}: {broken} do not hold the recorded states ({h.outcome} at {h.labels[-1:]})")
        torn.update(maybe)
        missing = set(f for f in disk if f not in torn) - have
        require(not missing, "state-missing", lambda: f"{life}: {sorted(missing)} missing after {h.outcome} at {h.labels[-1:]}")
        stray = have - set(disk) - torn - free
        require(not stray, "state-stray", lambda: f"{life}: {sorted(stray)} was not due ({h.outcome} at {h.labels[-1:]})")
        for f in sorted(have):
            if f in disk and f not in torn and f not in free:
                vec = disk[f]
                path = os.path.join(folder, f)
                got = read(cfg, path, vec)
                require(got is not None and runs.same(got, vec), "state-wrong",
                        lambda: f"{life}: {f} does not hold the recorded state ({h.outcome} at {h.labels[-1:]})")
    w.note("disk", sorted(have))


def read(cfg, path, vec):
    if os.path.getsize(path) != vec.nbytes:
        return None
    return runs.load_file(cfg, path, cfg.fes if vec.size == cfg.fes.ndof else cfg.spaces["U"])
