"""C01: the time grid over any history of configuring, running, stopping and running again."""
from decimal import Decimal

from sim import gen as G, model, runs
from sim.core import require, SimInterrupt
from sim.model import legal

QUICK = 15000
THOROUGH = 120000
RULE = ("a seeded history of up to 7 acts on one solver (set a new grid by attribute, dictionary or call; complete runs; "
        "runs left by break, exception, Ctrl-C inside a solve or in the loop body; to_array with strides, also from inside "
        "a running loop); non-trivial: at least one run was left early or the grid was changed between two runs")
MEASURE = "distinct (act kind, digits of start, digits of step, steps, outcome) situations"
REAL = "Timer, TransientConfig, schemes, Newton solver, io layer, NGSolve 1-thread"
STUB = "weak form of the model solver (two cell-wise fields)"
ASSUMPTIONS = ["interval lengths are whole multiples of the step, both with at most 11 decimals and 15 significant digits",
               "one running loop per timer at a time"]


def gen(rng, tier, i):
    acts = []
    for _ in range(rng.randint(2, 5 if tier == "quick" else 9)):
        x = rng.random()
        if x < 0.35 or not acts:
            acts.append({"do": "set", "grid": G.grid(rng, nmax=6, digits=5), "via": rng.choice(
                ("attr", "attr-step-first", "dict", "update", "only-step", "only-interval"))})
        elif x < 0.55:
            acts.append({"do": "array", "stride": rng.choice((1, 1, 1, 2, 3, 5)), "start": rng.random() < 0.5,
                         "grid": {**G.grid(rng, digits=5), "n": rng.choice((1, 2, 15, 60, 300, 1500 if rng.random() < .2 else 9))}})
        else:
            acts.append({"do": "run", "leave": rng.choice((None, None, "close", "drop", "abort", "interrupt", "solve")),
                         "at": rng.randint(0, 5), "peek": rng.random() < 0.3, "reassemble": rng.random() < 0.8})
    acts.append({"do": "run", "leave": None, "at": 0, "peek": rng.random() < 0.3, "reassemble": True})
    return {"sys": G.system(rng, nonlinear=False), "grid": G.grid(rng, nmax=6, digits=5), "acts": acts,
            "gfu": rng.random() < 0.5}


def set_grid(timer, g, via, now):
    interval, step = runs.interval_of(g), float(g["step"])
    if via == "only-step":
        # keep the interval: a step that divides it
        step = Decimal(now["step"]) / 2
        timer.step = float(step)
        return {"start": now["start"], "step": G.dec(step), "n": now["n"] * 2}
    if via == "only-interval":
        a = Decimal(g["start"])
        b = a + Decimal(now["step"]) * g["n"]
        timer.interval = (float(a), float(b))
        return {"start": g["start"], "step": now["step"], "n": g["n"]}
    if via == "attr":
        timer.interval, timer.step = interval, step
    elif via == "attr-step-first":
        timer.step = step
        timer.interval = interval
    elif via == "dict":
        timer["interval"], timer["step"] = interval, step
    else:
        timer.update({"interval": interval, "step": step})
    return g


def run(w, s):
    g = s["grid"]
    legal(g["n"] >= 1)
    cfg = runs.build(s["sys"], g)
    if s["gfu"]:
        cfg.io.gfu = True
    timer = cfg.time.timer
    changed = left = 0
    for act in s["acts"]:
        if act["do"] == "set":
            legal(act["grid"]["n"] >= 1)
            if len(str(Decimal(g["step"]) / 2)) > 13 and act["via"] == "only-step":
                continue
            g = set_grid(timer, act["grid"], act["via"], g)
            changed += 1
            w.state("set", act["via"])
        elif act["do"] == "array":
            a = act["grid"]
            legal(a["n"] >= 1 and act["stride"] >= 1)
            n = a["n"] - a["n"] % act["stride"] or act["stride"]
            a = {**a, "n": n}
            g = set_grid(timer, a, "attr", g)
            k = n // act["stride"]
            want = model.timeline(a["start"], G.dec(Decimal(a["step"]) * act["stride"]), k)
            if act["start"]:
                want = [float(a["start"])] + want
            got = timer.to_array(include_start=act["start"], stride=act["stride"]).tolist()
            require(got == want, "time-grid", lambda: f"{a} stride {act['stride']}: {diff(got, want)}")
            w.state("array", a["n"], act["stride"], act["start"])
            changed += 1
            g = {**a, "n": min(n, 6)}           # the runs below are short
            timer.interval = runs.interval_of(g)
        else:
            left += one_run(w, cfg, timer, g, act)
    if changed or left:
        w.probe("nontrivial")


def diff(got, want):
    if len(got) != len(want):
        return f"{len(got)} times instead of {len(want)}"
    i = next(i for i, (a, b) in enumerate(zip(got, want)) if a != b)
    return f"time {i} is {got[i]!r} instead of {want[i]!r}"


def one_run(w, cfg, timer, g, act):
    if not act["reassemble"] and not hasattr(cfg.time.scheme, "blf"):
        act = {**act, "reassemble": True}
    want = runs.labels_of(g)
    leave, at = act["leave"], min(act["at"], g["n"] - 1)
    cfg.time.set_initial_conditions()
    seen = []
    count = [0]

    def on_apply(*a):
        t = timer.t.Get()
        k = len(seen)
        require(k < len(want) and abs(t - want[k]) <= 1e-9 * max(1e-3, float(g["step"])) + 1e-15 * t, "time-during-solve",
                lambda: f"{g}: step {k} is solved at timer.t={t!r}, not at {want[k:k + 1]}")
        if leave == "solve" and k == at:
            w.fired["interrupt@solve"] += 1
            raise SimInterrupt()

    def body(i, t):
        seen.append(t)
        tt = timer.t.Get()
        require(i < len(want) and t == want[i], "time-label",
                lambda: f"{g}: step {i} is labelled {t!r} instead of {want[i:i + 1]}")
        require(abs(tt - t) <= 1e-9 * max(1e-3, float(g["step"])) + 1e-15 * t, "timer-t", lambda: f"{g}: timer.t={tt!r} in step {t!r}")
        w.simtime += float(g["step"])
        if act["peek"]:
            got = timer.to_array().tolist()
            require(got == want, "time-grid", lambda: f"{g} from inside the loop: {diff(got, want)}")

    w.on_apply = on_apply
    try:
        h = runs.drive(w, cfg, body=body, stop_after=(at, leave) if leave not in (None, "solve") else None,
                       reassemble=act["reassemble"])
    finally:
        w.on_apply = None
    w.note("run", g["start"], g["step"], g["n"], leave, seen)
    w.state("run", leave, len(g["start"]), len(g["step"]), g["n"], at)
    if leave is None:
        require(h.outcome == "done", "run-ended", lambda: f"run was {h.outcome}")
        require(seen == want, "time-grid", lambda: f"{g}: {diff(seen, want)}")
    else:
        k = at if leave == "solve" else at + 1
        require(seen == want[:k], "time-grid", lambda: f"{g}: left in step {at}, saw {seen}")
    return leave is not None
