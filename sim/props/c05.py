"""C05: playing back a recorded run."""
import os

import numpy as np

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal, scheduled

QUICK = 8000
THOROUGH = 150000
RULE = ("a recorded model run (rate, filename, grid seeded; maybe killed or left early) is played back by a second solver, with a seeded "
        "sleep between states, after the run, or while it is still going on: the player takes steps at seeded points of the writer, "
        "including the middle of a file being written; playbacks may be left early and repeated; non-trivial: writer and player "
        "interleaved, or an incomplete recording, or a rate above 1")
MEASURE = "distinct (steps, rate, where the player was scheduled, outcome, number played) situations"
REAL = "GridfunctionStream.load_transient_routine and save side, Timer, TransientConfig, NGSolve files on scratch disk"
STUB = "weak form of the model solver; time.sleep is a virtual clock; writer and player share one process"
ASSUMPTIONS = ["writer and player are configured with the same interval, step, rate and filename"]


def gen(rng, tier, i):
    g = G.grid(rng, nmax=9, digits=rng.choice((4, 7)))
    mode = rng.choice(("after", "after", "during", "during", "restart"))
    s = {"sys": G.system(rng), "grid": g, "rate": rng.choice((1, 1, 2, 3, 4, 9)), "name": rng.choice(("gfu", "rec")),
         "sleep": rng.choice((0, 0, 0.5, 3)), "mode": mode, "leave": None, "faults": [], "schedule": [], "early": None,
         "reuse": rng.random() < 0.5}
    x = rng.random()
    if x < 0.2:
        s["leave"] = [rng.randint(0, g["n"] - 1), rng.choice(("close", "abort", "crash"))]
    elif x < 0.4:
        s["faults"] = [{"on": "save", "op": rng.randint(1, 3 + g["n"]), "kind": "crash", "frac": rng.choice((0., .4, .8))}]
    if mode == "during":
        s["schedule"] = [{"save": rng.randint(0, 4 + 2 * g["n"]), "frac": rng.choice((0.0, 0.3, 0.6, 1.0)),
                          "steps": rng.randint(1, 3)} for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.3:
        s["early"] = rng.randint(0, 3)
    return s


class Player:
    """A user's playback loop that can be advanced one state at a time"""

    def __init__(self, w, s, truth, cfg=None):
        self.w, self.s, self.truth = w, s, truth
        self.cfg = cfg if cfg is not None else runs.build(s["sys"], s["grid"])
        self.cfg.io.gfu = True
        self.cfg.io.gfu.filename, self.cfg.io.gfu.rate = s["name"], s["rate"]
        g = s["grid"]
        labels = runs.labels_of(g)
        self.want = [labels[i] for i in scheduled(g["n"], s["rate"])]
        self.played = []
        self.failed = None
        self.t0 = w.clock
        self.it = self.cfg.io.gfu.load_transient_routine(sleep=s["sleep"])

    def step(self):
        """Returns True if a state was played"""
        before = model.vec(self.cfg.gfu)
        clock = self.w.clock
        try:
            t = next(self.it)
        except StopIteration:
            self.failed = "end"
            return False
        except Exception as e:
            self.failed = type(e).__name__
            require(runs.same(before, model.vec(self.cfg.gfu)), "play-partial",
                    lambda: f"playback stopped with {e!r}, but has changed the state")
            return False
        k = len(self.played)
        self.played.append(t)
        require(k < len(self.want) and t == self.want[k], "play-order", lambda: f"state {k} played is {t}, not {self.want[k:k + 1]}")
        require(t in self.truth, "play-ahead", lambda: f"{t} was played, but has not been saved yet")
        require(runs.same(model.vec(self.cfg.gfu), self.truth[t]), "play-wrong", lambda: f"{t} was played with a wrong state")
        tt = self.cfg.time.timer.t.Get()
        require(abs(tt - t) <= 1e-9 * max(1e-3, float(self.s["grid"]["step"])) + 1e-15 * t, "play-timer", lambda: f"timer.t={tt!r} while {t} is played")
        pause = self.s["sleep"] if k else 0
        require(abs(self.w.clock - clock - pause) < 1e-9, "play-sleep",
                lambda: f"{self.w.clock - clock} s before state {k} instead of {pause}")
        return True

    def run(self, limit=None):
        while limit is None or limit > 0:
            if not self.step():
                return
            if limit is not None:
                limit -= 1


def run(w, s):
    g = s["grid"]
    legal(g["n"] >= 1 and s["rate"] >= 1)
    writer = runs.build(s["sys"], g)
    writer.io.gfu = True
    writer.io.gfu.filename, writer.io.gfu.rate = s["name"], s["rate"]
    truth, pending, players, nsave = {}, {}, [], [0]
    labels = runs.labels_of(g)
    due = {labels[i] for i in scheduled(g["n"], s["rate"])}
    w.arm(s["faults"])

    def schedule(filename, real):
        """The player gets the processor while a file is being written"""
        todo = [x for x in s["schedule"] if x["save"] == nsave[0]]
        for x in todo:
            if not players or players[-1].failed:
                players.append(Player(w, s, truth))
            with w.quiet():
                existed = os.path.exists(filename)
                if not existed:
                    size = int(x["frac"] * 8 * writer.gfu.vec.size) // 8 * 8 if "_U_" not in filename else 0
                    core._limited(size, real)
                    if x["frac"] >= 1:
                        truth.update(pending)       # the whole file is there, only the call has not returned yet
            w.fired["preempted@save"] += 1
            w.note("player", nsave[0], x["frac"], x["steps"])
            p = players[-1]
            start = len(p.played)
            p.run(x["steps"])
            w.note("played", p.played[start:], p.failed)
            with w.quiet():
                if not existed and os.path.exists(filename):
                    os.unlink(filename)

    def on_save(gfu, filename, real):
        name = os.path.basename(filename)[:-4]
        for t in due:
            if name == f"{s['name']}_{t}":
                pending[t] = model.vec(gfu)
        if s["mode"] == "during":
            schedule(filename, real)
        nsave[0] += 1

    def body(i, t):
        for k in [k for k in pending if k < t]:
            truth[k] = pending.pop(k)

    # during: a state counts as saved once its save has returned, that is, when the next one is begun, or the next step
    def on_save_done():
        truth.update(pending)
        pending.clear()

    def on_save_(gfu, filename, real):
        on_save_done()
        on_save(gfu, filename, real)

    w.on_save = on_save_
    h = runs.drive(w, writer, body=body, stop_after=s["leave"])
    w.on_save = None
    if h.outcome == "done":
        truth.update(pending)
    elif s["leave"]:
        truth.update(pending)
    broken = any(e[0] == "cut" for e in w.events)
    w.simtime += float(g["step"]) * len(h.labels)
    w.note("writer", h.outcome, sorted(truth))

    # the recording, played once the writer is gone
    reuse = writer if s["reuse"] and h.outcome != "crash" else None
    if h.outcome == "crash":
        writer = None
        w.reboot()
    with w.quiet():
        have = set(runs.listing(os.path.join(w.root, "states")))
    if s["early"] is not None:
        p = Player(w, s, truth, reuse)
        p.run(s["early"])
        if s["early"] % 2:
            p.it.close()
        reuse = p.cfg
        del p
    p = Player(w, s, truth, reuse)
    clock = w.clock
    p.run()
    complete = [t for t in p.want if t in truth]
    complete = p.want[:next((i for i, t in enumerate(p.want) if t not in truth), len(p.want))]
    if h.outcome == "done":
        require(p.failed == "end" and p.played == p.want, "play-incomplete",
                lambda: f"{g} rate {s['rate']}: played {p.played} of {p.want}, then {p.failed}")
        require(abs(w.clock - clock - s["sleep"] * len(p.want)) < 1e-9, "play-sleep", "slept a wrong time")
    else:
        require(p.played == complete, "play-incomplete", lambda: f"played {p.played} of {complete} recorded, then {p.failed}")
        if len(complete) < len(p.want):
            require(p.failed != "end", "play-silent", lambda: f"the recording ends after {complete[-1:]}, but playback ended normally")
    if s["rate"] > 1 or h.outcome != "done" or players:
        w.probe("nontrivial")
    w.probe("states played", sum(len(x.played) for x in players + [p]))
    w.state(g["n"], s["rate"], h.outcome, tuple(len(x.played) for x in players), tuple(x.failed for x in players), p.failed,
            len(p.played), broken)
