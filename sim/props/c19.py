"""C19: every log record reaches every enabled destination exactly once, in order and at once."""
import gc
import io
import logging
import os
import re
import sys

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal

QUICK = 6000
THOROUGH = 250000
RULE = ("a seeded history of switching the log file and terminal on and off (also twice), changing level, file name and root folder, replacing or "
        "removing the log stream, replacing the solver, logging and running - with the same actions also within a run - while writes to the log "
        "file fail, are short, are interrupted or the process is killed and restarted, and while the terminal is broken; after every action every "
        "log file ever used and the terminal hold exactly the records due, and only the enabled file is open; non-trivial: a destination was switched")
MEASURE = "distinct (action, level, destinations, faults so far, within a run) situations"
REAL = "LogStream, stream and interface descriptors, logging of the standard library, Newton solver's records"
STUB = "weak form of the model solver; the terminal is an object in memory"
ASSUMPTIONS = ["one live solver at a time (the logger is shared by design)", "records are single lines",
               "only a record whose own write fails, is interrupted or killed may be torn or missing"]

LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40}


def action(rng, within=False):
    x = rng.random()
    if x < 0.22:
        return ["file", rng.random() < 0.7]
    if x < 0.34:
        return ["terminal", rng.random() < 0.6]
    if x < 0.44:
        return ["level", rng.choice(sorted(LEVELS)), rng.random() < 0.5]
    if x < 0.54:
        return ["filename", rng.choice(("a", "b"))]
    if x < 0.6:
        return ["root", rng.choice(("x", "y"))]
    if x < 0.72:
        return ["emit", rng.choice(sorted(LEVELS)), rng.randint(1, 3)]
    if x < 0.78:
        return ["log", rng.random() < 0.6]
    if within:
        return ["emit", "ERROR", 1]
    if x < 0.83:
        return ["new", rng.random() < 0.5]
    if x < 0.86:
        return ["kill"]
    if x < 0.89:
        return ["broken", rng.random() < 0.6]
    n = rng.randint(1, 3)
    return ["run", n, [[rng.randint(0, n - 1), action(rng, True)] for _ in range(rng.choice((0, 0, 1, 2)))]]


def gen(rng, tier, i):
    acts = []
    for _ in range(rng.randint(2, 12)):
        a = {"do": action(rng), "faults": []}
        if rng.random() < 0.18:
            a["faults"] = [{"op": rng.randint(1, 6), "kind": rng.choice(("enospc", "eio", "short", "interrupt", "crash", "emfile")),
                            "frac": rng.choice((0.0, 0.3, 0.5, 1.0)), "sticky": rng.random() < 0.2}]
            if rng.random() < 0.4:
                a["faults"][0].update(on="open", op=1)
        acts.append(a)
    return {"acts": acts, "it": rng.choice((2, 3, 1)), "time": rng.choice(("transient", "pseudo")), "dirs": rng.random() < 0.5,
            "src": rng.choice((1.0, 2.5)), "crit": rng.choice((1e-30, 1e-30, 1e-3, 1.0))}


class Terminal(io.StringIO):

    broken = False

    def write(self, text):
        if self.broken:
            raise BrokenPipeError(32, "terminal is gone (injected)")
        return super().write(text)


class Due(logging.Handler):
    """What is due where: sees every record that passes the logger"""

    def __init__(self, w, term):
        super().__init__()
        self.w, self.term = w, term
        self.files, self.shown = {}, []
        self.path, self.terminal, self.level = None, True, 20
        self.count = self.residuals = 0

    def emit(self, record):
        msg = record.getMessage()
        self.count += 1
        self.residuals += msg.startswith("residual:")
        require(record.levelno >= self.level, "level", lambda: f"{record.levelname} record {msg!r} at level {self.level}")
        if self.path is not None:
            self.files[self.path].append([msg, len(self.w.events)])
        if self.terminal and not self.term.broken:
            self.shown.append([msg, len(self.w.events)])


def fits(lines, due):
    """Do the lines hold the records, where doubtful ones (msg, False) may be missing or torn?"""
    reach = {0}
    for msg, sure in due:
        new = set() if sure else set(reach)
        for i in reach:
            if i < len(lines) and (not sure or re.fullmatch(r".*\| " + re.escape(msg) + r"( \(\S+:\d+\))?", lines[i])):
                new.add(i + 1)
        reach = new
    return len(lines) in reach


class Story:

    def __init__(self, w, s):
        self.w, self.s = w, s
        self.term = Terminal()
        self.keep = sys.stderr, logging.raiseExceptions
        sys.stderr, logging.raiseExceptions = self.term, False
        self.due = Due(w, self.term)
        self.logger = logging.getLogger("dream")
        # first of all handlers: what it sees is what is about to be written
        self.logger.addHandler(self.due)
        self.filename, self.root, self.on = "dream", w.root, True
        self.cfg = None
        self.at = 0
        self.new(False)

    def end(self):
        self.cfg = None
        self.logger.removeHandler(self.due)
        sys.stderr, logging.raiseExceptions = self.keep

    # -- actions
    def new(self, overlap):
        old, self.cfg = self.cfg, None
        if not overlap:
            old = None
            gc.collect()
        mesh = runs.mesh_of("square")
        cfg = model.ode(mesh, [1.0], [self.s["src"]], {}, time=self.s["time"], interval=(0.0, 0.1), step=0.1, quiet=False,
                        newton={"max_iterations": self.s["it"], "convergence_criterion": self.s["crit"]})
        if self.s["time"] == "pseudo":
            cfg.time.max_time_step = 1e-9
        cfg.initialize()
        old = None
        gc.collect()
        self.cfg = cfg
        self.filename, self.root, self.on = "dream", self.w.root, True
        self.due.path, self.due.terminal, self.due.level = None, True, 20

    def file(self, on):
        if not self.on:
            return
        try:
            self.cfg.io.log.to_file = on
        finally:
            self.due.path = None
        if on:
            self.due.path = os.path.join(self.root, self.filename + ".log")
            self.due.files.setdefault(self.due.path, [])

    def terminal(self, on):
        if self.on:
            self.cfg.io.log.to_terminal = on
            self.due.terminal = on

    def level(self, name, number):
        if self.on:
            self.cfg.io.log.level = LEVELS[name] if number else name
            self.due.level = LEVELS[name]

    def set_filename(self, name):
        if self.on:
            self.cfg.io.log.filename = name
            self.filename = name

    def set_root(self, name):
        self.root = os.path.join(self.w.root, name)
        self.cfg.io.folders.root = self.root

    def log(self, on):
        if not on:
            self.due.path, self.due.terminal = None, False
        self.cfg.io.log = on
        if on:
            self.due.path, self.due.terminal, self.due.level = None, True, 20
            self.filename = "dream"
        self.on = on

    def emit(self, name, n):
        before = self.due.count
        for k in range(n):
            self.at += 1
            logging.getLogger("dream.user").log(LEVELS[name], "note %d", self.at)
        passed = n if LEVELS[name] >= self.due.level else 0
        require(self.due.count - before == passed, "level", lambda: f"{self.due.count - before} of {n} {name} records at level {self.due.level}")

    def do(self, a, within=False):
        kind, *args = a
        self.w.note("do", kind, *map(str, args[:2]))
        if kind in ("file", "terminal", "level", "log", "emit"):
            getattr(self, kind)(*args)
        elif kind in ("filename", "root"):
            getattr(self, "set_" + kind)(*args)
        elif kind == "broken":
            self.term.broken = args[0]
        elif kind == "new":
            self.new(*args)
        elif kind == "kill":
            self.w.kill()
            self.restart()
        elif kind == "run":
            return self.run(*args)
        if kind in ("file", "terminal", "log"):
            self.w.probe("nontrivial")

    def run(self, n, acts):
        cfg = self.cfg
        if self.s["time"] == "transient":
            cfg.time.timer.interval = (0.0, round(0.1 * n, 6))
        logs = []

        def body(i, t):
            for j, a in acts:
                if j == i:
                    self.do(a, True)
                    self.check(a, True)

        def seen(*a):
            # each iteration logs its residual afterwards
            logs.append(self.due.level <= 20)

        before = self.due.residuals
        self.w.on_linearize = seen
        h = runs.drive(self.w, cfg, body=body)
        self.w.on_linearize = None
        require(h.outcome != "oserror" or acts, "stopped-by-log", lambda: f"the run ended by {h.error}")
        got = self.due.residuals - before
        require(h.outcome != "done" or got == sum(logs), "records", lambda: f"{got} residuals logged, {sum(logs)} iterations")
        self.w.simtime += 0.1 * len(h.labels)
        if h.outcome == "crash":
            self.restart()

    def restart(self):
        self.cfg = None
        self.logger.removeHandler(self.due)
        self.w.reboot()
        self.logger.addHandler(self.due)
        self.new(False)

    # -- judgement
    def check(self, a, within=False):
        w = self.w
        if w.crashed:
            return
        with w.quiet():
            for path, due in self.due.files.items():
                text = ""
                if os.path.exists(path):
                    with open(path) as f:
                        text = f.read()
                lines = text.split("\n")
                if lines[-1] == "":
                    lines.pop()
                rel = path[len(w.root) + 1:]
                sure = doubts(w.events, due, rel)
                require(fits(lines, sure), "file", lambda: f"after {a}: {rel} holds {lines[-6:]}, due {sure[-6:]}")
        shown = self.term.getvalue().split("\n")[:-1]
        sure = doubts(w.events, self.due.shown, None)
        require(fits(shown, sure), "terminal", lambda: f"after {a}: terminal shows {shown[-6:]}, due {sure[-6:]}")
        left = sorted(x._rel for x in w.open_handles() if x._rel.endswith(".log"))
        want = [self.due.path[len(w.root) + 1:]] if self.due.path else []
        require(left == want, "handles", lambda: f"after {a}: {left} open, due {want}")
        w.state(a[0], a[1:2] if a[0] != "run" else None, self.due.level, self.due.path and self.due.path[len(w.root) + 1:], self.due.terminal, self.on,
                sorted(w.fired), within)


def doubts(events, due, rel):
    """(message, sure): a record is doubtful if its own write to this file was hit, or it was interrupted on its way"""
    marks = [i for i, e in enumerate(events) if e[0] == "fault" and e[2] == "write" and (e[3] == rel or e[1] in ("interrupt", "crash"))]
    out = []
    for k, (msg, i) in enumerate(due):
        j = due[k + 1][1] if k + 1 < len(due) else len(events)
        out.append((msg, not any(i <= m < j for m in marks)))
    return out


def run(w, s):
    legal(s["acts"] and s["it"] >= 1 and s["crit"] > 0)
    for a in s["acts"]:
        legal(a["do"] and (a["do"][0] != "run" or a["do"][1] >= 1))
    w.bufsize = 4096
    if s["dirs"]:
        for name in ("x", "y"):
            os.makedirs(os.path.join(w.root, name))
    story = Story(w, s)
    try:
        story.check(["begin"])
        for a in s["acts"]:
            w.arm(a["faults"])
            try:
                story.do(a["do"])
            except OSError:
                w.arm([])
            except core.SimInterrupt:
                w.arm([])
            except core.SimCrash:
                story.restart()
            w.arm([])
            story.check(a["do"])
    finally:
        story.end()
