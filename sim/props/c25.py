"""C25: drawn fields follow the computation: every scene is redrawn once for every new state, and shows that state."""
import builtins
import sys
import types

import numpy as np
import ngsolve as ngs

from sim import gen as G, core, model, runs
from sim.core import require
from sim.model import legal

QUICK = 8000
THOROUGH = 150000
RULE = ("a seeded history of drawing fields, and of transient, stationary and pseudo time runs and playbacks of one solver, in a Python process, a terminal or a notebook; while it goes on "
        "another solver with its own drawings may take steps in the loop; fields are drawn again with other fields, also in renewed spaces; windows fail or the user interrupts while something is "
        "redrawn, residuals are NaN, factorisations fail, disks fail, loops are left early; what is on the screen is compared with the states of the loop and the iterates; non-trivial: "
        "something failed, or there were several drawings, solvers or kinds of run")
MEASURE = "distinct (kind of run, where it is drawn, scenes, what went wrong, outcome) situations"
REAL = "IOConfiguration.draw and redraw, all time routines and the playback, Newton solver, state output"
STUB = "ngsolve.Draw, ngsolve.Redraw, ngsolve.webgui and IPython's shell: scenes that evaluate their field when redrawn; weak form of the model solver"
ASSUMPTIONS = ["an iterate that equals the one before need not be drawn twice", "a step during whose output the run fails may be drawn or not"]

PLACES = ("python", "terminal", "notebook")


def gen(rng, tier, i):
    g = G.grid(rng, nmax=4)
    acts = []
    for k in range(rng.randint(1, 5)):
        x = rng.random()
        if x < 0.25 or not k:
            acts.append({"do": "draw", "fields": [[f, rng.random() < 0.3] for f in rng.sample(("U", "W", "S", "V"), rng.randint(1, 3))], "renew": rng.random() < 0.3,
                         "options": rng.choice(({}, {}, {"min": 0, "max": 2.5}, {"order": 2, "deformation": True}))})
        if x < 0.45:
            mode = "playback"
        else:
            mode = rng.choice(("transient", "transient", "stationary", "pseudo"))
        act = {"do": mode, "it": rng.choice((1, 3, 8)), "crit": rng.choice((1e-3, 1e-13, 1e-30)), "leave": None, "solve": None, "broken": None, "faults": [],
               "other": [[rng.randint(0, 3), rng.randint(1, 2)] for _ in range(rng.choice((0, 0, 1)))], "clash": rng.random() < 0.1}
        x = rng.random()
        if x < 0.15:
            act["leave"] = [rng.randint(0, g["n"] - 1), rng.choice(("close", "drop", "abort", "interrupt"))]
        elif x < 0.3:
            act["solve"] = [rng.choice(("apply", "linearize", "inverse")), rng.randint(0, 5), rng.choice(("interrupt", "abort", "memory", "nan"))]
        elif x < 0.4:
            act["broken"] = [rng.randint(0, 2), rng.randint(0, 3), rng.choice(("error", "interrupt"))]
        elif x < 0.5:
            act["faults"] = [G.file_fault(rng, 6, ("interrupt", "enospc", "eio"))]
        acts.append(act)
    return {"sys": G.system(rng), "grid": g, "place": rng.choice(PLACES), "acts": acts, "out": rng.random() < 0.7}


class Closed(RuntimeError):
    """The window is gone"""


class Screen:
    """What there is to see: rounds of redrawing, one per call of ngsolve.Redraw"""

    def __init__(self):
        self.rounds, self.open, self.made = [], [], []
        self.broken = None

    def begin(self, broken):
        """From here on; broken: [scene, redraw, kind]"""
        self.rounds, self.open, self.broken, self.count = [], [], broken, 0

    def draw(self, where):
        def Draw(cf, mesh, name, **options):
            scene = Scene(self, cf, mesh, name)
            self.made.append((where, scene, name, mesh, options))
            # there are no scene objects without a notebook
            return scene if where == "webgui" or name in self.keep else None
        return Draw

    def redraw(self, *args, **kw):
        self.rounds.append(self.open)
        self.blocking = args[0] if args else kw.get("blocking", False)
        self.open = []


class Scene:

    def __init__(self, screen, cf, mesh, name):
        self.screen, self.cf, self.mesh, self.name = screen, cf, mesh, name
        self.live = True

    def Redraw(self, *args, **kw):
        sc = self.screen
        if sc.broken and self.live and sc.broken[1] == len(sc.rounds) and sc.broken[0] == len(sc.open):
            kind, sc.broken = sc.broken[2], None
            sc.hit = kind
            raise Closed("the window is gone") if kind == "error" else core.SimInterrupt()
        sc.open.append((self, self.look()))

    def look(self):
        return values(self.cf, self.mesh)


_points = {}


def values(cf, mesh):
    if id(mesh) not in _points:
        vs = [np.mean([mesh[v].point for v in el.vertices], axis=0) for el in mesh.Elements(ngs.VOL)]
        _points[id(mesh)] = mesh, [mesh(*p) for p in vs]
    return np.array([cf(p) for p in _points[id(mesh)][1]], float).reshape(mesh.ne, -1)


class Seams:
    """A screen instead of NGSolve's windows"""

    def __init__(self, place):
        self.place, self.screen = place, Screen()

    def __enter__(self):
        self.keep = ngs.Draw, ngs.Redraw, sys.modules.get("ngsolve.webgui"), getattr(ngs, "webgui", None), getattr(builtins, "get_ipython", None)
        ngs.Draw, ngs.Redraw = self.screen.draw("gui"), self.screen.redraw
        web = types.ModuleType("ngsolve.webgui")
        web.Draw = self.screen.draw("webgui")
        sys.modules["ngsolve.webgui"] = web
        ngs.webgui = web
        if self.place != "python":
            shell = type({"terminal": "TerminalInteractiveShell", "notebook": "ZMQInteractiveShell"}[self.place], (), {})()
            builtins.get_ipython = lambda: shell
        return self.screen

    def __exit__(self, *a):
        ngs.Draw, ngs.Redraw = self.keep[:2]
        if self.keep[2] is None:
            sys.modules.pop("ngsolve.webgui", None)
        else:
            sys.modules["ngsolve.webgui"] = self.keep[2]
        if self.keep[3] is None:
            del ngs.webgui
        else:
            ngs.webgui = self.keep[3]
        if self.keep[4] is None:
            builtins.__dict__.pop("get_ipython", None)
        else:
            builtins.get_ipython = self.keep[4]


def run(w, s):
    legal(s["place"] in PLACES and s["grid"]["n"] >= 1)
    seams = Seams(s["place"])
    with seams as screen:
        Session(w, s, screen).run()


class Session:

    def __init__(self, w, s, screen):
        self.w, self.s, self.screen = w, s, screen
        self.cfg = runs.build(s["sys"], s["grid"])
        self.mesh = self.cfg.mesh
        self.shown = []             # the scenes of the last drawing
        self.mode, self.kinds, self.draws = "transient", set(), 0
        self.trouble = False
        if s["out"]:
            self.cfg.io.gfu = True
        self.saved = {}             # complete recording: label -> state
        self.stranger = self.strangers = None

    def run(self):
        for k, act in enumerate(self.s["acts"]):
            if act["do"] == "draw":
                self.draw(k, act)
            else:
                self.compute(k, act)
        if self.trouble or self.draws > 1 or self.stranger or len(self.kinds) > 1:
            self.w.probe("nontrivial")

    # -- drawing

    def fields(self, cfg, names):
        u, v = cfg.parts
        return {f: {"U": u, "W": v, "S": u + 2 * v, "V": ngs.CF((u, v))}[f] for f in names}

    def expected(self, name, x):
        u, v = x[:self.mesh.ne], x[self.mesh.ne:]
        return np.stack({"U": [u], "W": [v], "S": [u + 2 * v], "V": [u, v]}[name], axis=1)

    def draw(self, k, act):
        legal(act["fields"] and len({f for f, _ in act["fields"]}) == len(act["fields"]))
        if act["renew"]:
            self.cfg.initialize()
            self.saved = {}
        self.screen.made = []
        self.screen.keep = {f for f, scene in act["fields"] if scene}
        fields = self.fields(self.cfg, [f for f, _ in act["fields"]])
        self.cfg.io.draw(fields, **act["options"])
        where = "webgui" if self.s["place"] == "notebook" else "gui"
        made = self.screen.made
        what = f"act {k} {act}"
        require([(x[0], x[2]) for x in made] == [(where, f) for f in fields], "drawn", lambda: f"{what}: {[(x[0], x[2]) for x in made]} is drawn with {where}")
        require(all(x[3] is self.mesh and x[4] == act["options"] for x in made), "drawn", lambda: f"{what}: drawn with {[x[4] for x in made]}")
        require(all(x[1].cf is fields[x[2]] or np.array_equal(x[1].look(), values(fields[x[2]], self.mesh)) for x in made), "drawn", lambda: f"{what}: another field is drawn")
        for scene in self.shown:
            scene.live = False
        self.shown = [x[1] for x in made if where == "webgui" or x[2] in self.screen.keep]
        self.draws += 1

    # -- computing

    def compute(self, k, act):
        w, s, cfg, sc = self.w, self.s, self.cfg, self.screen
        legal(act["it"] >= 1 and act["crit"] > 0)
        mode = act["do"]
        playback = mode == "playback"
        if playback and not (s["out"] and self.saved):
            return
        name = {"playback": "transient", "pseudo": "pseudo_time_stepping"}.get(mode, mode)
        if name != self.mode or (mode == "transient" and not playback and act["clash"]):
            keep = model.vec(cfg.gfu)
            cfg.time = name
            if name != "stationary":
                cfg.time.scheme = s["sys"]["scheme"]
                cfg.time.timer.interval, cfg.time.timer.step = runs.interval_of(s["grid"]), float(s["grid"]["step"])
                cfg.clock = cfg.time.timer.t
            # the state and with it what is drawn stays, everything else belongs to the new routine
            cfg.time.initialize()
            cfg.initialize_symbolic_forms()
            if name != "stationary":
                cfg.time.scheme.set_initial_conditions()
            require(runs.same(keep, model.vec(cfg.gfu)), "state", lambda: f"act {k}: changing to {name} has changed the state")
            self.mode = name
        self.kinds.add(mode)
        cfg.nonlinear_solver.max_iterations, cfg.nonlinear_solver.convergence_criterion = act["it"], act["crit"]
        what = f"act {k} { {x: v for x, v in act.items() if v} } in {s['place']}, {len(self.shown)} scenes"

        iterates = []

        def on_linearize(*a):
            # the state that the iteration begins with
            if w.world_of == cfg:
                iterates.append(model.vec(cfg.gfu))
            hook("linearize")

        hits = {"apply": 0, "linearize": 0, "inverse": 0}

        def hook(kind):
            if w.world_of != cfg or not act["solve"]:
                return
            hits[kind] += 1
            at, n, how = act["solve"]
            if kind == "linearize":
                cfg.par["poison"].Set(0.0)
            if kind == at and hits[kind] - 1 == n:
                w.fired[f"{how}@{at}"] += 1
                if how == "nan":
                    if kind == "apply":
                        cfg.par["poison"].Set(float("nan"))
                    return
                raise {"interrupt": core.SimInterrupt, "abort": core.SimAbort, "memory": MemoryError}[how]()

        stop = act["leave"]
        if stop:
            legal(len(stop) == 2)
            stop = [min(stop[0], s["grid"]["n"] - 1) if mode in ("transient", "playback") else 0, stop[1]]
        played = {"n": 0}

        def body(i, t):
            if playback:
                if self.draws:
                    self.judge(what, [self.saved[x] for x in list(self.saved)[:i + 1]], 0)
                require(runs.same(model.vec(cfg.gfu), self.saved[t]), "played", lambda: f"{what}: {t} is played with another state")
            played["n"] = i + 1
            for at, n in act["other"]:
                if at == i:
                    self.visit(n)

        sc.begin(act["broken"])
        sc.hit = None
        w.world_of = cfg
        w.on_linearize, w.on_apply, w.on_inverse = on_linearize, lambda *a: hook("apply"), lambda *a: hook("inverse")
        if not playback:
            w.arm(act["faults"])
        h = Seen()
        try:
            runs.drive(w, cfg, hist=h, body=body, stop_after=stop, routine=cfg.io.gfu.load_transient_routine if playback else None)
            outcome = h.outcome
        except Closed:
            outcome = "closed"
        except MemoryError:
            outcome = "memory"
        finally:
            w.on_linearize = w.on_apply = w.on_inverse = None
            w.arm([])
            cfg.par["poison"].Set(0.0)
        n = played["n"]
        w.simtime += float(s["grid"]["step"]) * n
        if sc.hit:
            w.fired[f"{sc.hit}@redraw"] += 1
            require(outcome == ("closed" if sc.hit == "error" else "interrupt"), "swallowed", lambda: f"{what}: a failure while redrawing ended as {outcome}")
        self.trouble |= outcome != "done"
        w.note("act", k, mode, outcome, n, len(sc.rounds))
        w.state(mode, s["place"], len(self.shown), outcome, bool(act["solve"] and act["solve"][0]), sc.hit, len(sc.rounds))
        # rounds that were cut
        if outcome == "done" or not sc.hit:
            require(not sc.open, "round", lambda: f"{what}: {len(sc.open)} scenes were redrawn, but the screen was not")
        if not self.draws:
            require(not sc.rounds, "undrawn", lambda: f"{what}: nothing is drawn, but {len(sc.rounds)} times redrawn")
        elif mode in ("transient", "playback"):
            due = [h.states[t] for t in h.labels]
            slack = 0 if outcome == "done" or playback else 1
            if sc.hit and playback:
                # the state was loaded, but is not handed over
                require(len(sc.rounds) == len(due), "redraws", lambda: f"{what}: {len(sc.rounds)} redraws of {len(due)} states")
            self.judge(what, due, slack)
        else:
            self.iterated(what, iterates, model.vec(cfg.gfu), outcome)
        if mode == "transient" and s["out"]:
            self.saved = {}
            if outcome == "done" and not act["faults"]:
                self.saved = dict(h.states)

    def judge(self, what, due, slack):
        rounds = self.screen.rounds
        require(len(due) - slack <= len(rounds) <= len(due), "redraws", lambda: f"{what}: {len(rounds)} redraws of {len(due)} states")
        for r, x in zip(rounds, due):
            self.check(what, r, x)

    def check(self, what, r, x):
        require(sorted(id(q) for q, _ in r) == sorted(id(q) for q in self.shown), "scenes",
                lambda: f"{what}: {[q.name for q, _ in r]} redrawn instead of {[q.name for q in self.shown]}")
        for q, v in r:
            require(np.allclose(v, self.expected(q.name, x), rtol=2e-13, atol=2e-13), "stale", lambda: f"{what}: the scene of {q.name} shows another state")
        require(not self.screen.blocking, "blocking", lambda: f"{what}: redrawing waits for the screen")

    def iterated(self, what, iterates, final, outcome):
        """Every new iterate is shown, in order"""
        rounds = self.screen.rounds
        due = []                    # what can be told apart on the screen
        for x in iterates + [final]:
            if not due or not all(np.allclose(self.expected(q.name, x), self.expected(q.name, due[-1][0]), rtol=1e-12, atol=1e-12) for q in self.shown):
                due.append([])
            due[-1].append(x)
        at = 0                      # how far it is shown
        for r in rounds:
            ok = None
            for j in (at, at + 1):
                if j < len(due) and any(self.matches(r, x) for x in due[j]):
                    ok = j
                    break
            require(ok is not None, "stale", lambda: f"{what}: shows something else than iterate {at} or {at + 1} of {len(due)}")
            at = ok
            self.check(what, r, next(x for x in due[at] if self.matches(r, x)))
        if self.shown:
            missing = len(due) - 1 - at
            require(missing <= (0 if outcome == "done" else 1), "redraws", lambda: f"{what}: {len(rounds)} redraws, the last {missing} of {len(due)} iterates are not shown")
        require(len(rounds) <= len(iterates) + 2, "redraws", lambda: f"{what}: {len(rounds)} redraws of {len(iterates)} iterations")
        if outcome == "done":
            require(len(rounds) >= max(1, len(due) - 1), "redraws", lambda: f"{what}: {len(rounds)} redraws of {len(iterates)} iterations")

    def matches(self, r, x):
        return all(np.allclose(v, self.expected(q.name, x), rtol=2e-13, atol=2e-13) for q, v in r)

    # -- the other solver

    def visit(self, n):
        """Another solver, with drawings of its own, takes steps"""
        w, sc = self.w, self.screen
        mine = sc.rounds, sc.open, sc.broken, sc.made, getattr(sc, "keep", set())
        here = w.world_of
        plan, w.plan = w.plan, []
        if self.stranger is None:
            self.stranger = runs.build({**self.s["sys"], "joint": None}, {"start": "0", "step": "0.1", "n": 5})
            sc.keep = {"U"}
            sc.made = []
            self.stranger.io.draw(self.fields(self.stranger, ["U"]))
            self.strangers = [x[1] for x in sc.made]
        w.world_of = self.stranger
        sc.begin(None)
        k = 0
        it = self.stranger.time.start_solution_routine()
        for t in it:
            k += 1
            if k == n:
                break
        it.close()
        seen = [q for r in sc.rounds for q, _ in r] + [q for q, _ in sc.open]
        require(all(q in self.strangers for q in seen) and len(seen) == n - 1, "foreign", lambda: f"{len(seen)} scenes were redrawn in {n} steps of another solver")
        w.world_of = here
        sc.rounds, sc.open, sc.broken, sc.made, sc.keep = mine
        w.plan = plan


class Seen(runs.History):

    def see(self, cfg, t):
        self.labels.append(t)
        self.states[t] = model.vec(cfg.gfu)
