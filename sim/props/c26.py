"""C26: a mesh is deformed as the current conditions say, whatever it was before, and so are the weights of layers."""
import numpy as np
import ngsolve as ngs
import netgen.occ as occ

from sim import gen as G, core, model, runs
from sim.core import require
from sim.model import legal

QUICK = 5000
THOROUGH = 60000
RULE = ("a seeded history of setting, changing, removing and applying grid deformations (linear, exponential, tangential, in one or several directions, polar) and layer weights by one or two "
        "solvers on the same mesh (layers in two dimensions, periodic, a cube), between own deformations of the user, runs with sensors, failing or interrupted factorisations, and a new process; "
        "the deformation after every act is compared with the projection of the mapping on the undeformed mesh; non-trivial: a mesh was deformed that had been deformed before, or applying it failed")
MEASURE = "distinct (act, mesh, kinds of mappings, order, what went before, failure) situations"
REAL = "GridDeformation, GridMapping, BufferCoord, SpongeFunction, SpongeLayer, PSpongeLayer, DomainConditions, set_grid_deformation, sensors, NGSolve assembly and factorisation"
STUB = "weak form of the model solver"
ASSUMPTIONS = ["scales of 1.5 and more", "polar mappings around a point outside of the domain", "each region has one grid deformation at a time"]

KINDS = ("linear", "exponential", "tangential")
MESHES = ("layers", "layers", "fine", "periodic", "cube")


def mapping(rng, mesh, axis):
    """[kind, scale, begin, end, shift]"""
    if mesh == "cube" or axis == "y":
        a, b = rng.choice(((0.1, 0.5), (-0.5, 0.5), (-0.1, -0.5), (0.2, 0.4)))
    else:
        k = rng.choice((0, 2, 2, 1))
        a, b = -0.5 + k / 3, -0.5 + (k + 1) / 3
        if k == 0:
            a, b = b, a
    return [rng.choice(KINDS), rng.choice((1.5, 2.0, 3.0)), round(a, 6), round(b, 6), rng.choice((0.0, 0.0, 0.0, 0.05))]


def maps(rng, mesh):
    x = rng.random()
    if mesh != "cube" and x < 0.15:
        return {"polar": [rng.choice(KINDS), rng.choice((1.5, 2.0)), 1.3, rng.choice((1.6, 1.9)), [-1.2, 0.1]]}
    axes = rng.choice((["x"], ["x"], ["y"], ["x", "y"], ["y", "x"]) if mesh != "cube" else (["z"], ["x", "z"], ["x", "y", "z"]))
    return {a: mapping(rng, mesh, a) for a in axes}


def gen(rng, tier, i):
    mesh = rng.choice(MESHES)
    acts = []
    n = 1 if mesh == "cube" else 3
    for k in range(rng.randint(3, 8 if tier == "quick" else 14)):
        x = rng.random()
        who = rng.choice((0, 0, 1))
        fault = rng.choice((None, None, None, None, "interrupt", "abort", "memory"))
        if x < 0.25 or not k:
            regions = rng.sample(range(n), rng.randint(1, min(2, n)))
            split = rng.random() < 0.4
            acts.append({"do": "set", "who": who, "conds": [{"regions": r, "maps": maps(rng, mesh), "order": rng.randint(1, 3 if mesh != "cube" else 2)}
                                                            for r in ([[r] for r in regions] if split else [sorted(regions)])]})
        elif x < 0.4:
            axis = rng.choice(("x", "y") if mesh != "cube" else ("x", "z"))
            acts.append({"do": "change", "who": who, "which": rng.randint(0, 1), "key": rng.choice((axis, axis, "order")),
                         "map": mapping(rng, mesh, axis) if rng.random() < 0.6 else None, "order": rng.randint(1, 3)})
        elif x < 0.65:
            acts.append({"do": "apply", "who": who, "fault": fault})
        elif x < 0.75:
            acts.append({"do": "ask", "who": who, "fault": fault, "given": rng.random() < 0.4})
        elif x < 0.82:
            acts.append({"do": "user", "how": rng.choice(("unset", "own"))})
        elif x < 0.9:
            acts.append({"do": "weights", "who": who, "psponge": rng.random() < 0.4, "fault": fault, "given": rng.random() < 0.4,
                         "conds": [{"region": r, "shape": rng.choice((["constant"], ["poly", rng.randint(1, 4)], ["penta"], ["radial", rng.randint(1, 2)])),
                                    "weight": rng.choice((1.0, 20.0)), "order": rng.randint(0, 3)} for r in rng.sample(range(n), rng.randint(1, n))]})
        elif x < 0.95:
            acts.append({"do": "run", "who": who})
        else:
            acts.append({"do": "restart"})
    acts.append({"do": "apply", "who": rng.choice((0, 1)), "fault": None})
    if rng.random() < 0.3:
        acts.append({"do": "run", "who": 0})
    return {"mesh": mesh, "acts": acts, "maxh": rng.choice((1.0, 0.5))}


def periodic(maxh):
    wp = occ.WorkPlane()
    faces = []
    for i in range(3):
        face = wp.MoveTo(-0.5 + (i + 0.5) / 3, 0).RectangleC(1 / 3, 1).Face()
        face.name = f"l{i}"
        names = ["bottom", "right" if i == 2 else "inner", "top", "left" if i == 0 else "inner"]
        for name, edge in zip(names, face.edges):
            edge.name = name
        face.edges[0].Identify(face.edges[2], f"p{i}", occ.IdentificationType.PERIODIC)
        faces.append(face)
    return ngs.Mesh(occ.OCCGeometry(occ.Glue(faces), dim=2).GenerateMesh(maxh=maxh))


def mesh_of(s):
    legal(s["mesh"] in MESHES and s["maxh"] >= 0.4)
    return {"layers": lambda: model.layers(3, maxh=s["maxh"]), "fine": lambda: model.layers(3, maxh=s["maxh"] / 2), "cube": model.cube,
            "periodic": lambda: periodic(s["maxh"])}[s["mesh"]]()


# --------------------------------------------------------------------------- the mappings, written down by hand

def solve(f, a, b):
    """The zero between a and b, where f changes its sign from - to +"""
    for _ in range(200):
        m = 0.5 * (a + b)
        a, b = (m, b) if f(m) < 0 else (a, m)
    return 0.5 * (a + b)


def truncate(x, a, b):
    """The coordinate x, not before a and not behind b"""
    s = (x - a) / (b - a)
    return ngs.IfPos(s, ngs.IfPos(1 - s, x, b), a)


def image(m, x):
    """Where a mapping takes the (truncated) coordinate x"""
    kind, scale, a, b = m[:4]
    L = b - a
    if kind == "linear":
        return a + scale * (x - a)
    if kind == "exponential":
        c = solve(lambda s: np.exp(s) - 1 - scale * s, 1e-3, 10.0) / L
        return a + (ngs.exp(c * (x - a)) - 1) / c
    c = solve(lambda s: np.tan(s) - scale * s, 1e-2, np.pi / 2 - 1e-9) / L
    return a + ngs.tan(c * (x - a)) / c


def displacement(maps, dim):
    out = [ngs.CF(0)] * dim
    if "polar" in maps:
        m = maps["polar"]
        X, Y = ngs.x - m[4][0], ngs.y - m[4][1]
        r = truncate(ngs.sqrt(X**2 + Y**2), m[2], m[3])
        d = (image(m, r) - r) / ngs.sqrt(X**2 + Y**2)
        return ngs.CF((d * X, d * Y))
    for axis, m in maps.items():
        x = truncate({"x": ngs.x, "y": ngs.y, "z": ngs.z}[axis] - m[4], m[2], m[3])
        out["xyz".index(axis)] = image(m, x) - x
    return ngs.CF(tuple(out))


def project(mesh, conds):
    """The deformation of a mesh that is not deformed by conditions [(pattern, maps, order)]"""
    fes = ngs.VectorH1(mesh, order=max(order for _, _, order in conds))
    if mesh.GetPeriodicNodePairs(ngs.VERTEX):
        fes = ngs.Periodic(fes)
    free = fes.GetDofs(mesh.Materials("|".join(pattern for pattern, _, _ in conds)))
    u, v = fes.TnT()
    a = ngs.BilinearForm(u * v * ngs.dx).Assemble()
    f = ngs.LinearForm(fes)
    for pattern, maps, _ in conds:
        f += displacement(maps, mesh.dim) * v * ngs.dx(definedon=mesh.Materials(pattern))
    f.Assemble()
    gfu = ngs.GridFunction(fes)
    gfu.vec.data = a.mat.Inverse(free, inverse="umfpack") * f.vec
    return gfu


def weight(shape, w):
    if shape[0] == "constant":
        return ngs.CF(w)
    if shape[0] == "radial":
        t = truncate(ngs.sqrt((ngs.x + 1.2)**2 + (ngs.y - 0.1)**2), 1.0, 1.7)
        return w * ((t - 1.0) / 0.7)**shape[1]
    t = (truncate(ngs.x, -0.2, 0.45) + 0.2) / 0.65
    return w * t**shape[1] if shape[0] == "poly" else w * t**3 * (t * (6 * t - 15) + 10)


# --------------------------------------------------------------------------- dream's side

def dream_mapping(axis, m):
    from dream.mesh import GridMapping, BufferCoord
    if axis == "polar":
        return getattr(GridMapping, m[0])(m[1], BufferCoord.polar(m[2], m[3], tuple(m[4]))).polar_to_cartesian()
    return getattr(GridMapping, m[0])(m[1], getattr(BufferCoord, axis)(m[2], m[3], m[4]))


def dream_weight(shape, w):
    from dream.mesh import SpongeFunction, BufferCoord
    if shape[0] == "constant":
        return SpongeFunction.constant(w)
    x = BufferCoord.polar(1.0, 1.7, (-1.2, 0.1)) if shape[0] == "radial" else BufferCoord.x(-0.2, 0.45)
    return SpongeFunction.penta(w, x) if shape[0] == "penta" else SpongeFunction.polynomial(w, x, shape[1])


class Stage:

    def __init__(self, w, s):
        self.w, self.s = w, s
        self.start()

    def start(self):
        """A process begins: the mesh as it was generated, and two solvers without conditions"""
        from dream.mesh import Periodic
        self.mesh = mesh_of(self.s)
        self.regions = list(dict.fromkeys(self.mesh.GetMaterials()))
        self.area = [ngs.Integrate(ngs.CF(1), self.mesh, definedon=self.mesh.Materials(r)) for r in self.regions]
        self.cfgs = []
        for k in range(2):
            cfg = model.ode(self.mesh, [1.0], [0.5], {}, interval=(0.0, 0.2), step=0.1, root=f"{self.w.root}/{k}")
            if self.s["mesh"] == "periodic":
                cfg.bcs["top|bottom"] = Periodic()
            self.cfgs.append(cfg)
        self.conds = [[], []]       # of each solver: [pattern, maps, order, condition]
        self.ready = [False, False]
        self.due = None             # the deformation the mesh has to have
        self.before = "new"

    def names(self, regions):
        legal(regions and all(0 <= r < len(self.regions) for r in regions) and len(set(regions)) == len(regions))
        return "|".join(self.regions[r] for r in regions)

    def compare(self, got, want, kind, what):
        """Two deformations, on the undeformed mesh"""
        mesh = self.mesh
        require((got is None) == (want is None), kind, lambda: f"{what}: the mesh is {'not ' if got is None else ''}deformed")
        if got is None:
            return
        have = mesh.deformation
        mesh.UnsetDeformation()
        d = [float(ngs.Integrate(ngs.InnerProduct(x, x), mesh, order=6))**0.5 for x in (got - want, want)]
        if have is not None:
            mesh.SetDeformation(have)
        require(d[0] <= 1e-8 * (1 + d[1]), kind, lambda: f"{what}: the deformation is off by {d[0]:.3e} of {d[1]:.3e}")

    def reference(self, conds):
        have = self.mesh.deformation
        self.mesh.UnsetDeformation()
        out = project(self.mesh, [c[:3] for c in conds])
        if have is not None:
            self.mesh.SetDeformation(have)
        return out

    def attempt(self, fault, call):
        """What a call returns, or None if the fault hits it"""
        w = self.w

        def hit(*a):
            w.on_inverse = None
            w.fired[f"{fault}@inverse"] += 1
            raise {"interrupt": core.SimInterrupt, "abort": core.SimAbort, "memory": MemoryError}[fault]()

        w.on_inverse = hit if fault else None
        try:
            return True, call()
        except (core.SimInterrupt, core.SimAbort, MemoryError):
            if not fault:
                raise
            w.probe("failed attempts")
            return False, None
        finally:
            w.on_inverse = None


def run(w, s):
    stage = Stage(w, s)
    for k, act in enumerate(s["acts"]):
        what = f"act {k} {act}, after {stage.before}"
        ACTS[act["do"]](w, s, stage, act, what)
        stage.compare(stage.mesh.deformation, stage.due, "deformation", what)
        w.note(act["do"], stage.due is not None)


def do_set(w, s, stage, act, what):
    from dream.mesh import GridDeformation
    cfg = stage.cfgs[act["who"]]
    legal(act["conds"] and sum(len(c["regions"]) for c in act["conds"]) == len({r for c in act["conds"] for r in c["regions"]}))
    cfg.dcs.clear()
    stage.conds[act["who"]] = []
    for c in act["conds"]:
        legal(c["order"] >= 1 and c["maps"] and all(m[1] > 1.4 and m[2] != m[3] for m in c["maps"].values()))
        pattern = stage.names(c["regions"])
        given = {a: dream_mapping(a, m) for a, m in c["maps"].items()}
        if "polar" in given:
            given = dict(zip("xy", given["polar"]))
        cond = GridDeformation(dim=stage.mesh.dim, order=c["order"], **given)
        cfg.dcs[pattern] = cond
        stage.conds[act["who"]].append([pattern, dict(c["maps"]), c["order"], cond])


def do_change(w, s, stage, act, what):
    conds = stage.conds[act["who"]]
    if not conds:
        return
    c = conds[act["which"] % len(conds)]
    if act["key"] == "order":
        legal(act["order"] >= 1)
        c[3].order = c[2] = act["order"]
    elif "polar" not in c[1]:
        axis = act["key"]
        legal("xyz".index(axis) < stage.mesh.dim)
        c[1].pop(axis, None)
        if act["map"]:
            legal(act["map"][1] > 1.4 and act["map"][2] != act["map"][3])
            c[1][axis] = act["map"]
        setattr(c[3], axis, dream_mapping(axis, act["map"]) if act["map"] else None)
    w.probe("changed conditions")


def situation(w, s, stage, act, conds, ok):
    w.state(act["do"], s["mesh"], [sorted((a, m[0]) for a, m in c[1].items()) for c in conds], [c[2] for c in conds], stage.before, ok or act["fault"])
    if stage.due is not None or not ok:
        w.probe("nontrivial")


def do_apply(w, s, stage, act, what):
    conds = stage.conds[act["who"]]
    if not conds:
        return
    want = stage.reference(conds)
    ok, _ = stage.attempt(act["fault"], stage.cfgs[act["who"]].set_grid_deformation)
    situation(w, s, stage, act, conds, ok)
    if ok:
        stage.due, stage.before = want, f"deformation by {act['who']}"
    else:
        stage.before = "failed attempt"


def do_ask(w, s, stage, act, what):
    conds = stage.conds[act["who"]]
    if not conds:
        return
    dcs = stage.cfgs[act["who"]].dcs
    want = stage.reference(conds)
    given = [{pattern: cond for pattern, _, _, cond in conds}] if act["given"] else []
    ok, got = stage.attempt(act["fault"], lambda: dcs.get_grid_deformation_function(*given))
    situation(w, s, stage, act, conds, ok)
    if ok:
        stage.compare(got, want, "deformation-function", what)


def do_user(w, s, stage, act, what):
    mesh = stage.mesh
    mesh.UnsetDeformation()
    stage.due = None
    if act["how"] == "own":
        gfu = ngs.GridFunction(ngs.VectorH1(mesh, order=1))
        gfu.Set(0.1 * ngs.CF((ngs.x + ngs.y, ngs.x, ngs.y)[:mesh.dim]))
        mesh.SetDeformation(gfu)
        stage.due = gfu
    stage.before = f"user's {act['how']}"


def do_weights(w, s, stage, act, what):
    """The weights of sponge layers as functions, on the mesh as it is"""
    from dream.mesh import SpongeLayer, PSpongeLayer
    mesh, dcs = stage.mesh, stage.cfgs[act["who"]].dcs
    kind = PSpongeLayer if act["psponge"] else SpongeLayer
    made = {}
    for c in act["conds"]:
        legal(c["order"] >= 0)
        made[stage.names([c["region"]])] = c, kind(function=dream_weight(c["shape"], c["weight"]), order=c["order"])
    legal(len(made) == len(act["conds"]))
    if not act["given"]:
        # next to the grid deformations
        for region, (_, cond) in made.items():
            dcs[region] = cond
    call = dcs.get_psponge_layer_function if act["psponge"] else dcs.get_sponge_layer_function
    ok, got = stage.attempt(act["fault"], lambda: call(*([{r: cond for r, (_, cond) in made.items()}] if act["given"] else [])))
    if not act["given"]:
        for region, (_, cond) in made.items():
            dcs[region].remove(cond)
    w.state("weights", s["mesh"], sorted((c["shape"][0], c["order"]) for c in act["conds"]), stage.before, ok or act["fault"])
    if not ok:
        w.probe("nontrivial")
        return
    for region in stage.regions:
        part = mesh.Materials(region)
        if region not in made:
            d = ngs.Integrate(got**2, mesh, definedon=part)
            require(abs(d) <= 1e-20, "weight-outside", lambda: f"{what}: the weight in {region} is {d:.3e}")
            continue
        c = made[region][0]
        fes = ngs.L2(mesh, order=c["order"], definedon=part)
        u, v = fes.TnT()
        a = ngs.BilinearForm(u * v * ngs.dx).Assemble()
        f = ngs.LinearForm(weight(c["shape"], c["weight"]) * v * ngs.dx(definedon=part)).Assemble()
        want = ngs.GridFunction(fes)
        want.vec.data = a.mat.Inverse(fes.FreeDofs(), inverse="umfpack") * f.vec
        d = float(ngs.Integrate((got - want)**2, mesh, definedon=part, order=6))**0.5
        require(d <= 1e-9 * c["weight"], "weight", lambda: f"{what}: the weight in {region} is off by {d:.3e}")


def do_run(w, s, stage, act, what):
    """The sensors see the mesh as it is"""
    cfg = stage.cfgs[act["who"]]
    if not stage.ready[act["who"]]:
        cfg.initialize()
        stage.ready[act["who"]] = True
    mesh = stage.mesh
    want = [ngs.Integrate(ngs.CF(1), mesh, definedon=mesh.Materials(r)) for r in stage.regions]
    if stage.due is None:
        want = stage.area
    cfg.io.sensor = True
    cfg.io.sensor.domain = "area"
    cfg.io.sensor.domain["area"].fields = {"one": ngs.CF(1.0), "x": ngs.x}
    cfg.io.sensor.domain["area"].regions = tuple(stage.regions)
    cfg.time.set_initial_conditions()
    h = runs.drive(w, cfg)
    require(h.outcome == "done", "run", lambda: f"{what}: {h.outcome} {h.error}")
    w.simtime += 0.2
    with w.quiet(), open(f"{w.root}/{act['who']}/sensors/area.csv") as f:
        rows = [line.strip().split(",") for line in f]
    got = [float(x) for x in rows[-1][1::2]]
    require(len(got) == len(want) and all(abs(a - b) <= 1e-9 for a, b in zip(got, want)), "measure",
            lambda: f"{what}: the regions measure {got} instead of {want}")
    w.state("run", s["mesh"], stage.before)


def do_restart(w, s, stage, act, what):
    stage.start()


ACTS = {"set": do_set, "change": do_change, "apply": do_apply, "ask": do_ask, "user": do_user, "weights": do_weights, "run": do_run, "restart": do_restart}
