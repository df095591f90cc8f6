"""C13: the assembled problem is settled by which condition is set where, not by addresses, order or grouping."""
import random

import numpy as np
import ngsolve as ngs

from dream.mesh import Condition
from dream.compressible import (FarField, Outflow, GRCBC, NSCBC, InviscidWall, Symmetry, IsothermalWall,
                                Initial, SpongeLayer, PSpongeLayer, flowfields)

from sim import gen as G, hdg, model, runs, core
from sim.core import require
from sim.model import legal

QUICK = 400
THOROUGH = 11000
RULE = ("a flow problem with a seeded condition on every boundary and in every layer (farfield, outflow, walls, characteristic conditions, "
        "initial states, sponge layers, polynomial sponge layers) is set up three times: region by region in mesh order, and twice through "
        "a seeded history of assignments (order, grouping of regions that share a condition into patterns or lists, one object or "
        "several, names that do not exist, clearing and setting again, initialising again, another problem solved with the same solver before) under two seeded orders of the conditions' hashes "
        "(memory addresses in a real process); then one condition is exchanged; non-trivial: a condition was shared by several regions or "
        "set on a region that has another one")
MEASURE = "distinct (mesh, order, viscous, conditions of all regions, grouping, hash order) situations"
REAL = "Conditions, BoundaryConditions, DomainConditions, CompressibleFlowSolver, HDG and mixed formulations, NGSolve assembly"
STUB = "Condition.__hash__ (memory addresses) is drawn from the seed; no time steps are taken"
ASSUMPTIONS = ["at most one condition of each kind per region (several of one kind on exactly the same regions replace each other)"]

BKINDS = ("farfield", "outflow", "wall", "symmetry", "grcbc", "grcbc-out", "nscbc", "grcbc-mass", "isothermal")


def gen(rng, tier, i):
    mesh = rng.choice(("square", "layers", "layers3", "layers3"))
    viscous = rng.random() < 0.3
    order = rng.choice((0, 0, 1, 1, 2, 3))
    palette = [[rng.choice(BKINDS if viscous else BKINDS[:-1]), round(rng.uniform(0.9, 1.1), 3)] for _ in range(rng.randint(1, 3))]
    if mesh == "layers3" and rng.random() < 0.0:
        palette = palette[:1]
    layers = []
    for _ in range({"square": 1, "layers": 2, "layers3": 3}[mesh]):
        x = rng.random()
        sponge = None
        if x < 0.35:
            sponge = ["sponge", round(rng.uniform(1, 9), 2), round(rng.uniform(0.9, 1.1), 3), rng.randint(0, 2)]
        elif x < 0.6:
            high = rng.randint(0, order)
            sponge = ["psponge", round(rng.uniform(1, 9), 2), round(rng.uniform(0.9, 1.1), 3), high, rng.choice((high, 0))]
        layers.append({"initial": round(rng.uniform(0.9, 1.1), 2) if rng.random() < 0.6 else 1.0, "sponge": sponge})
    if rng.random() < 0.6 and layers[0]["sponge"]:
        for y in layers[1:]:
            if rng.random() < 0.7:
                y["sponge"] = list(layers[0]["sponge"])
    return {"mesh": mesh, "order": order, "viscous": viscous, "mixed": "strain_heat", "palette": palette,
            "sides": [rng.randint(0, len(palette) - 1) for _ in range(4)], "layers": layers,
            "riemann": rng.choice(("lax_friedrich", "roe", "hll", "hllem", "upwind")), "scheme": rng.choice(("implicit_euler", "bdf2")),
            "history": [rng.randint(0, 10**6), rng.randint(0, 10**6)], "hash": [rng.randint(0, 10**6), rng.choice((-1, rng.randint(0, 10**6)))],
            "exchange": rng.randint(0, 6), "book": book(rng)}


PERIODIC = 1000     # the boundary condition of that name
NEAR = ("nowhere", "lef", "righ", "l", "eft", "l00", "0", "inne", "", "left ", "|", "top.*", ".*", "default")


def book(rng):
    """A history of assignments, without computing anything"""
    acts = []
    for _ in range(rng.randint(4, 14)):
        x = rng.random()
        if x < 0.62:
            where = rng.choice(("bcs", "bcs", "dcs"))
            acts.append(["set", where, rng.randint(0, 40), [rng.choice(NEAR) if rng.random() < 0.2 else rng.randint(0, 5) for _ in range(rng.randint(1, 4))],
                         rng.random() < 0.4, rng.choice(("name", "object", "again"))])
        elif x < 0.75:
            acts.append(["configure", rng.randint(0, 20), rng.randint(0, 9)])
        elif x < 0.8:
            acts.append(["clear", rng.choice(("bcs", "dcs"))])
        elif x < 0.88:
            acts.append(["wrong", rng.choice(("bcs", "dcs")), rng.choice(("name", "type", "class"))])
        else:
            acts.append(["set", "bcs", 0, [rng.randint(0, 5)], True, "name"])
            acts[-1][2] = PERIODIC
    return {"mesh": rng.choice(("square", "square-y", "square-xy", "layers3")), "acts": acts}


HASH = {"rng": None, "seen": {}}
_real_hash = Condition.__hash__


def seeded_hash(self):
    if HASH["rng"] is None:
        return _real_hash(self)
    h = self.__dict__.get("_sim_hash")
    if h is None:
        h = self.__dict__["_sim_hash"] = 7 if HASH["rng"] == -1 else HASH["rng"].randrange(1 << 40)
    return h


def boundary(spec, inf):
    kind, scale = spec
    f = flowfields(rho=inf.rho * scale, u=inf.u, p=inf.p * scale**1.4)
    f2 = {"farfield": lambda: FarField(fields=f), "outflow": lambda: Outflow(fields=f), "wall": InviscidWall, "symmetry": Symmetry,
          "grcbc": lambda: GRCBC(fields=f, target="farfield", relaxation_factor=0.4 * scale, tangential_relaxation=0.1),
          "grcbc-out": lambda: GRCBC(fields=f, target="outflow", relaxation_factor=0.4 * scale),
          "nscbc": lambda: NSCBC(fields=f, target="outflow", relaxation_factor=0.4, length=scale),
          "grcbc-mass": lambda: GRCBC(fields=flowfields(rho=inf.rho * scale, u=inf.u, rho_u=inf.rho * scale * inf.u, rho_Ek=inf.rho_Ek * scale),
                                      target="mass_inflow", relaxation_factor=0.4),
          "isothermal": lambda: IsothermalWall(fields=flowfields(T=inf.T * scale))}
    return f2[kind]()


def layer(spec, inf):
    kind, weight, scale, *orders = spec
    target = flowfields(rho=inf.rho * scale, u=inf.u, p=inf.p * scale**1.4)
    if kind == "sponge":
        return SpongeLayer(function=ngs.CF(weight), target_state=target, order=orders[0])
    return PSpongeLayer(function=ngs.CF(weight), target_state=target, high_order=orders[0], low_order=orders[1])


def initial(scale, inf):
    return Initial(fields=flowfields(rho=inf.rho * (1 + 0.02 * ngs.x * scale), u=inf.u * scale, p=inf.p * (1 + 0.03 * ngs.y)))


SIDES = ("left", "right", "top", "bottom")


def problem(s, arrange, hashing):
    """Set the problem up and return its initial state, residual and matrix action"""
    mesh = runs.mesh_of(s["mesh"])
    HASH["rng"] = None if hashing is None else (-1 if hashing == -1 else random.Random(hashing))
    try:
        cfg = model.flow(mesh, scheme=s["scheme"], riemann=s["riemann"], order=s["order"], viscous=s["mixed"] if s["viscous"] else None)
        inf = cfg.get_farfield_state((1.0, 0.3))
        twice = arrange(cfg, inf)
        cfg.initialize()
        if twice:
            cfg.initialize()
        cfg.time.assemble()
    finally:
        HASH["rng"] = None
    start = model.vec(cfg.gfu)
    levels = [(v, level, model.vec(gfu)) for v, gfus in cfg.time.scheme.gfus.items() for level, gfu in gfus.items()]
    levels = {"time levels " + " ".join(f"{v}:{level}" for v, level, _ in levels): np.concatenate([x for _, _, x in levels])}
    x = cfg.gfu.vec.FV().NumPy()
    x[:] = x * (1 + 0.01 * np.sin(1 + np.arange(x.size)))
    blf = cfg.time.scheme.blf
    res = cfg.gfu.vec.CreateVector()
    blf.Apply(cfg.gfu.vec, res)
    blf.AssembleLinearization(cfg.gfu.vec)
    probe, act = cfg.gfu.vec.CreateVector(), cfg.gfu.vec.CreateVector()
    probe.FV().NumPy()[:] = np.cos(np.arange(x.size))
    act.data = blf.mat * probe
    return cfg, {**levels, "initial state": start, "residual": res.FV().NumPy().copy(), "matrix": act.FV().NumPy().copy()}


def differ(a, b, tol=1e-11):
    if list(a) != list(b):
        return f"{list(a)} instead of {list(b)}"
    for k in a:
        if a[k].shape != b[k].shape:
            return f"{k}: {a[k].size} and {b[k].size} unknowns"
        scale = np.abs(a[k]).max() + 1e-30
        d = np.abs(a[k] - b[k]).max() / scale
        if not d <= tol:
            return f"{k} differs by {d:.3e} (relative)"
    return None


def run(w, s):
    legal(s["palette"] and len(s["sides"]) == 4 and all(0 <= x < len(s["palette"]) for x in s["sides"])
          and len(s["layers"]) == {"square": 1, "layers": 2, "layers3": 3}[s["mesh"]] and len(s["history"]) == 2 and len(s["hash"]) == 2
          and all(len(x) == 2 and x[0] in (BKINDS if s["viscous"] else BKINDS[:-1]) and x[1] > 0.5 for x in s["palette"]))
    for y in s["layers"]:
        legal(y["initial"] > 0.5 and (y["sponge"] is None or (len(y["sponge"]) >= 4 and y["sponge"][2] > 0.5)))
        if y["sponge"] and y["sponge"][0] == "psponge":
            legal(len(y["sponge"]) == 5 and s["order"] >= y["sponge"][3] >= y["sponge"][4] >= 0)
    mesh = runs.mesh_of(s["mesh"])
    mats = list(dict.fromkeys(mesh.GetMaterials()))
    legal(len(mats) == len(s["layers"]))

    def canonical(cfg, inf):
        for b in cfg.bcs:
            if b in SIDES:
                cfg.bcs[b] = boundary(s["palette"][s["sides"][SIDES.index(b)]], inf)
        for m, y in zip(mats, s["layers"]):
            cfg.dcs[m] = initial(y["initial"], inf)
            if y["sponge"]:
                cfg.dcs[m] = layer(y["sponge"], inf)

    cfg, want = problem(s, canonical, None)
    legal(all(np.isfinite(x).all() for x in want.values()))
    hdg.check_orders(cfg, s["order"], {m: y["sponge"][3] for m, y in zip(mats, s["layers"]) if y["sponge"] and y["sponge"][0] == "psponge"})
    for k in range(2):
        trace = []
        seed, hashing = s["history"][k], s["hash"][k]
        _, got = problem(s, lambda cfg, inf: history(cfg, inf, s, mats, random.Random(seed), trace), hashing)
        _, again = problem(s, lambda cfg, inf: history(cfg, inf, s, mats, random.Random(seed), []), hashing + 1 if hashing >= 0 else 5)
        w.note("history", trace)
        w.fired["hash order"] += 2
        w.state(s["mesh"], s["order"], s["viscous"], str(s["palette"]), str(s["sides"]), str(s["layers"]), str(trace), hashing)
        bad = differ(got, again, 0.0)
        require(bad is None, "address-order", lambda: f"the same assignments {trace} under another order of the hashes: {bad}")
        bad = differ(want, got)
        require(bad is None, "arrangement", lambda: f"assigned as {trace} instead of region by region ({describe(s)}): {bad}")
        if any(t[0] in ("shared", "copies") and "|" in t[1] for t in trace) or any(y["sponge"] for y in s["layers"]):
            w.probe("nontrivial")
    exchange(w, s, mats, want, cfg)
    keep_book(w, s["book"], s["hash"][0])


_periodic = {}


def keep_book(w, s, hashing):
    """The conditions that are set on the regions, and what is told about them, follow from the assignments"""
    name = s["mesh"]
    if name.startswith("square-"):
        if name not in _periodic:
            _periodic[name] = model.square(periodic=name[7:])
        mesh = _periodic[name]
    else:
        mesh = runs.mesh_of(name)
    HASH["rng"] = random.Random(hashing)
    try:
        _keep_book(w, s, model.flow(mesh), mesh)
    finally:
        HASH["rng"] = None


def _keep_book(w, s, cfg, mesh):
    regions = {"bcs": list(dict.fromkeys(mesh.GetBoundaries())), "dcs": list(dict.fromkeys(mesh.GetMaterials()))}
    due = {x: {r: [] for r in regions[x]} for x in regions}
    made, facts = [], {}
    kinds = {x: dict(getattr(cfg, x).options) for x in regions}
    for k, act in enumerate(s["acts"]):
        what = f"assignment {k} {act} of {s['acts'][:k]} on {s['mesh']}"
        if act[0] == "set":
            legal(len(act) == 6 and act[3])
            there, where = getattr(cfg, act[1]), act[1]
            options = sorted(kinds[where])
            kind = kinds[where]["periodic" if act[2] == PERIODIC and where == "bcs" else options[act[2] % len(options)]]
            names = [x if isinstance(x, str) else regions[where][x % len(regions[where])] for x in act[3]]
            hit = [r for r in regions[where] if r in (names if act[4] else "|".join(names).split("|"))]
            c = kind.name
            if act[5] == "object":
                c = kind()
            elif act[5] == "again":
                old = [x for x in made if type(x) in kinds[where].values()]
                c = old[act[2] % len(old)] if old else kind()
            there[names if act[4] else "|".join(names)] = c
            if hit:
                got = there[hit[0]][-1:]
                require(got and (got[0] is c if act[5] != "name" else type(got[0]) is kind), "book-object", lambda: f"{what}: {got} on {hit[0]}")
                if act[5] == "name":
                    require(not any(got[0] is x for x in made), "book-shared", lambda: f"{what}: the condition is one that was set before")
                c = got[0]
                if not any(c is x for x in made):
                    made.append(c)
                    facts[id(c)] = told(c)
                for r in hit:
                    due[where][r].append(c)
        elif act[0] == "configure" and made:
            c = made[act[1] % len(made)]
            for key in ("fields", "order", "target_state", "relaxation_factor"):
                if key in c.data:
                    value = flowfields(p=1 + act[2]) if key in ("fields", "target_state") else 0.1 * (1 + act[2]) if key[0] == "r" else act[2]
                    if key == "fields" and isinstance(c, (InviscidWall, Symmetry)):
                        continue
                    setattr(c, key, value)
                    facts[id(c)] = told(c)
                    break
        elif act[0] == "clear":
            getattr(cfg, act[1]).clear()
            due[act[1]] = {r: [] for r in regions[act[1]]}
        elif act[0] == "wrong":
            there = getattr(cfg, act[1])
            value = {"name": "no_such_condition", "type": 3.0, "class": type(made[0]) if made else Initial}[act[2]]
            try:
                there[regions[act[1]][0]] = value
            except (ValueError, TypeError):
                pass
            else:
                require(False, "book-accepted", lambda: f"{what}: was accepted")
        for where in regions:
            check_book(getattr(cfg, where), due[where], where, what, kinds[where])
        for c in made:
            require(told(c) == facts[id(c)], "book-changed", lambda: f"{what}: a condition {type(c).__name__} that was not touched has changed")
    w.probe("assignments booked", len(s["acts"]))


def told(c):
    return {k: (id(v) if isinstance(v, (ngs.CF, flowfields)) else v) for k, v in c.data.items()}


def ids(x):
    """Which objects, a region that is named twice may have one twice"""
    return list(dict.fromkeys(id(c) for c in x))


def check_book(there, due, where, what, kinds):
    show = {r: [type(c).__name__ for c in x] for r, x in due.items()}
    require(list(there) == list(due), "book-regions", lambda: f"{what}: regions {list(there)} instead of {list(due)}")
    for r in due:
        require(ids(there[r]) == ids(due[r]), "book", lambda: f"{what}: {[type(c).__name__ for c in there[r]]} on {r}, due {show}")
    for name, kind in kinds.items():
        have = [r for r in due if any(isinstance(c, kind) for c in due[r])]
        require(there.has_condition(name) == there.has_condition(kind) == bool(have), "book-has", lambda: f"{what}: has_condition({name}), due {have}")
        require(there.get_region(kind) == have and there.get_region(kind, as_pattern=True) == "|".join(have), "book-region",
                lambda: f"{what}: {name} is told to be on {there.get_region(kind)}, due {have}")
        all_ = [c for r in due for c in due[r] if isinstance(c, kind)]
        want = {"|".join(r for r in due if any(c is x for x in due[r])): id(c) for c in {id(c): c for c in all_}.values()}
        got = {k: id(c) for k, c in there.to_pattern(name).items()}
        require(list(got) == list(want) and (got == want or len(want) < len(set(ids(all_)))), "book-pattern", lambda: f"{what}: {name} has patterns {list(got)}, due {list(want)}")
    if where == "bcs":
        periodic = [r for r in due if any(type(c).__name__ == "Periodic" for c in due[r])]
        outer = [r for r in due if due[r] and r not in periodic]
        got = there.get_periodic_boundaries(), there.get_domain_boundaries(), there.get_domain_boundaries(as_pattern=True)
        require(got == (periodic, outer, "|".join(outer)), "book-boundaries", lambda: f"{what}: periodic and domain boundaries {got}, due {periodic}, {outer}")
    else:
        for got, ok in ((there.get_psponge_layers(), lambda c: isinstance(c, PSpongeLayer)),
                        (there.get_sponge_layers(), lambda c: isinstance(c, SpongeLayer) and not isinstance(c, PSpongeLayer)),
                        (there.get_grid_deformations(), lambda c: type(c).__name__ == "GridDeformation")):
            want = {r: [c for c in due[r] if ok(c)][-1:] for r in due}
            want = {r: id(x[0]) for r, x in want.items() if x}
            require({r: id(c) for r, c in got.items()} == want, "book-layers", lambda: f"{what}: {got}, due {show}")


def describe(s):
    return {"sides": dict(zip(SIDES, (s["palette"][i][0] for i in s["sides"]))), "layers": [(y["initial"], y["sponge"]) for y in s["layers"]]}


def history(cfg, inf, s, mats, rng, trace):
    """Set the same conditions in a seeded way.  Returns whether to initialise twice"""
    todo = []
    for p, spec in enumerate(s["palette"]):
        names = [b for b in SIDES if s["sides"][SIDES.index(b)] == p]
        todo += groups(names, lambda spec=spec: boundary(spec, inf), spec[0], cfg.bcs, rng)
    for scale in sorted({y["initial"] for y in s["layers"]}):
        names = [m for m, y in zip(mats, s["layers"]) if y["initial"] == scale]
        todo += groups(names, lambda scale=scale: initial(scale, inf), "initial", cfg.dcs, rng)
    specs = []
    for y in s["layers"]:
        if y["sponge"] and y["sponge"] not in specs:
            specs.append(y["sponge"])
    for spec in specs:
        names = [m for m, y in zip(mats, s["layers"]) if y["sponge"] == spec]
        todo += groups(names, lambda spec=spec: layer(spec, inf), spec[0], cfg.dcs, rng)
    rng.shuffle(todo)
    if rng.random() < 0.5:
        trace.append(["former", former(cfg, inf, s, mats, rng)])
    if rng.random() < 0.25:
        # something else first, that is cleared again
        cfg.bcs["left|top"] = FarField(fields=inf)
        cfg.dcs[mats[0]] = SpongeLayer(function=ngs.CF(1), target_state=inf)
        cfg.bcs.clear()
        cfg.dcs.clear()
        trace.append(["cleared", ""])
    noise = []
    for how, names, make, where in todo:
        if rng.random() < 0.4:
            noise.append([bytearray(rng.randrange(1, 4000)) for _ in range(5)])
        if how == "copies":
            for n in names:
                where[n] = make()
        else:
            if rng.random() < 0.3:
                names = names + ["nowhere"]
                rng.shuffle(names)
            c = make()
            if isinstance(c, (InviscidWall, Symmetry)) and rng.random() < 0.5:
                c = c.name
            where[names if rng.random() < 0.3 else "|".join(names)] = c
        trace.append([how, "|".join(names), type(make()).__name__])
    twice = rng.random() < 0.3
    if twice:
        trace.append(["initialised twice", ""])
    return twice


def former(cfg, inf, s, mats, rng):
    """The solver was set up for another problem before, with boundaries and layers that had no condition then"""
    order = rng.choice((s["order"], s["order"], rng.randint(0, 2)))
    sides = [rng.choice((None, rng.randrange(len(s["palette"])), s["sides"][k])) for k in range(4)]
    layers = [y["sponge"] for y in s["layers"]]
    layers = rng.choice((layers[1:] + layers[:1], layers[::-1], [None] * len(layers), layers[:1] * len(layers), layers))
    thermal = any(x is not None and s["palette"][x][0] == "isothermal" for x in sides)
    viscous = s["viscous"] if thermal or rng.random() < 0.6 else not s["viscous"]
    cfg.fem.order = order
    cfg.riemann_solver = rng.choice((s["riemann"], "lax_friedrich", "hll"))
    cfg.time.scheme = rng.choice((s["scheme"], "implicit_euler", "bdf2"))
    viscosity(cfg, viscous, s["mixed"])
    cfg.optimizations.bonus_int_order = {"vol": rng.randint(0, 1), "bnd": rng.randint(0, 1)}
    for b, x in zip(SIDES, sides):
        if x is not None:
            cfg.bcs[b] = boundary(s["palette"][x], inf)
    for m, spec in zip(mats, layers):
        cfg.dcs[m] = initial(1.0, inf)
        if spec:
            cfg.dcs[m] = layer(spec[:3] + [min(x, order) for x in spec[3:]] if spec[0] == "psponge" else spec, inf)
    cfg.initialize()
    if rng.random() < 0.5:
        cfg.time.assemble()
    x = cfg.gfu.vec.FV().NumPy()
    x[:] = np.sin(1 + np.arange(x.size))
    cfg.bcs.clear()
    cfg.dcs.clear()
    cfg.fem.order = s["order"]
    cfg.riemann_solver = s["riemann"]
    cfg.time.scheme = s["scheme"]
    viscosity(cfg, s["viscous"], s["mixed"])
    cfg.optimizations.bonus_int_order = {"vol": 0, "bnd": 0}
    return f"order {order}, {sides}, {layers}, viscous {viscous}"


def viscosity(cfg, viscous, mixed):
    cfg.dynamic_viscosity = "constant" if viscous else "inviscid"
    cfg.fem.mixed_method = mixed if viscous else "inactive"
    if viscous:
        cfg.reynolds_number = 50


def groups(names, make, what, where, rng):
    names = list(names)
    rng.shuffle(names)
    out = []
    while names:
        k = rng.randint(1, len(names))
        part, names = names[:k], names[k:]
        out.append(("copies" if rng.random() < 0.3 else "shared", part, make, where))
    return out


def exchange(w, s, mats, want, cfg):
    """Another condition in one place changes the equations there, and nowhere else"""
    k = s["exchange"] % (len(s["palette"]) + len(s["layers"]))
    mesh = runs.mesh_of(s["mesh"])
    other = {**s, "palette": [list(x) for x in s["palette"]], "layers": [dict(y) for y in s["layers"]]}
    if k < len(s["palette"]):
        kind, scale = s["palette"][k]
        if kind in ("wall", "symmetry"):
            other["palette"][k] = ["farfield", 1.05]
        else:
            other["palette"][k] = [kind, scale * 1.03]
        regions = [b for b in SIDES if s["sides"][SIDES.index(b)] == k]
        parts = [mesh.Boundaries(b) for b in regions]
    else:
        y = s["layers"][k - len(s["palette"])]
        if not y["sponge"]:
            return
        if y["sponge"][0] == "psponge" and y["sponge"][3] != y["sponge"][4]:
            new = list(y["sponge"])
            new[1] *= 1.5                       # no target state, the weight counts
        else:
            new = list(y["sponge"])
            new[2] *= 1.03
        other["layers"][k - len(s["palette"])]["sponge"] = new
        regions = [mats[k - len(s["palette"])]]
        parts = [mesh.Materials(regions[0])]
    if not regions:
        return

    def canonical(cfg, inf):
        for b in cfg.bcs:
            if b in SIDES:
                cfg.bcs[b] = boundary(other["palette"][s["sides"][SIDES.index(b)]], inf)
        for m, y in zip(mats, other["layers"]):
            cfg.dcs[m] = initial(y["initial"], inf)
            if y["sponge"]:
                cfg.dcs[m] = layer(y["sponge"], inf)

    _, got = problem(s, canonical, None)
    scale = np.abs(want["residual"]).max()
    changed = np.abs(got["residual"] - want["residual"]) > 1e-11 * scale
    allowed = np.zeros(changed.size, bool)
    for name, part in zip(regions, parts):
        dofs = np.array(list(cfg.fes.GetDofs(part)), bool)
        require((changed & dofs).any(), "condition-dropped",
                lambda: f"{describe(s)}: changing {regions} to {describe(other)} does not change the equations on {name}")
        allowed |= dofs
    require(not (changed & ~allowed).any(), "condition-elsewhere",
            lambda: f"{describe(s)}: changing {regions} changes {np.flatnonzero(changed & ~allowed).size} equations elsewhere")
    w.probe("conditions exchanged")


Condition.__hash__ = seeded_hash
