"""C20: the settings of a solver are what was assigned last, whatever was assigned, refused or exchanged before, and in whatever way."""
from copy import deepcopy

import ngsolve as ngs

from dream.compressible import CompressibleFlowSolver
from dream.solver import BonusIntegrationOrder
from dream.time import Timer

from sim import runs, core
from sim.core import require
from sim.model import legal

QUICK = 12000
THOROUGH = 150000
RULE = ("a seeded history of assignments on one or two flow solvers over the whole tree of settings: by attribute, by item, by update with "
        "dotted, nested or mixed keys (several at a time, in seeded order, the choice of a part before or after the settings of that part), "
        "by instance, values of other solvers' parameters, unknown names, values that are refused, updates that are interrupted within; "
        "after every act all settings, read one by one, in the stored form and as text, are compared with a reference tree written down "
        "independently; in the end the stored form is applied to a new solver; non-trivial: a part was exchanged or an assignment refused")
MEASURE = "distinct (setting, way of assigning, position, accepted or refused) situations"
REAL = "configuration, parameter, unique, interface, InterfaceTree, UniqueConfiguration and all settings of the flow solver but those of io"
STUB = "nothing is computed"
ASSUMPTIONS = ["an update that is refused or interrupted in between may have applied the settings before that one",
               "settings that only a viscous flow has are not readable before, but are kept"]


def V(default, good, bad=()):
    return {"default": default, "good": good, "bad": list(bad)}


# Every setting, its default, what may be assigned and what is stored then, and what is refused
_TIMER = {"interval": V((0.0, 1.0), [([0, 2], (0.0, 2.0)), ([0.5, 0.75], (0.5, 0.75)), ([3, 10], (3.0, 10.0))], [[1, 0], [2, 2], [-1, 1], 3, [0, 1, 2]]),
          "step": V(1e-4, [(0.1, 0.1), (1 / 3, 1 / 3), (2, 2.0), (1e-7, 1e-7)], ["x"]), "t": V(0.0, [(0.3, 0.3), (7, 7.0)], ["x"])}
_SCHEME = {"options": {"implicit_euler": {}, "bdf2": {}}, "alias": {"ie": "implicit_euler"}, "default": "implicit_euler"}
_NEWTON = {"max_iterations": V(10, [(3, 3), (1, 1), ("7", 7), (25.0, 25)], ["x", [1]]),
           "convergence_criterion": V(1e-8, [(1e-12, 1e-12), (1e-13 / 3, 1e-13 / 3), (1, 1.0)], [0, -1.0, "x"]),
           "method": {"options": {"newton": {"damping_factor": V(1, [(0.5, 0.5), (2 / 3, 2 / 3), (1, 1.0)], ["x", [1, 2]])}}, "alias": {}, "default": "newton"}}
TREE = {
    "mach_number": V(0.3, [(0.5, 0.5), (0.0, 0.0), (1 / 3, 1 / 3), (2, 2.0)], [-1, -1e-9, "x"]),
    "reynolds_number": V(150, [(50, 50.0), (1e6 / 3, 1e6 / 3), (1, 1.0)], [0, -2.0, "x"]),
    "prandtl_number": V(0.72, [(0.7, 0.7), (1, 1.0)], [0, -0.1, "x"]),
    "equation_of_state": {"options": {"ideal": {"heat_capacity_ratio": V(1.4, [(1.2, 1.2), (5 / 3, 5 / 3)], ["x"])}}, "alias": {"perfect": "ideal"},
                          "default": "ideal"},
    "dynamic_viscosity": {"options": {"inviscid": {}, "constant": {}, "sutherland": {
        "measurement_temperature": V(110.4, [(100.0, 100.0), (99.5, 99.5)]), "measurement_viscosity": V(1.716e-5, [(1e-5, 1e-5)])}},
        "alias": {"euler": "inviscid"}, "default": "inviscid"},
    "scaling": {"options": {"aerodynamic": {}, "acoustic": {}, "aeroacoustic": {}}, "alias": {}, "default": "aerodynamic"},
    "riemann_solver": {"options": {"upwind": {}, "lax_friedrich": {}, "roe": {}, "hll": {}, "hllem": {"theta_0": V(1e-8, [(1e-6, 1e-6), ("0.25", 0.25)], ["x"])}},
                       "alias": {"lf": "lax_friedrich"}, "default": "lax_friedrich"},
    "fem": {"options": {"conservative": {
        "order": V(2, [(0, 0), (3, 3), ("1", 1), (4.0, 4)], ["x"]), "method": {"options": {"hdg": {}}, "alias": {}, "default": "hdg"},
        "mixed_method": {"options": {"inactive": {}, "strain_heat": {}, "gradient": {}}, "alias": {}, "default": "inactive"}}},
        "alias": {}, "default": "conservative"},
    "time": {"options": {"stationary": {}, "transient": {"scheme": _SCHEME, "timer": {"unique": _TIMER, "name": "timer"}},
                         "pseudo_time_stepping": {"scheme": _SCHEME, "timer": {"unique": _TIMER, "name": "timer"},
                                                  "max_time_step": V(1.0, [(3, 3.0), (0.1, 0.1)], ["x"]),
                                                  "increment_at": V(10, [(2, 2), ("5", 5)], ["x"]), "increment_factor": V(10, [(3, 3), (2.0, 2)], ["x"])}},
             "alias": {"pseudo": "pseudo_time_stepping"}, "default": "stationary"},
    "linear_solver": {"options": {"umfpack": {}, "pardiso": {}}, "alias": {}, "default": "umfpack"},
    "nonlinear_solver": {"options": {"umfpack": _NEWTON, "pardiso": _NEWTON}, "alias": {}, "default": "umfpack"},
    "optimizations": {"unique": {
        "compile": {"unique": {"realcompile": V(True, [(False, False), (1, True)]), "wait": V(False, [(True, True)]), "keep_files": V(False, [(True, True)])},
                    "name": "compile"},
        "static_condensation": V(False, [(True, True), (0, False)]),
        "bonus_int_order": {"unique": {k: V(0, [(2, 2), ("3", 3), (1.0, 1)], ["x"]) for k in ("vol", "bnd", "bbnd", "bbbnd")}, "name": "bonusintegrationorder"}},
        "name": "optimizations"},
    "info": V({}, [({"author": "me"}, {"author": "me"}), (None, {})], [3, "x", [1]]),
}
VISCOUS = ("reynolds_number", "prandtl_number")


class Part:
    """The reference for a part of the tree"""

    def __init__(self, spec, option=None):
        self.spec = spec
        if "unique" in spec:
            self.name, children = spec["name"], spec["unique"]
        else:
            self.name = option or spec["default"]
            children = spec["options"][self.name]
        self.children = {k: Part(x) if "options" in x or "unique" in x else x["default"] for k, x in children.items()}
        self.specs = children


def root():
    return Part({"unique": TREE, "name": "compressible"})


def paths(part, prefix=()):
    for k, x in part.children.items():
        yield prefix + (k,)
        if isinstance(x, Part):
            yield from paths(x, prefix + (k,))


def find(part, path):
    for k in path[:-1]:
        part = part.children[k]
    return part, path[-1]


def flat(part, prefix=""):
    out = {}
    for k, x in part.children.items():
        if prefix == "" and k in VISCOUS and part.children["dynamic_viscosity"].name == "inviscid":
            continue
        if isinstance(x, Part):
            out[prefix + k] = x.name
            out.update(flat(x, prefix + k + "."))
        else:
            out[prefix + k] = x
    return out


class Interrupting:
    """The user interrupts the solver while this value is read"""

    def stop(self, *args):
        raise KeyboardInterrupt

    __float__ = __int__ = __index__ = __iter__ = __len__ = __getitem__ = __le__ = __lt__ = __ge__ = __gt__ = __bool__ = __trunc__ = __str__ = stop

    def __repr__(self):
        return "Interrupting()"


def gen(rng, tier, i):
    """Acts only hold seeded numbers, what they refer to depends on the tree at that time"""
    acts = []
    for _ in range(rng.randint(3, 16)):
        x = rng.random()
        act = {"who": rng.choice((0, 0, 0, 1)), "items": [one(rng)], "via": rng.choice(("attr", "attr", "item", "dotted", "nested", "nested", "partly", "sub"))}
        if x < 0.35:
            act["items"] += [one(rng) for _ in range(rng.randint(1, 4))]
            act["via"] = rng.choice(("dotted", "nested", "mixed", "mixed", "kwargs"))
        elif x < 0.45:
            act["via"] = "instance"
        elif x < 0.5:
            act["via"] = "other"
        if rng.random() < 0.1:
            act["unknown"] = rng.randint(0, 3)
        if rng.random() < 0.06:
            act["stop"] = rng.randint(0, 4)
        acts.append(act)
    return {"acts": acts, "mesh": "square", "replace": rng.random() < 0.3}


def one(rng):
    return {"at": rng.randint(0, 10**6), "value": rng.randint(0, 11), "bad": rng.random() < 0.12}


def choose(ref, item, taken, option_of):
    """A setting, and the value to give to it.  None if there is none"""
    all_ = [p for p in paths(ref)]
    # settings of parts that are chosen in the same update
    for path, name in option_of.items():
        try:
            part, key = find(ref, path)
            part.specs[key]
        except (KeyError, AttributeError):
            # chosen within a part that is chosen as well
            continue
        all_ += [path + p for p in paths(Part(part.specs[key], name)) if path + p not in all_]
        gone = {path + p for p in paths(part.children[key])} - {path + p for p in paths(Part(part.specs[key], name))}
        all_ = [p for p in all_ if p not in gone]
    all_ = [p for p in all_ if p not in taken]
    if not all_:
        return None
    path = all_[item["at"] % len(all_)]
    spec = {"unique": TREE}
    for k in path:
        if "unique" in spec:
            spec = spec["unique"][k]
        else:
            for option in spec["options"].values():
                if k in option:
                    spec = option[k]
                    break
    if "options" in spec:
        names = list(spec["options"]) + list(spec["alias"])
        if item["bad"]:
            return path, spec, unfit(path, item["value"], "no_such_option"), None
        given = names[item["value"] % len(names)]
        return path, spec, given, spec["alias"].get(given, given)
    if "unique" in spec:
        if item["bad"]:
            return path, spec, unfit(path, item["value"], "nothing"), None
        return path, spec, spec["name"], spec["name"]
    if item["bad"] and spec["bad"]:
        return path, spec, spec["bad"][item["value"] % len(spec["bad"])], None
    given, stored = spec["good"][item["value"] % len(spec["good"])]
    if isinstance(given, dict):
        given = dict(given)
    return path, spec, given, stored


def unfit(path, n, word):
    """What no part of the settings can be replaced with"""
    foreign = BonusIntegrationOrder if path[-1] != "bonus_int_order" else Timer
    return (word, 5, foreign(), int, word, None)[n % 6]


def apply(ref, path, spec, stored):
    try:
        part, key = find(ref, path)
        part.children[key]
    except (KeyError, AttributeError):
        # a setting of a part that was exchanged in the same update is unknown
        return
    if "options" in spec:
        if part.children[key].name != stored:
            part.children[key] = Part(spec, stored)
    elif "unique" in spec:
        part.children[key] = Part(spec)
    else:
        part.children[key] = stored


def nest(path, value):
    for k in reversed(path):
        value = {k: value}
    return value


def merge(a, b):
    for k, v in b.items():
        if k in a and isinstance(a[k], dict) and isinstance(v, dict):
            merge(a[k], v)
        else:
            a[k] = v


def check(w, cfg, mesh, ref, what):
    want = flat(ref)
    got = runs.in_use(cfg, skip=("io",))
    require(got == want, "setting", lambda: f"{what}: { {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)} } (is, due)")
    tree = {k: v for k, v in cfg.to_tree().items() if k != "io" and not k.startswith(("io.", "scaling.dimensionful"))}
    require(tree == want, "stored", lambda: f"{what}: { {k: (tree.get(k), want.get(k)) for k in set(tree) | set(want) if tree.get(k) != want.get(k)} } (stored, due)")
    seen = list(tree)
    for k in seen:
        parent = k.rpartition(".")[0]
        require(not parent or (parent in seen and seen.index(parent) < seen.index(k)), "stored-order", lambda: f"{what}: {k} before {parent}")
    linked(cfg, cfg, mesh, what)


def linked(cfg, part, mesh, what, path=""):
    from dream.config import UniqueConfiguration
    require(part.cfg is cfg and part.mesh is mesh, "not-linked", lambda: f"{what}: {path} does not belong to the solver")
    for k in part:
        try:
            v = part[k]
        except Exception:
            # settings that only a viscous flow has
            continue
        if isinstance(v, UniqueConfiguration):
            linked(cfg, v, mesh, what, f"{path}.{k}")


def run(w, s):
    mesh = runs.mesh_of(s["mesh"])
    legal(all(a["items"] and a["who"] in (0, 1) for a in s["acts"]))
    cfgs, refs = [], []
    for _ in range(2):
        cfg = CompressibleFlowSolver(mesh)
        cfgs.append(cfg)
        refs.append(root())
        check(w, cfg, mesh, refs[-1], "new solver")
    for k, act in enumerate(s["acts"]):
        perform(w, s, k, act, cfgs, refs, mesh)
        for i in range(2):
            check(w, cfgs[i], mesh, refs[i], f"act {k} {w.last} on solver {act['who']}: solver {i}")
    # the stored form describes the solver
    new = CompressibleFlowSolver(mesh)
    if s["replace"]:
        new.update({"time": "pseudo", "riemann_solver": "hllem", "time.increment_at": 4, "fem.order": 5})
    tree = {k: v for k, v in cfgs[0].to_tree().items() if k != "io" and not k.startswith(("io.", "scaling.dimensionful"))}
    before = dict(tree)
    if s["replace"] and "riemann_solver" in tree:
        w.probe("applied to a changed solver")
    new.update(tree)
    require(tree == before, "argument-changed", lambda: f"update changed its argument to {tree}")
    got, want = runs.in_use(new, skip=("io",)), runs.in_use(cfgs[0], skip=("io",))
    require(got == want, "not-applied", lambda: f"{ {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)} } (applied, stored)")
    repr(cfgs[0])


def perform(w, s, k, act, cfgs, refs, mesh):
    who, via = act["who"], act["via"]
    cfg, ref = cfgs[who], refs[who]
    chosen, taken, options = [], set(), {}
    for item in act["items"]:
        c = choose(ref, item, taken, options)
        if c is None:
            continue
        path, spec, given, stored = c
        chosen.append(c)
        taken.add(path)
        if "options" in spec:
            if stored is not None:
                options[path] = stored
            else:
                taken |= {p for p in paths(ref) if p[:len(path)] == path}
        elif "unique" in spec:
            # assigned anew: none of its own settings along with it, whose order is not told apart
            taken |= {p for p in paths(ref) if p[:len(path)] == path}
            taken |= {path[:n] for n in range(1, len(path))}
    legal(chosen)
    if "stop" in act:
        # the n-th setting
        j = act["stop"] % len(chosen)
        p, sp, g, st = chosen[j]
        if sp.get("bad"):
            chosen[j] = p, sp, Interrupting(), None
            w.fired["interrupted"] += 1
    path, spec, given, stored = chosen[0]
    part = cfg
    for key in path[:-1]:
        part = part[key] if via == "item" else getattr(part, key) if via in ("attr", "sub", "instance", "other") else part
    w.last = f"{via} {[('.'.join(c[0]), c[2]) for c in chosen]} after {len(s['acts'][:k])} acts"
    refused = any(c[3] is None for c in chosen)
    argument, copy = None, None
    if via == "other" and not ("options" in spec or "unique" in spec):
        # the parameter of another solver: its value counts
        other = cfgs[1 - who]
        if path == ("mach_number",) and stored is not None:
            given = other.mach_number
            stored = refs[1 - who].children["mach_number"]
    if via == "instance" and "options" in spec and stored is not None:
        current = getattr(part, path[-1])
        kind = current.tree[given]
        given = kind()
        new = Part(spec, stored)
        if stored in ("umfpack", "pardiso") and path == ("nonlinear_solver",):
            given = kind(max_iterations=4)
            new.children["max_iterations"] = 4
    else:
        new = None

    def act_():
        nonlocal argument, copy
        if via in ("attr", "instance", "other"):
            setattr(part, path[-1], given)
        elif via == "item":
            part[path[-1]] = given
        elif via == "sub":
            part.update({path[-1]: given})
        elif via == "partly":
            n = len(path) // 2
            argument = {".".join(path[:n + 1]): nest(path[n + 1:], given)} if n + 1 < len(path) else {".".join(path): given}
            copy = show(argument)
            cfg.update(argument)
        else:
            argument = {}
            for j, (p, sp, g, _) in enumerate(chosen):
                how = via if via != "mixed" else ("dotted", "nested", "nested")[act["items"][min(j, len(act["items"]) - 1)]["at"] % 3]
                bare = any(q[:len(p)] == p and q != p for q, *_ in chosen) or any(p[:len(q)] == q and q != p for q, *_ in chosen)
                if how == "dotted" or how == "kwargs" or bare:
                    argument[".".join(p)] = g
                else:
                    merge(argument, nest(p, g))
            if "unknown" in act:
                argument[("no_such_setting", "time.no.such", "fem.nothing", "x.y")[act["unknown"]]] = 1
            copy = show(argument)
            cfg.update(**argument) if via == "kwargs" else cfg.update(argument)

    try:
        act_()
        error = None
    except (Exception, KeyboardInterrupt) as e:
        error = e
    if argument is not None:
        require(show(argument) == copy, "argument-changed", lambda: f"act {k} {w.last}: the argument of update has become {argument}")
    w.note(k, w.last, refused, type(error).__name__)
    w.state(".".join(path), via, len(chosen), refused, type(spec.get("default")).__name__)
    if refused and error is None:
        # settings of a part that was exchanged in the same update are unknown
        trial = deepcopy(ref)
        for p, sp, g, st in sorted((c for c in chosen if c[3] is not None), key=lambda c: len(c[0])):
            apply(trial, p, sp, st)
        wrong = [c[0] for c in chosen if c[3] is None]
        require(not any(p in set(paths(trial)) for p in wrong), "accepted", lambda: f"act {k} {w.last}: was accepted")
        refused = False
        chosen = [c for c in chosen if c[3] is not None]
    if refused:
        w.probe("nontrivial")
        w.fired["refused"] += 1
        resync(w, cfg, refs, who, chosen, w.last)
        for p, sp, g, st in chosen:
            if p[-1] in VISCOUS and st is not None:
                # may not be readable now
                cfg.update({p[-1]: g})
                apply(refs[who], p, sp, st)
        return
    if error is not None:
        raise error
    for p, sp, g, st in sorted(chosen, key=lambda c: len(c[0])):
        if p == path and via == "other":
            st = stored
        if p == path and new is not None:
            parent, key = find(ref, p)
            parent.children[key] = new
        else:
            apply(ref, p, sp, st)
        if "options" in sp:
            w.probe("nontrivial")


def show(x):
    return {k: show(v) for k, v in x.items()} if isinstance(x, dict) else repr(x)


def resync(w, cfg, refs, who, chosen, what):
    """An update that was refused has applied some of the settings that were to be accepted"""
    got = runs.in_use(cfg, skip=("io",))
    good = sorted((c for c in chosen if c[3] is not None), key=lambda c: len(c[0]))
    for n in range(2**len(good)):
        trial = deepcopy(refs[who])
        for j, (path, spec, given, stored) in enumerate(good):
            if n >> j & 1:
                apply(trial, path, spec, stored)
        if flat(trial) == got:
            # settings that are not readable now count as well
            refs[who] = trial
            return
    require(False, "refused", lambda: f"{what}: was refused, and has left {got}")
