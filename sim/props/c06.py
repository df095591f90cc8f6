"""C06: the rows of the sensor files."""
import ast
import csv
import io
import math
import os

import numpy as np
import ngsolve as ngs

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal, scheduled

QUICK = 6000
THOROUGH = 100000
RULE = ("a seeded model run with one to four sensors (point, vertices of a boundary, domain, boundary, and the L2 variants; seeded rate, regions, fields), in up to "
        "three lives that overwrite or append, each killed, interrupted or hit by a disk error at a seeded write, or left between "
        "steps; buffers of seeded size; non-trivial: a life ended early, several sensors, or rows were appended")
MEASURE = "distinct (kinds of sensors, rates, steps, mode, outcome, rows present) situations"
REAL = "SensorStream, the five sensors, IOConfiguration, TransientConfig, csv module, text and binary buffering of Python"
STUB = "weak form of the model solver; raw file writes counted and cut by the simulator; reference values from cell areas and edge lengths"
ASSUMPTIONS = ["a killed process loses nothing that it handed to the kernel", "files with a torn last row are not appended to"]

FIELDS = ["U", "W", "V", "M", "Q", "V3", "M3", "L"]
KINDS = ("point", "domain", "domain_L2", "boundary", "boundary_L2")
POINTS = {"square": [(0.31, 0.07), (-0.21, 0.3), (0.4, -0.13), (-0.4, -0.22)],
          "layers": [(0.31, 0.07), (-0.21, 0.3), (0.4, -0.13), (-0.4, -0.22)],
          "cube": [(0.31, 0.07, 0.11), (-0.21, 0.3, -0.4), (0.4, -0.13, 0.23), (-0.4, -0.22, -0.17)]}


def gen(rng, tier, i):
    mesh = rng.choice(("square", "square", "layers", "layers", "cube"))
    sensors = []
    for k in range(rng.randint(1, 4)):
        kind = rng.choice(KINDS)
        x = {"kind": kind, "name": f"s{k}", "rate": rng.choice((1, 1, 2, 3, 5)),
             "fields": rng.sample(FIELDS, rng.randint(1, 2)), "order": rng.choice((None, None, 2, 8))}
        x["points" if kind == "point" else "regions"] = places(rng, kind, mesh)
        if isinstance(x.get("points"), str):
            x["fields"] = ["X"]
        sensors.append(x)
    lives = []
    for k in range(rng.randint(1, 3)):
        g = G.grid(rng, nmax=6, simple=rng.random() < 0.75, digits=7)
        x = rng.random()
        faults, leave = [], None
        if x < 0.45:
            faults = [{"on": "write", "op": rng.randint(1, (4 + g["n"]) * len(sensors)), "sticky": rng.random() < 0.3,
                       "kind": rng.choice(("crash", "crash", "interrupt", "enospc", "eio", "short")),
                       "frac": rng.choice((0.0, 0.3, 0.7, 1.0))}]
        elif x < 0.65:
            leave = [rng.randint(0, g["n"] - 1), rng.choice(("close", "drop", "abort", "interrupt", "crash"))]
        edits = []
        for _ in range(rng.choice((0, 0, 1, 2)) if k else 0):
            j = rng.randrange(len(sensors))
            kind = sensors[j]["kind"]
            what = rng.choice(("rate", "fields", "scale", "places"))
            edits.append([j, what, rng.choice((1, 2, 3)) if what == "rate" else rng.sample(FIELDS, rng.randint(1, 3))
                          if what == "fields" else rng.choice((1, 2, -3)) if what == "scale" else places(rng, kind, mesh)])
        lives.append({"grid": g, "mode": rng.choice(("w", "a", "a")), "faults": faults, "leave": leave, "fresh": rng.random() < 0.4,
                      "edits": edits, "reinit": rng.random() < 0.2, "off": rng.choice(("csv", "stream")) if rng.random() < 0.06 else None})
    return {"sys": {**G.system(rng), "mesh": mesh}, "sensors": sensors, "lives": lives, "buf": rng.choice((16, 64, 4096)),
            "gfu": rng.random() < 0.2}


def places(rng, kind, mesh):
    if kind == "point" and rng.random() < 0.15:
        return rng.choice(("left", "left|top", "bottom|right", ".*"))
    if kind == "point":
        return [list(p) for p in rng.sample(POINTS[mesh], rng.randint(1, 3))]
    if kind.startswith("domain"):
        return rng.choice((None, "l0", ["l1", "l0"], ["l0"], "l0|l1", "l7|l1", ["l0", "gone", "l1"])) if mesh == "layers" else None
    return rng.choice(("left", "left|top", ["right", "left"], ["top"], "gone|right", ["gone", "top"]) + ((None,) if mesh != "layers" else ()))


# --------------------------------------------------------------------------- what a sensor has to measure

def size(a, b, c=None):
    """Length of an edge or area of a triangle"""
    return float(np.linalg.norm(b - a) if c is None else 0.5 * np.linalg.norm(np.cross(b - a, c - a)))


class Geometry:

    def __init__(self, mesh):
        self.mesh = mesh
        self.area = np.array(ngs.Integrate(ngs.CF(1), mesh, element_wise=True))
        self.mats = [el.mat for el in mesh.Elements(ngs.VOL)]
        verts = [set(v.nr for v in el.vertices) for el in mesh.Elements(ngs.VOL)]
        pts = [p.point for p in mesh.vertices]
        self.corners = {}           # boundary -> vertices on it
        for el in mesh.Elements(ngs.BND):
            self.corners.setdefault(el.mat, set()).update(pts[v.nr] for v in el.vertices)
        self.ends = []
        self.edges = []             # name, length, cell
        for el in mesh.Elements(ngs.BND):
            vs = [v.nr for v in el.vertices]
            cells = [c for c, v in enumerate(verts) if set(vs) <= v]
            if len(cells) == 1:
                self.edges.append((el.mat, size(*(np.array(pts[v]) for v in vs)), cells[0]))
                self.ends.append([pts[v] for v in vs])
        self.cells = [[pts[v.nr] for v in el.vertices] for el in mesh.Elements(ngs.VOL)]
        self.moments = {}

    def moment(self, inside, k, degree, power):
        """Integral of the weight over a cell or an edge, by a Gauss rule"""
        key = inside, k, degree, power
        if key not in self.moments:
            z, g = np.polynomial.legendre.leggauss(10)
            z, g = (z + 1) / 2, g / 2
            a, *corners = map(np.array, self.cells[k] if inside else self.ends[k])
            measure = self.area[k] if inside else self.edges[k][1]
            # a cube, whose sides are contracted to corners
            points = [(a, measure * math.factorial(len(corners)), 1.0)]
            for c in corners:
                points = [(x + left * r * (c - a), f * v * left, left * (1 - r)) for x, f, left in points for r, v in zip(z, g)]
            self.moments[key] = sum(f * weight(x[0], x[1], degree)**power for x, f, _ in points)
        return self.moments[key]

    def cell(self, p):
        return self.mesh(*p).nr

    def vertices(self, names):
        return set().union(*(v for k, v in self.corners.items() if names == ".*" or k in names.split("|")))


_geo = {}


def geometry(name):
    if name not in _geo:
        _geo[name] = Geometry(runs.mesh_of(name))
    return _geo[name]


def weight(x, y, degree):
    return 1 + x**degree - 0.5 * y**degree + x**(degree // 2) * y**(degree - degree // 2)


def degree_of(x):
    """A degree that the rule of the sensor integrates exactly"""
    order = x.get("order") or 5
    return order // 2 if x["kind"].endswith("L2") else order


def components(field, u, w):
    """Values of a field per cell, one row per component"""
    return {"U": [u], "W": [w], "V": [u, 2 * w], "M": [u, w, u * w, 1 + 0 * u], "Q": [u],
            "V3": [u, -w, u + w], "M3": [u, w, 2 * u, 3 * w, 0 * u, u - w, u + w, 1 + 0 * u, -u], "L": [w, 2 * w, u, u * u]}[field]


NAMES = {"X": [" "], "U": [" "], "W": [" "], "Q": [" "], "V": ["x", "y"], "M": ["xx", "xy", "yx", "yy"], "V3": ["x", "y", "z"], "M3": [a + b for a in "xyz" for b in "xyz"], "L": ["0", "1", "2", "3"]}


def regions_of(x, geo):
    r = x.get("regions")
    if r is None:
        return [None]
    # regions that do not exist are left out
    there = set(geo.mats) if x["kind"].startswith("domain") else set(geo.corners)
    return ["|".join(p for p in r.split("|") if p in there)] if isinstance(r, str) else [p for p in r if p in there]


def measured(x, geo, u, w, t):
    out = []
    scale = x.get("scale", 1)
    if x["kind"] == "point":
        for p in x["points"]:
            if x["fields"] == ["X"]:
                out.append(scale * (p[0] - 2 * p[1] + t))
                continue
            c = geo.cell(p)
            for f in x["fields"]:
                factor = weight(p[0], p[1], degree_of(x)) if f == "Q" else 1
                out += [scale * factor * v[c] for v in components(f, u, w)]
        return out
    for r in regions_of(x, geo):
        inside = (lambda m: True) if r is None else (lambda m: m in r.split("|"))
        if x["kind"].startswith("domain"):
            entities = [(c, c, geo.area[c]) for c in range(len(u)) if inside(geo.mats[c])]
        else:
            entities = [(k, c, l) for k, (m, l, c) in enumerate(geo.edges) if inside(m)]
        for f in x["fields"]:
            parts = [(c, geo.moment(x["kind"].startswith("domain"), k, degree_of(x), 2 if x["kind"].endswith("L2") else 1) if f == "Q" else l) for k, c, l in entities]
            vs = [scale * v for v in components(f, u, w)]
            if x["kind"].endswith("L2"):
                out.append(np.sqrt(sum(a * sum(v[c]**2 for v in vs) for c, a in parts)))
            else:
                out += [sum(a * v[c] for c, a in parts) for v in vs]
    return out


def head(x, geo):
    one_f, one_c = [], []
    for f in x["fields"]:
        names = ["L2"] if x["kind"].endswith("L2") else NAMES[f]
        one_f += [f] * len(names)
        one_c += names
    places = [str(tuple(p)) for p in x["points"]] if x["kind"] == "point" else regions_of(x, geo)
    return [["point" if x["kind"] == "point" else "region"] + [p for p in places for _ in one_f],
            ["field"] + one_f * len(places), ["component"] + one_c * len(places), ["t"] + [" "] * len(one_f) * len(places)]


# --------------------------------------------------------------------------- run

def configure(cfg, s):
    cfg.io.sensor = True
    for x in s["sensors"]:
        setattr(cfg.io.sensor, x["kind"], x["name"])
        if x.get("order") and x["kind"] != "point":
            cfg.io.sensor[x["kind"]][x["name"]].integration_order = x["order"]
        for what in ("rate", "fields", "places"):
            adjust(cfg, x, what)
    if s["gfu"]:
        cfg.io.gfu = True


def adjust(cfg, x, what):
    sensor = cfg.io.sensor[x["kind"]][x["name"]]
    if what in ("fields", "scale"):
        # a vertex belongs to several cells, values there are those of a continuous field
        u, w = cfg.parts[0], cfg.parts[1]
        fields = {"X": ngs.x - 2 * ngs.y + cfg.time.timer.t, "U": cfg.parts[0], "W": cfg.parts[1], "V": ngs.CF((cfg.parts[0], 2 * cfg.parts[1])),
                  "M": ngs.CF((cfg.parts[0], cfg.parts[1], cfg.parts[0] * cfg.parts[1], 1), dims=(2, 2)),
                  "Q": cfg.parts[0] * weight(ngs.x, ngs.y, degree_of(x)),
                  "V3": ngs.CF((u, -w, u + w)), "M3": ngs.CF((u, w, 2 * u, 3 * w, 0, u - w, u + w, 1, -u), dims=(3, 3)), "L": ngs.CF((w, 2 * w, u, u * u))}
        sensor.fields = {f: x.get("scale", 1) * fields[f] for f in x["fields"]}
    elif what == "rate":
        runs.refuse(sensor, "rate", x["rate"])
        sensor.rate = x["rate"]
    elif x["kind"] == "point":
        sensor.points = x["points"] if isinstance(x["points"], str) else tuple(tuple(p) for p in x["points"])
    else:
        r = x.get("regions")
        sensor.regions = tuple(r) if isinstance(r, list) else r


def split(state, ndof):
    return state[:ndof], state[ndof:]


def run(w, s):
    legal(s["sensors"] and len({x["name"] for x in s["sensors"]}) == len(s["sensors"]))
    legal(all(x["rate"] >= 1 and x["fields"] and len(set(x["fields"])) == len(x["fields"]) for x in s["sensors"]))
    legal(all(x["kind"] != "point" or x["points"] for x in s["sensors"]))
    legal(all(x.get("order") in (None, 2, 8) for x in s["sensors"]))
    legal(all(x.get("regions") is None or x["regions"] for x in s["sensors"]))
    sane(s)
    geo = geometry(s["sys"]["mesh"])
    legal(all(all(regions_of(x, geo)) or x.get("regions") is None for x in s["sensors"]))
    ne = runs.mesh_of(s["sys"]["mesh"]).ne
    w.bufsize = max(1, s["buf"])
    have = {x["name"]: [] for x in s["sensors"]}        # rows that are on disk
    torn = {x["name"]: False for x in s["sensors"]}
    cfg = None
    crashed = False
    nontrivial = len(s["sensors"]) > 1
    for k, life in enumerate(s["lives"]):
        g = life["grid"]
        legal(g["n"] >= 1 and life["mode"] in ("w", "a"))
        mode = "w" if any(torn.values()) else life["mode"]
        named = [content(w, x["name"]) for x in s["sensors"] if isinstance(x.get("points"), str)]
        if not all(x.startswith("point,") and "\r\n" in x for x in named) or (named and any(e[1] == "places" for e in life["edits"])):
            mode = "w"              # the order of the points is in the header only
        if cfg is None or life["fresh"] or crashed:
            if cfg is not None:
                cfg = None
                w.reboot()
            cfg = runs.build(s["sys"], g)
            configure(cfg, s)
        else:
            cfg.time.timer.interval, cfg.time.timer.step = runs.interval_of(g), float(g["step"])
            if life.get("reinit"):
                cfg.initialize()
                for x in s["sensors"]:
                    adjust(cfg, x, "fields")
        for j, what, value in life.get("edits", []):
            legal(j < len(s["sensors"]) and (what != "scale" or value) and (what == "places" or value))
            x = s["sensors"][j]
            if what == "fields" and x["fields"] == ["X"] or isinstance(x.get("points"), str) != (what == "places" and isinstance(value, str)) and what == "places":
                continue
            x[what if what != "places" else "points" if x["kind"] == "point" else "regions"] = value
            legal(x["kind"] != "point" or x["points"])
            legal(x.get("regions") is None or x["regions"])
            legal(x["rate"] >= 1 and len(set(x["fields"])) == len(x["fields"]))
            adjust(cfg, x, what)
        sane(s)
        if life.get("off"):
            legal(life["off"] in ("csv", "stream"))
            crashed = off(w, cfg, s, life, mode)
            continue
        cfg.io.sensor.mode = mode
        states = {float(g["start"]): model.vec(cfg.gfu)}
        before = {x["name"]: content(w, x["name"]) for x in s["sensors"]}
        w.arm(life["faults"])
        h = runs.drive(w, cfg, stop_after=life["leave"])
        w.simtime += float(g["step"]) * len(h.labels)
        crashed = h.outcome == "crash"
        w.crashed = crashed
        for t in h.labels:
            states[t] = h.states[t]
        check(w, s, geo, ne, g, life, mode, h, states, have, torn, before)
        nontrivial |= h.outcome != "done" or (mode == "a" and k > 0)
        w.state(tuple((x["kind"], x["rate"]) for x in s["sensors"]), g["n"], mode, h.outcome,
                tuple(len(v) for v in have.values()))
        if h.outcome == "done" and not any(torn.values()) and mode == "w":
            frame(w, cfg, s, have)
    if nontrivial:
        w.probe("nontrivial")


def off(w, cfg, s, life, mode):
    """A run that measures, but has no files to write to, or that does not measure; later runs find the sensors as they were"""
    folder = os.path.join(w.root, "sensors")
    if life["off"] == "stream":
        h = runs.without(w, cfg, life, "sensor", folder)
        configure(cfg, s)
    else:
        cfg.io.sensor.to_csv, cfg.io.sensor.mode = False, mode
        h = runs.without(w, cfg, life, None, folder)
        cfg.io.sensor.to_csv = True
    w.crashed = h.outcome == "crash"
    return w.crashed


def sane(s):
    legal(all((x["fields"] == ["X"]) == isinstance(x.get("points"), str) and (x["fields"] == ["X"] or "X" not in x["fields"]) for x in s["sensors"]))


def in_order(x, geo, text):
    """The vertices of a boundary in the order of the file, which is up to the sensor"""
    want = geo.vertices(x["points"])
    line, end, _ = text.partition("\r\n")
    got = [ast.literal_eval(c) for c in next(csv.reader([line]))[1:]] if end and line.startswith("point,") else sorted(want)
    require(set(got) == want and len(got) == len(want), "points", lambda: f"{x}: points {got}, not {want}")
    return {**x, "points": got}


def check(w, s, geo, ne, g, life, mode, h, states, have, torn, before):
    n = len(h.labels)
    for x in s["sensors"]:
        name, rate = x["name"], x["rate"]
        old = have[name] if mode == "a" else []
        text = content(w, name)
        if isinstance(x.get("points"), str):
            x = in_order(x, geo, text)

        def row(t):
            return [t] + measured(x, geo, states[t][:ne], states[t][ne:], t)

        groups = [[float(g["start"])]] + [[t] if it % rate == 0 else [] for it, t in enumerate(h.labels)]
        if n == g["n"]:
            groups.append([h.labels[-1]] if (n - 1) % rate else [])
        header = head(x, geo) if mode == "w" else []
        if h.outcome == "done":
            low = high = sum(groups, [])
        elif life["leave"]:
            low = high = sum(groups[:n], [])
        else:
            low, high = sum(groups[:n], []), sum(groups, [])
        *lines, tail = text.split("\r\n")
        what = f"{x} {mode} {g}, {h.outcome} after {h.labels[-1:]}"
        hit = [e for e in w.events if e[0] == "fault" and e[2] == "write"]
        if n == 0 and not life["leave"] and h.outcome != "done" and text in ("", before[name]):
            torn[name] = torn[name] and bool(tail)
            if not text:
                have[name] = []
            continue                # killed or failed before this file was begun
        torn[name] = bool(tail)
        require(not tail or (hit and h.outcome in ("crash", "oserror")), "row-torn", lambda: f"{what}: ends with {tail!r}")
        rows = list(csv.reader(io.StringIO("\r\n".join(lines) + "\r\n" if lines else "")))
        require(rows[:len(old)] == old, "rows-lost", lambda: f"{what}: the rows of an earlier run have changed")
        rows, kept = rows[len(old):], rows[:len(old)]
        want_head = [[cell(c) for c in r] for r in header]
        if n or life["leave"] or h.outcome == "done":
            require(len(rows) >= len(header), "rows-missing", lambda: f"{what}: header is incomplete: {rows}")
        for a, b in zip(rows, want_head):
            require(a[:1] == b[:1] and len(a) == len(b) and (b[0] == "point" or all(
                p == q or q is None for p, q in zip(a, b))), "header", lambda: f"{what}: {a} instead of {b}")
            if b[0] == "point":
                require([p.replace(" ", "") for p in a] == [q.replace(" ", "") for q in b], "header", lambda: f"{what}: {a} instead of {b}")
        data = rows[len(header):]
        require(len(data) >= len(low), "rows-missing", lambda: f"{what}: {len(data)} rows, but {len(low)} were due: t={[r[0] for r in data]}, due {low}")
        require(len(data) <= len(high), "rows-extra", lambda: f"{what}: {len(data)} rows, but only {len(high)} were due: t={[r[0] for r in data]}, due {high}")
        for r, t in zip(data, high):
            want = row(t)
            require(r[0] == str(t) and len(r) == len(want), "row-time", lambda: f"{what}: row {r} instead of one for {t}")
            got = np.array([float(v) for v in r])
            require(runs.close(got, np.array(want), 1e-11), "row-wrong", lambda: f"{what}: row {r} instead of {want}")
        have[name] = kept + rows
        w.note("rows", name, len(have[name]), bool(tail))


def content(w, name):
    with w.quiet():
        path = os.path.join(w.root, "sensors", name + ".csv")
        if not os.path.exists(path):
            return ""
        with open(path, newline="") as f:
            return f.read()


def cell(c):
    return None if c is None else str(c)


def frame(w, cfg, s, have):
    """Read a complete file back the way the stream offers it"""
    if len(have) and sum(len(v) for v in have.values()) % 5:
        return                      # one in five is enough
    for x in s["sensors"]:
        df = cfg.io.sensor.load_as_dataframe(cfg.io.sensor[x["kind"]][x["name"]] if len(x["fields"]) % 2 else x["name"])
        rows = [[float(v) for v in r] for r in have[x["name"]][4:]]
        require(df.index.tolist() == [r[0] for r in rows] and runs.close(df.to_numpy(float), np.array([r[1:] for r in rows]), 1e-14),
                "frame", lambda: f"{x}: the data frame differs from the file")
        w.probe("data frames compared")
