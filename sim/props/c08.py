"""C08: the VTK time series."""
import os
import re
import struct

import numpy as np
import ngsolve as ngs

from sim import gen as G, model, runs, core
from sim.core import require
from sim.model import legal

QUICK = 6000
THOROUGH = 80000
RULE = ("a seeded model run with VTK output (rate, subdivision, region, fields, filename), in up to three lives in the same folder, with the same stream or a new one, each "
        "killed or interrupted before or after a seeded snapshot, hit by an I/O error, or left between steps; non-trivial: a life "
        "ended early, a rate above 1, or output was restricted to a region")
MEASURE = "distinct (rate, steps, subdivision, region, outcome, snapshots) situations"
REAL = "VTKStream, IOConfiguration, TransientConfig, NGSolve's VTKOutput (index and data files are parsed from disk)"
STUB = "weak form of the model solver; a kill hits between two snapshots, not inside NGSolve's own writing"
ASSUMPTIONS = ["times in the index carry six digits (NGSolve)",
               "NGSolve writes the index along with the second snapshot of a run; a run that ends before it leaves the index as it was"]


def gen(rng, tier, i):
    mesh = rng.choice(("square", "square", "layers", "layers", "layers3", "layers3", "cube"))
    lives = []
    for k in range(rng.randint(1, 3)):
        g = G.grid(rng, nmax=6, simple=rng.random() < 0.75, digits=7)
        x = rng.random()
        faults, leave = [], None
        if x < 0.35:
            faults = [{"on": "vtk", "op": rng.randint(1, 2 + g["n"]), "kind": rng.choice(("crash", "interrupt", "eio")),
                       "frac": rng.choice((0.0, 1.0))}]
        elif x < 0.6:
            leave = [rng.randint(0, g["n"] - 1), rng.choice(("close", "drop", "abort", "interrupt", "crash"))]
        lives.append({"grid": g, "rate": rng.choice((1, 1, 2, 3, 5)), "subdivision": rng.choice((0, 0, 1, 2)), "faults": faults, "leave": leave,
                      "region": None if mesh in ("square", "cube") or rng.random() < 0.5 else rng.choice(("l0", "l1", "l0|l1")),
                      "fields": rng.sample(["U", "W", "V"], rng.randint(1, 3)), "fresh": rng.random() < 0.5,
                      "keep": rng.random() < 0.5, "off": rng.random() < 0.06})
    return {"sys": {**G.system(rng), "mesh": mesh}, "lives": lives, "name": rng.choice(("vtk", "vtk", "flow")),
            "others": rng.random() < 0.2}


def parse_vtu(path):
    with open(path, "rb") as f:
        raw = f.read()
    require(b"</VTKFile>" in raw[-40:], "vtk-torn", lambda: f"{path} is incomplete")
    head, data = raw.split(b'<AppendedData encoding="raw">', 1)
    data = data[data.index(b"_") + 1:]
    out = {}
    for m in re.finditer(rb'<DataArray type="(\w+)" Name="(\w+)"(?: NumberOfComponents="(\d+)")? format="appended" offset="(\d+)"', head):
        kind, name, comp, offset = m.group(1).decode(), m.group(2).decode(), int(m.group(3) or 1), int(m.group(4))
        size, = struct.unpack_from("<I", data, offset)
        dtype = {"Float64": "<f8", "Float32": "<f4", "Int32": "<i4", "UInt8": "u1"}[kind]
        arr = np.frombuffer(data[offset + 4:offset + 4 + size], dtype)
        out[name] = arr.reshape(-1, comp) if comp > 1 else arr
    return out


def parse_pvd(path):
    with open(path) as f:
        text = f.read()
    require(text.rstrip().endswith("</VTKFile>"), "index-torn", lambda: f"{path} is incomplete: {text[-60:]!r}")
    return [(float(t), f) for t, f in re.findall(r'<DataSet timestep="([^"]*)" file="([^"]*)"', text)]


def run(w, s):
    mesh = runs.mesh_of(s["sys"]["mesh"])
    cfg, crashed, nontrivial = None, False, False
    folder = os.path.join(w.root, "vtk")
    index = os.path.join(folder, s["name"] + ".pvd")
    for k, life in enumerate(s["lives"]):
        g = life["grid"]
        legal(g["n"] >= 1 and life["rate"] >= 1 and life["fields"] and 0 <= life["subdivision"] <= 2)
        if cfg is None or life["fresh"] or crashed:
            if cfg is not None:
                cfg = None
                w.reboot()
            cfg = runs.build(s["sys"], g)
        else:
            cfg.time.timer.interval, cfg.time.timer.step = runs.interval_of(g), float(g["step"])
            cfg.time.set_initial_conditions()
        fields = {"U": cfg.parts[0], "W": cfg.parts[1], "V": ngs.CF((cfg.parts[0], 3 * cfg.parts[1]))}
        if life.get("off"):
            cfg.io.gfu = s["others"]
            crashed = runs.without(w, cfg, life, "vtk", folder).outcome == "crash"
            continue
        vtk = runs.enable(cfg, "vtk", life["keep"])
        runs.refuse(vtk, "rate", life["rate"])
        vtk.filename, vtk.rate, vtk.subdivision, vtk.region = s["name"], life["rate"], life["subdivision"], life["region"]
        vtk.fields = {f: fields[f] for f in life["fields"]}
        if s["others"]:
            cfg.io.gfu = True
        states = {float(g["start"]): model.vec(cfg.gfu)}
        with w.quiet():
            old = open(index).read() if os.path.exists(index) else None
        w.arm(life["faults"])
        h = runs.drive(w, cfg, stop_after=life["leave"])
        w.simtime += float(g["step"]) * len(h.labels)
        crashed = h.outcome == "crash"
        states.update(h.states)
        with w.quiet():
            n = check(w, s, life, mesh, g, h, states, folder, index, old)
        nontrivial |= h.outcome != "done" or life["rate"] > 1 or life["region"] is not None
        w.state(life["rate"], g["n"], life["subdivision"], life["region"], h.outcome, n)
    if nontrivial:
        w.probe("nontrivial")


def check(w, s, life, mesh, g, h, states, folder, index, old):
    n, rate = len(h.labels), life["rate"]
    groups = [[float(g["start"])]] + [[t] if it % rate == 0 else [] for it, t in enumerate(h.labels)]
    if n == g["n"]:
        groups.append([h.labels[-1]] if (n - 1) % rate else [])
    if h.outcome == "done":
        low = high = sum(groups, [])
    elif life["leave"]:
        low = high = sum(groups[:n], [])
    else:
        low, high = sum(groups[:n], []), sum(groups, [])
    what = f"{ {k: life[k] for k in ('rate', 'region', 'subdivision')} } {g}, {h.outcome} after {h.labels[-1:]}"
    text = open(index).read() if os.path.exists(index) else None
    if len(low) < 2 and text == old:
        return 0                    # NGSolve writes the index along with the second snapshot
    require(text is not None, "index-missing", lambda: f"{what}: no index file, there is {runs.listing(folder)}")
    entries = parse_pvd(index)
    require(len(entries) >= len(low), "snapshot-missing", lambda: f"{what}: index has {entries}, due {low}")
    require(len(entries) <= len(high), "snapshot-extra", lambda: f"{what}: index has {entries}, due {high}")
    require(len({f for _, f in entries}) == len(entries), "snapshot-twice", lambda: f"{what}: index has {entries}")
    for (t, name), due in zip(entries, high):
        require(abs(t - due) <= 1e-5 * abs(due), "snapshot-time", lambda: f"{what}: index has {entries}, due {high}")
        path = os.path.join(folder, name)
        require(os.path.exists(path), "snapshot-file", lambda: f"{what}: {name} is in the index, but there is only {runs.listing(folder)}")
        data = parse_vtu(path)
        pts, con = data["Points"], np.split(data["connectivity"], data["offsets"][:-1])
        cells = [int(mesh(*pts[c].mean(axis=0)[:mesh.dim]).nr) for c in con]
        mats = [el.mat for el in mesh.Elements(ngs.VOL)]
        drawn = {c for c in range(mesh.ne) if life["region"] is None or mats[c] in life["region"].split("|")}
        require(set(cells) == drawn and len(cells) == len(drawn) * cells.count(cells[0]), "snapshot-region", lambda: f"{what}: {name} shows cells {sorted(set(cells))}, not {drawn}")
        u, v = states[due][:mesh.ne], states[due][mesh.ne:]
        want = {"U": u, "W": v, "V": np.stack([u, 3 * v], axis=1)}
        require(sorted(k for k in data if k in want) == sorted(life["fields"]), "snapshot-fields", lambda: f"{what}: {name} has {sorted(data)}")
        for f in life["fields"]:
            for c, e in zip(con, cells):
                for p in c:
                    require(runs.close(np.atleast_1d(data[f][p]), np.atleast_1d(want[f][e]), 1e-6), "snapshot-wrong",
                            lambda: f"{what}: {f} in cell {e} of {name} is {data[f][p]}, not {want[f][e]} as at {due}")
    w.note("index", entries)
    w.probe("snapshots parsed", len(entries))
    return len(entries)
