"""Parent process: distributes seeds over worker processes, minimises and replays failures, writes the evidence.

Never imports the code under test.
"""
from __future__ import annotations

import collections
import hashlib
import importlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PYTHON = sys.executable

WALL_CAP = {"quick": 420.0, "thorough": 780.0}
STALL = 150.0       # wall seconds without a sign of life


def spec(prop):
    """Static facts of a property module, read without importing the code under test"""
    import ast
    tree = ast.parse(open(os.path.join(HERE, "props", prop.lower() + ".py")).read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id.isupper():
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith("SIM_") or k in ("SIM_REPO", "SIM_LOG", "SIM_CPU_LIMIT")}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=kw.pop("hashseed", "0"), OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", LC_ALL="C.UTF-8", **kw)
    return e


class Worker:

    def __init__(self, args, tmp, hashseed="0"):
        self.p = subprocess.Popen([PYTHON, os.path.join(HERE, "worker.py"), *map(str, args)],
                                  stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=tmp,
                                  env=env(SIM_TMP=tmp, hashseed=hashseed))
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.current = None
        self.ended = False
        self.last = time.monotonic()

    def fileno(self):
        return self.p.stdout.fileno()

    def read(self):
        """Returns (records, eof)"""
        try:
            data = os.read(self.fileno(), 1 << 20)
        except BlockingIOError:
            return [], False
        if not data:
            return [], True
        self.last = time.monotonic()
        self.buf += data
        *lines, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in lines if x.strip()], False

    def kill(self):
        self.p.kill()
        self.p.wait()
        self.p.stdout.close()


def run_all(workers, on_record, on_death, cap):
    """Feed on_record(worker, rec) until all workers are done; on_death(worker, why) may return a replacement"""
    t0 = time.monotonic()
    live = list(workers)
    capped = False
    while live:
        ready, _, _ = select.select(live, [], [], 1.0)
        now = time.monotonic()
        for w in list(live):
            if w in ready:
                recs, eof = w.read()
                for r in recs:
                    if on_record(w, r) is False:
                        for x in live:
                            x.kill()
                        return capped
                if eof:
                    code = w.p.wait()
                    w.p.stdout.close()
                    live.remove(w)
                    if not w.ended:
                        new = on_death(w, f"died with code {code}")
                        if new is not None:
                            live.append(new)
            elif now - w.last > STALL:
                w.kill()
                live.remove(w)
                new = on_death(w, "stalled")
                if new is not None:
                    live.append(new)
        if now - t0 > cap and live:
            capped = True
            for x in live:
                x.kill()
            break
    return capped


def replay(path, tmp, hashseed="0"):
    """Run a stored scenario in a fresh process; returns its record"""
    box = {}
    w = Worker(["replay", path], tmp, hashseed)

    def on_record(w, r):
        if "ok" in r:
            box["rec"] = r
        if r.get("end"):
            w.ended = True

    def on_death(w, why):
        if "rec" not in box:
            box["rec"] = {"ok": False, "kind": "hang" if why == "stalled" else "killed", "msg": f"the process {why}",
                          "digest": ""}
        return None

    run_all([w], on_record, on_death, 600)
    return box.get("rec", {"ok": False, "harness": True, "kind": "harness", "msg": "no answer", "digest": ""})


def shrink(path, tmp, budget):
    best = {}
    w = Worker(["minimise", path, budget], tmp)

    def on_record(w, r):
        best.update(r)
        if r.get("done"):
            w.ended = True

    run_all([w], on_record, lambda w, why: None, budget + 90)
    return best.get("best"), best.get("tries", 0)


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("{"):
                x = json.loads(line)
                if x.get("property") == prop and x.get("status") == "known":
                    out.append(x)
    return out


def explore(prop, seed, tier, nworkers=None, count=None, collect=None, hashseed="0", stop=True):
    """Run the scenarios of a property, returns (totals, failures, problems)"""
    s = spec(prop)
    count = count or int(os.environ.get("VERIF_COUNT", 0)) or s["THOROUGH" if tier == "thorough" else "QUICK"]
    nworkers = nworkers or min(8, os.cpu_count() or 1, max(1, count // 4))
    tmp = tempfile.mkdtemp(prefix="verif-")
    tot = {"n": 0, "invalid": 0, "faults": collections.Counter(), "probes": collections.Counter(), "simtime": 0.0,
           "steps": 0, "digests": set(), "nontrivial": set(), "states": set(), "samples": [], "events": 0, "capped": False}
    failures, problems, deaths = [], [], collections.Counter()

    def on_record(w, r):
        if "start" in r:
            w.current = r["start"]
            return
        if r.get("end"):
            w.ended = True
            return
        if "ok" not in r:
            return
        w.current = None
        w.next = r["i"] + w.stride
        if collect is not None:
            collect[r["i"]] = (r["digest"], r["ok"], r.get("kind"))
        if r.get("invalid"):
            tot["invalid"] += 1
            return
        tot["n"] += 1
        tot["faults"].update(r["faults"])
        tot["probes"].update(r["probes"])
        tot["simtime"] += r["simtime"]
        tot["steps"] += r["steps"]
        tot["events"] += r["nev"]
        tot["digests"].add(r["digest"])
        tot["states"].update(r["states"])
        if r["probes"].get("nontrivial"):
            tot["nontrivial"].add(r["digest"])
        if "scn" in r and len(tot["samples"]) < 3:
            tot["samples"].append({"seed": f"{prop}:{seed}:{r['i']}", "scenario": r["scn"], "events": r["nev"],
                                   "faults_fired": r["faults"]})
        if not r["ok"]:
            (problems if r.get("harness") else failures).append(r)
            if stop and len(failures) >= 6:
                return False

    def start(first, stride):
        w = Worker(["run", prop, seed, tier, first, stride, count], tmp, hashseed)
        w.stride, w.next = stride, first
        return w

    def on_death(w, why):
        i = w.current
        if i is None:
            problems.append({"kind": "harness", "msg": f"a worker {why} outside a run", "tb": ""})
            return None
        deaths[i] += 1
        path = os.path.join(tmp, f"death-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "scenario": generate(prop, seed, i, tier, tmp)}, f)
        rec = replay(path, tmp, hashseed)
        if not rec["ok"] and not rec.get("harness"):
            rec.update(i=i, scn=json.load(open(path))["scenario"])
            failures.append(rec)
            if stop and len(failures) >= 3:
                return None
        else:
            tot["probes"]["worker lost, run repeated without failure"] += 1
        if i + w.stride < count:
            return start(i + w.stride, w.stride)

    try:
        tot["capped"] = run_all([start(i, nworkers) for i in range(nworkers)], on_record, on_death, WALL_CAP[tier])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    tot["count"] = count
    tot["workers"] = nworkers
    return tot, failures, problems


def generate(prop, seed, i, tier, tmp):
    code = ("import sys,json,random;sys.path.insert(0,%r);from sim import core;core.install();import importlib;"
            "m=importlib.import_module('sim.props.%s');"
            "sys.stdout.write('\\n@@'+json.dumps(m.gen(random.Random('%s:%s:%d'),%r,%d)))"
            % (VERIF, prop.lower(), prop, seed, i, tier, i))
    out = subprocess.run([PYTHON, "-c", code], cwd=tmp, env=env(), capture_output=True, text=True)
    return json.loads(out.stdout.split("@@")[-1])


def report(prop, seed, tier, failures):
    """Minimise, store and replay; returns (lines, confirmed)"""
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-")
    seen, lines, unconfirmed = set(), [], []
    budget = 40 if tier == "quick" else 90
    try:
        for r in sorted(failures, key=lambda r: r["i"]):
            if r["kind"] in seen:
                continue
            seen.add(r["kind"])
            if len(seen) > 3:
                break
            name = f"{prop}-{seed}-{r['i']}.json"
            path = os.path.join(VERIF, "replays", name)
            data = {"property": prop, "seed": f"{prop}:{seed}:{r['i']}", "scenario": r["scn"],
                    "violation": {"kind": r["kind"], "msg": r["msg"], "tb": r.get("tb", "")}}

            def store():
                with open(path, "w") as f:
                    json.dump(data, f, indent=1)

            store()
            first = replay(path, tmp)
            if first["ok"] or first.get("harness") or first["kind"] != r["kind"]:
                # give it one more chance before calling it unrepeatable
                first = replay(path, tmp)
            if first["ok"] or first.get("harness"):
                unconfirmed.append((r, first))
                continue
            # a malformed scenario would be unreadable, too
            if r["kind"] not in ("hang", "killed") and not r["kind"].startswith("unreadable") and not lines:
                best, tries = shrink(path, tmp, budget)
                if best is not None and best != r["scn"]:
                    data["scenario"], data["original_scenario"] = best, r["scn"]
                    store()
                    again = replay(path, tmp)
                    if again["ok"] or again.get("harness") or again["kind"] != r["kind"]:
                        data["scenario"] = r["scn"]
                        data.pop("original_scenario")
                        store()
                        again = replay(path, tmp)
                    data["violation"].update(kind=again.get("kind", r["kind"]), msg=again.get("msg", r["msg"]))
                    data["digest"] = again["digest"]
                    data["minimiser_runs"] = tries
                    store()
            lines.append((f"VIOLATION property={prop} replay={path}", f"  {data['violation']['kind']}: "
                          f"{data['violation']['msg']}"[:600]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return lines, unconfirmed


def check(prop):
    seed = os.environ.get("VERIF_SEED", "1")
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    print(f"property={prop} seed={seed} tier={tier}", flush=True)
    s = spec(prop)
    t0 = time.monotonic()
    tot, failures, problems = explore(prop, seed, tier)
    lines, unconfirmed = report(prop, seed, tier, failures) if failures else ([], [])

    # findings that are recorded, not repaired: their histories are run, and expected to fail as described
    for k in known_findings(prop):
        tmp = tempfile.mkdtemp(prefix="verif-")
        try:
            path = os.path.join(VERIF, k["replay"])
            rec = replay(path, tmp)
            if not rec["ok"] and rec["kind"] == k["kind"]:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    wall = time.monotonic() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": int(seed) if str(seed).isdigit() else 0, "level": "exploration",
        "coverage": {
            "evaluations": tot["n"],
            "distinct_nontrivial": len(tot["nontrivial"]),
            "rule": s.get("RULE", ""),
            "samples": tot["samples"],
            "runs_per_hour": round(tot["n"] / wall * 3600) if wall else 0,
            "seeds": f"{prop}:{seed}:0 .. {prop}:{seed}:{tot['count'] - 1}",
            "simulated_time_units": round(tot["simtime"], 3),
            "simulated_time_steps": tot["steps"],
            "durable_and_scheduling_events": tot["events"],
            "faults_injected": dict(sorted(tot["faults"].items())),
            "reach_probes": dict(sorted(tot["probes"].items())),
            "distinct_histories": len(tot["digests"]),
            "distinct_states": len(tot["states"]),
            "distinct_states_measure": s.get("MEASURE", ""),
            "invalid_scenarios": tot["invalid"],
            "stopped_by_wall_cap": tot["capped"],
            "workers": tot["workers"],
            "real_components": s.get("REAL", ""),
            "stubbed_components": s.get("STUB", ""),
        },
        "assumptions": s.get("ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(lines),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print(f"runs={tot['n']} distinct={len(tot['digests'])} nontrivial={len(tot['nontrivial'])} "
          f"states={len(tot['states'])} faults={sum(tot['faults'].values())} wall={wall:.1f}s")
    if lines:
        for a, b in lines:
            print(a)
            print(b)
        return 1
    bad = False
    for p in problems[:3]:
        print(f"HARNESS-ERROR property={prop} {p['msg']}\n{p.get('tb', '')}")
        bad = True
    for r, first in unconfirmed[:3]:
        print(f"HARNESS-ERROR property={prop} seed {r['i']} failed once ({r['kind']}: {r['msg']}), but not in a fresh process")
        bad = True
    if tot["n"] < tot["count"] // 4:
        print(f"HARNESS-ERROR property={prop} only {tot['n']} of {tot['count']} runs within the time limit")
        bad = True
    return 2 if bad else 0


def determinism(props):
    seed = os.environ.get("VERIF_SEED", "1")
    bad = 0
    for prop in props:
        n = int(os.environ.get("VERIF_COUNT", 0)) or min(240, spec(prop)["QUICK"])
        runs = []
        for workers, hashseed in ((8, "0"), (3, "0"), (5, "12345")):
            got = {}
            explore(prop, seed, "quick", nworkers=workers, count=n, collect=got, hashseed=hashseed, stop=False)
            runs.append(got)
        diff = [i for i in range(n) if len({str(r.get(i)) for r in runs}) != 1]
        digest = hashlib.sha1(json.dumps(runs[0], sort_keys=True).encode()).hexdigest()[:12]
        print(f"{prop}: {n} seeds x {len(runs)} layouts, {len(diff)} differ, {digest}", diff[:10], flush=True)
        bad += bool(diff)
    return 1 if bad else 0


def selftest():
    """Are the code under test, its libraries and all property modules there?"""
    props = sorted(x[:-3] for x in os.listdir(os.path.join(HERE, "props")) if x.startswith("c") and x.endswith(".py"))
    code = "from sim import core; core.install(); import importlib\n" + "\n".join(
        f"m = importlib.import_module('sim.props.{x}'); m.gen, m.run, m.QUICK, m.RULE" for x in props)
    r = subprocess.run([sys.executable, "-c", code], cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    print(f"{len(props)} property modules" if r.returncode == 0 else r.stderr)
    return 0 if r.returncode == 0 else 2


def main(argv):
    if argv and argv[0] == "--replay":
        data = json.load(open(argv[1]))
        tmp = tempfile.mkdtemp(prefix="verif-")
        try:
            rec = replay(os.path.abspath(argv[1]), tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print(json.dumps({k: rec.get(k) for k in ("ok", "kind", "msg", "digest", "tb", "faults", "probes")}, indent=1))
        if rec["ok"]:
            return 0
        if rec.get("harness"):
            return 2
        print(f"VIOLATION property={data['property']} replay={os.path.abspath(argv[1])}")
        return 1
    if argv and argv[0] == "--determinism":
        props = argv[1:] or sorted(x[:-3].upper() for x in os.listdir(os.path.join(HERE, "props"))
                                   if x.startswith("c") and x.endswith(".py"))
        return determinism(props)
    if argv and argv[0] == "--selftest":
        return selftest()
    return check(argv[0])
