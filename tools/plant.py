#!/usr/bin/env python3
"""Plants a bug: writes /verif/seeded/<id>/ from a specification, and tries it out in scratch copies.

    tools/plant.py SPEC.py [ID ...]      SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]
    tools/plant.py --recheck [ID ...]    applies the patches of /verif/seeded again and runs the check of their property

For every bug: patch applies, tests pass, the demonstration is 0 without and not 0 with the patch, and whether the check of the
property reports it.  Development only, no check uses it.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"

DEMO_SH = '''#!/bin/bash
# Runs demo.py on the dream package of the current directory, in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
export PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def copy(to):
    os.makedirs(to)
    sh(f"git -C /repo archive HEAD | tar x -C {to}")
    sh("git init -q && git add -A && git -c user.email=x -c user.name=x commit -qm base", cwd=to)


def write(bug):
    d = os.path.join(SEEDED, bug["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp()
    repo = os.path.join(tmp, "r")
    copy(repo)
    for file, old, new in bug["edits"]:
        p = os.path.join(repo, file)
        s = open(p).read()
        if s.count(old) != 1:
            shutil.rmtree(tmp)
            raise SystemExit(f"{bug['id']}: {s.count(old)} times in {file}: {old!r}")
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=repo).stdout
    shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(bug["demo"].lstrip())
    shutil.copy(os.path.join(HERE, "plant_lib.py"), os.path.join(d, "lib.py"))
    json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def tests(repo):
    work = tempfile.mkdtemp()
    env = {**os.environ, "PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg"}
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "1", "--timeout=120", f"--rootdir={repo}",
            "--continue-on-collection-errors", "--deselect", "tests/compressible/test_equations.py::test_equation",
            f"{repo}/tests"], cwd=work, env=env)
    shutil.rmtree(work)
    m = re.search(r"(?:(\d+) failed, )?(\d+) passed", r.stdout)
    return m.group(0) if m else r.stdout[-300:]


def trial(id_, checks=None):
    d = os.path.join(SEEDED, id_)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="plant")
    clean, bad, demo = (os.path.join(tmp, x) for x in ("clean", "bad", "demo"))
    copy(clean), copy(bad)
    shutil.copytree(d, demo)
    a = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=bad)
    out = {"id": id_, "prop": meta["property"]}
    if a.returncode:
        out["apply"] = a.stderr
    else:
        out["tests"] = tests(bad)
        r0 = sh(["bash", os.path.join(demo, "demo.sh")], cwd=clean)
        r1 = sh(["bash", os.path.join(demo, "demo.sh")], cwd=bad)
        out["demo"] = (r0.returncode, r1.returncode)
        if r0.returncode:
            out["demo_err"] = r0.stderr[-600:]
        if r1.returncode:
            out["demo_bad"] = r1.stderr.strip().splitlines()[-1:] or r1.stderr
        caught = []
        for c in checks or [meta["property"]]:
            t = time.time()
            r = sh(["./check", c], cwd=VERIF, env={**os.environ, "SIM_REPO": bad, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            line = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "HARNESS" in l]
            why = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")][:1]
            caught.append((c, r.returncode, round(time.time() - t), (line or [""])[0][:60], why))
        out["check"] = caught
    shutil.rmtree(tmp)
    return out


def report(o):
    ok = o.get("demo") and o["demo"][0] == 0 and o["demo"][1] not in (0,) and "failed" not in o["tests"] and "154 passed" in o["tests"]
    print(("COUNTS " if ok else "INVALID"), o["id"], o["prop"], o.get("tests"), o.get("demo"), o.get("demo_err", ""), o.get("demo_bad", ""),
          o.get("apply", ""), flush=True)
    for c in o.get("check", []):
        print("      ", "caught" if c[1] == 1 else "MISSED" if c[1] == 0 else "BROKEN", *c, flush=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    if args[0] == "--recheck":
        ids = args[1:] or sorted(os.listdir(SEEDED))
    else:
        ns = {}
        exec(open(args[0]).read(), ns)
        bugs = [b for b in ns["BUGS"] if len(args) == 1 or b["id"] in args[1:]]
        for b in bugs:
            write(b)
        ids = [b["id"] for b in bugs]
    for i in ids:
        report(trial(i, os.environ.get("CHECKS", "").split() or None))
