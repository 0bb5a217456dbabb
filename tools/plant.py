#!/usr/bin/env python3
"""Make, confirm and try planted bugs.

    plant.py make SPEC.py [id ...]   write /verif/seeded/<id>/ for each bug of
                                     the spec after confirming it in a scratch
                                     copy: applies, tests pass, the demo passes
                                     without it and fails with it
    plant.py try [id ...]            run the property's check with the change
                                     applied to /repo, and undo it

A spec defines BUGS, a list of dictionaries with id, property, edits (a list of
(file, old, new)), demo (the text of demo.py), needs and what_it_breaks.
"""
import json, os, re, runpy, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           JAX_PLATFORMS="cpu")
DEMO_SH = """#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python "$d/demo.py"
"""


def run(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout,
                          capture_output=True, text=True)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "pass"):
        if k in b:
            return b[k]
    return b


def make(spec, only):
    bugs = runpy.run_path(spec)["BUGS"]
    for bug in bugs:
        if only and bug["id"] not in only:
            continue
        if not only and os.path.exists(f"{VERIF}/seeded/{bug['id']}/patch.diff"):
            continue
        one(bug)


def one(bug):
    bid = bug["id"]
    copy = f"/tmp/plant_{bid}"
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", REPO, copy], check=True)
    try:
        for f, old, new in bug["edits"]:
            p = f"{copy}/parametricmatrixmodels/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{bid}: {f}: text found {s.count(old)} times: {old[:60]!r}")
                return
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], copy).stdout
        demo = f"/tmp/plant_demo_{bid}"
        shutil.rmtree(demo, ignore_errors=True)
        os.makedirs(demo)
        open(f"{demo}/demo.py", "w").write(bug["demo"].lstrip("\n"))
        open(f"{demo}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{demo}/demo.sh", 0o755)
        good = run(["bash", f"{demo}/demo.sh"], REPO)
        bad = run(["bash", f"{demo}/demo.sh"], copy)
        if good.returncode != 0 or bad.returncode == 0:
            print(f"{bid}: DEMO clean={good.returncode} bug={bad.returncode}")
            print((good.stdout + good.stderr)[-1500:] if good.returncode else
                  (bad.stdout + bad.stderr)[-500:])
            return
        last = (bad.stderr.strip().splitlines() or ["?"])[-1][:150]
        t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8",
                 "--timeout=600"], copy, dict(ENV, PYTHONPATH=copy))
        tail = (t.stdout.strip().splitlines() or ["?"])[-1]
        if " failed" in tail or "passed" not in tail:
            print(f"{bid}: TESTS {tail}")
            print("\n".join(l for l in t.stdout.splitlines() if l.startswith("FAILED"))[:800])
            return
        out = f"{VERIF}/seeded/{bid}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(f"{out}/patch.diff", "w").write(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy2(f"{demo}/{n}", out)
        json.dump({"property": bug["property"], "needs": bug["needs"],
                   "what_it_breaks": bug["what_it_breaks"]},
                  open(f"{out}/meta.json", "w"), indent=1)
        print(f"{bid}: kept ({tail}; demo: {last})", flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(f"/tmp/plant_demo_{bid}", ignore_errors=True)


def attempt(only):
    ids = only or sorted(os.listdir(f"{VERIF}/seeded"))
    for bid in ids:
        d = f"{VERIF}/seeded/{bid}"
        pid = json.load(open(f"{d}/meta.json"))["property"]
        if run(["git", "status", "--porcelain", "-uno"], REPO).stdout.strip():
            sys.exit("/repo is not clean")
        a = run(["git", "apply", f"{d}/patch.diff"], REPO)
        if a.returncode:
            print(f"{bid}: patch does not apply: {a.stderr[:200]}")
            continue
        try:
            t = time.time()
            r = run([sys.executable, "check.py", pid, "--tier", "quick"], VERIF,
                    dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        finally:
            run(["git", "checkout", "--", "."], REPO)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        msg = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][-1:]
        print(f"{bid}: {pid} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} "
              f"rc={r.returncode} {time.time() - t:.0f}s {v[:1]} {msg}", flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        attempt(sys.argv[2:])
