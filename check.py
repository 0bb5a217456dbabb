#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | check.py --replay FILE

Searches seeded simulated executions of /repo's working tree for violations of
one property.  Exit 0: none found; 1: violation (with a VIOLATION line);
2: the machinery itself failed.
"""
import argparse
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import runner  # noqa: E402
from scenarios import meta  # noqa: E402

# seconds of search, most runs
BUDGET = {"quick": (65, 4000), "thorough": (600, 200000)}


def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def do_replay(path):
    with open(path) as f:
        spec = json.load(f)
    r = runner.replay(spec)
    print(json.dumps({k: r.get(k) for k in ("status", "kind", "msg", "loghash")}, indent=1))
    for e in r.get("events", []):
        print("  ", e)
    same = (
        runner.is_violation(r)
        and r["kind"] == spec["kind"]
        and (not spec.get("loghash") or r["loghash"] == spec["loghash"])
    )
    print("reproduced exactly" if same else "NOT reproduced")
    return 1 if runner.is_violation(r) else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    prop, tier = a.property, a.tier
    info = meta.PROPS[prop]
    if info.get("share"):
        os.environ["PMM_SIM_SHARE"] = "1"
    t0 = time.monotonic()
    seconds, max_runs = BUDGET[tier]
    seconds *= info.get("weight", 1.0)
    seconds = a.seconds or seconds
    max_runs = a.runs or max_runs

    known = [k for k in load_known()["findings"] if k["property"] == prop]
    results = {
        "runs": 0, "discarded": 0, "errors": [], "violations": [],
        "faults": {}, "stats": {}, "cov": {}, "hashes": {}, "samples": [],
        "wall": 0.0,
    }
    rerun = []
    deadlog = []

    def on_result(job, res):
        if res["status"] == "discard":
            results["discarded"] += 1
            return False
        if res["status"] == "error":
            results["errors"].append({"job": job, "msg": res["msg"]})
            return len(results["errors"]) >= 3
        results["runs"] += 1
        results["wall"] += res["wall"]
        for k, v in res["faults"].items():
            results["faults"][k] = results["faults"].get(k, 0) + v
        for k, v in res["stats"].items():
            results["stats"][k] = results["stats"].get(k, 0) + v
        for c in res["cov"]:
            results["cov"][c] = results["cov"].get(c, 0) + 1
        if res["loghash"]:
            results["hashes"][res["loghash"]] = results["hashes"].get(res["loghash"], 0) + 1
        if len(results["samples"]) < 3 and res["status"] == "ok":
            results["samples"].append(
                {"seed": job["seed"], "events": res["events"][:25], "loghash": res["loghash"]}
            )
        if res["status"] == "ok" and len(rerun) < (4 if tier == "quick" else 40):
            rerun.append((job, res))
        if runner.is_violation(res):
            results["violations"].append((job, res))
            return not a.keep_going
        return False

    pool = runner.Pool()
    try:
        runner.search(pool, prop, tier, a.seed, seconds, max_runs, on_result)
        # one seed is one execution: repeat some on another worker
        mismatches = []
        if not results["violations"] and not results["errors"]:
            import threading

            def again(job, res, w):
                r2 = w.run(dict(job))
                if r2["loghash"] != res["loghash"] or r2["status"] != res["status"]:
                    mismatches.append((job, res, r2))

            ts = []
            used = {}
            for job, res in rerun:
                ws = pool.by_x64(res["config"]["x64"])
                i = used.get(res["config"]["x64"], 0)
                used[res["config"]["x64"]] = i + 1
                if i < len(ws):
                    # another worker than the one it ran on, if there is one
                    w = ws[i]
                    if w.hashseed == res["config"]["hashseed"]:
                        continue
                    t = threading.Thread(target=again, args=(job, res, w))
                    t.start()
                    ts.append(t)
            for t in ts:
                t.join()
            for job, res, r2 in mismatches:
                if False:
                    r2 = dict(r2, status="violation", kind="nondeterminism",
                              msg="two executions of the same seed differ between processes"
                                  f" (hash seeds {res['config']['hashseed']} and {r2['config']['hashseed']})")
                    results["violations"].append((job, r2))
                elif runner.is_violation(r2):
                    results["violations"].append((job, r2))
            reruns = len(ts)
        else:
            reruns = 0

        reported = []
        for job, res in results["violations"][:1 if not a.keep_going else 20]:
            spec = {
                "property": prop, "tier": tier, "seed": job["seed"],
                "config": res["config"], "kind": res["kind"], "message": res["msg"],
                "choices": res["choices"],
            }
            if res["status"] in ("hang", "died"):
                r = runner.replay(spec)
                if not runner.is_violation(r):
                    results["errors"].append({"job": job, "msg": res["msg"]})
                    continue
                spec.update(kind=r["kind"], message=r["msg"], choices=r["choices"])
            elif res["kind"] != "nondeterminism" and not a.no_shrink:
                best, bres, n = runner.shrink(
                    pool, prop, tier, res, 45 if tier == "quick" else 150
                )
                spec.update(choices=best, message=bres["msg"], shrink_runs=n,
                            original_choices=len(res["choices"]))
            r = runner.replay(spec)
            if not (runner.is_violation(r) and r["kind"] == spec["kind"]) and spec["choices"] != res["choices"]:
                # the shrunk run does not reproduce: fall back to the original
                spec.update(choices=res["choices"], message=res["msg"])
                r = runner.replay(spec)
            spec["reproduced"] = runner.is_violation(r)
            spec["loghash"] = r["loghash"]
            spec["events"] = r.get("events", [])
            spec["labels"] = r.get("labels", [])
            spec["trace"] = r.get("trace")
            spec["how_to_replay"] = "python3 /verif/check.py --replay <this file>"
            name = re.sub(r"[^A-Za-z0-9]+", "-", f"{prop}-{spec['kind']}-{job['seed']}")[:100]
            path = os.path.join(HERE, "replays", name + ".json")
            write_json(path, spec)
            reported.append((spec, path))
    finally:
        pool.close()

    # known findings: replay each listed history
    known_lines = []
    for k in known:
        r = runner.replay(k["replay"])
        if runner.is_violation(r) and r["kind"] == k["replay"]["kind"]:
            known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")

    wall = time.monotonic() - t0
    cov = {
        "evaluations": results["runs"],
        "distinct_nontrivial": len(results["hashes"]),
        "rule": info["rule"],
        "samples": results["samples"],
        "runs_per_hour": round(results["runs"] / max(wall, 1e-9) * 3600),
        "seeds_per_hour": round(results["runs"] / max(wall, 1e-9) * 3600),
        "faults_injected": results["faults"],
        "simulated": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in results["stats"].items()},
        "situations_reached": len(results["cov"]),
        "situations": dict(sorted(results["cov"].items(), key=lambda x: -x[1])[:80]),
        "discarded": results["discarded"],
        "repeated_for_determinism": reruns,
        "repeat_mismatches": len(mismatches),
        "real_components": info["real"],
        "stub_components": info["stub"],
    }
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": a.seed, "level": "exploration", "coverage": cov,
        "assumptions": info["assumptions"], "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    write_json(os.path.join(HERE, "evidence", prop + ".json"), ev)
    for line in known_lines:
        print(line)
    print(f"{prop}: {results['runs']} runs, {len(results['hashes'])} distinct, "
          f"{sum(results['faults'].values())} faults, {len(results['cov'])} situations, "
          f"{wall:.1f} s, repeats {reruns} ({len(mismatches)} differ)")
    if reported:
        for spec, path in reported:
            print(f"  {spec['kind']}: {spec['message'][:800]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if results["errors"]:
        print("harness error:", results["errors"][0]["job"], results["errors"][0]["msg"])
        return 2
    if results["runs"] == 0:
        print("no runs")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
