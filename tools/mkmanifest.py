"""Writes /verif/MANIFEST.json from the list of scenarios and properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from scenarios import meta
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
PURE = "a pure function of its input: no schedule, clock, I/O, randomness or history for a simulator to control, so seeded simulation would only be input sampling"
REASON = {
    "P18": "Announced shapes are " + PURE + ".",
    "P19": "Eigenpair selection is " + PURE + ".",
    "P20": "Inverse transforms are " + PURE + " (histories of fits and files are covered by P08 and P15).",
    "P21": "Coverage of intervals is a statistical statement about populations, not about executions: no schedule or fault can decide it.",
    "P22": "Resolving connections is " + PURE + ".",
    "P23": "Loss formulas are " + PURE + ".",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in meta.PROPS:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over simulated executions, " + meta.PROPS[i]["oracle"],
            "level": "exploration",
            "level_note": meta.PROPS[i]["note"],
        })
    else:
        na.append({"property": i, "reason": REASON.get(i, "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/selftest.py",
    "hooks": {"guard": "none: no hook was added to /repo", "enable": "nothing to enable; all seams are existing ones (standard output, clock functions, file functions, signals, user-supplied modules, losses and callbacks)", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Replay a reported violation with: python3 check.py --replay <file>. Known findings and repaired defects: known_findings.json.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
