#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness directories."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
try:
    NA = json.load(open(V + "/tools/not_applicable.json"))
except FileNotFoundError:
    NA = {}
NOTES = {}
exec(open(V + "/tools/notes.py").read()) if os.path.exists(V + "/tools/notes.py") else None
checks, na = [], []
for p in props:
    i = p["id"]
    d = V + "/harness/" + i.lower()
    if os.path.isdir(d) and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the real code's Go SSA with SMT (z3), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": NOTES.get(i, "") + " Holds for every input within the bounds listed per harness in the evidence file; trusts the engine's Go SSA semantics and library models (sampled paths are re-run natively and compared) and z3.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the engine reads /repo's sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Each check rebuilds SSA from /repo's working tree, explores every path of its harnesses within stated bounds, discharges assertions with z3 and replays counterexamples against the real code."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
