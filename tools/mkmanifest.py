#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in checks/."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
TECH = "symbolic execution of the real Python source (numpy/math stand-ins) with z3 deciding every assertion within the bounds"
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
NA = {}
nf = V / "not_applicable.json"
if nf.is_file():
    NA = json.loads(nf.read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif (V / "checks" / f"{i}.py").is_file():
        checks.append({
            "property": i, "quick_cmd": f"/opt/venv/bin/python run.py {i} quick", "thorough_cmd": f"/opt/venv/bin/python run.py {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "model_checking",
            "level_note": "Bounded: every assertion holds for all input values within the bounds named in the evidence file (exact real arithmetic "
                          "on the constants of the code; float rounding, numpy, scipy and matplotlib themselves are trusted, their stand-ins are "
                          "compared with the real libraries in each run). Counterexamples are replayed on the real code before being reported.",
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks execute /repo/src on stand-in modules. Known findings and fixed defects: known_findings.txt."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
