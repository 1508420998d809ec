"""Writes /verif/MANIFEST.json: a check for every property that has a module under props/."""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(here, "props", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": "./check %s --tier quick" % pid,
            "thorough_cmd": "./check %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "symbolic execution of the real Python code with solver-decided branches and assertions (z3), counterexamples replayed on the code",
            "level": "model_checking",
            "level_note": "Bounded: every value within the structures, sizes and histories listed as 'bounds' in the evidence file and DESIGN.md; "
                          "arithmetic is over exact reals (float rounding outside), library stubs listed under assumptions. A task cut by its time budget is named in the evidence.",
        })
    else:
        na.append({"property": pid, "reason": "no check written yet"})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Repairs and open findings: known_findings.json and DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
