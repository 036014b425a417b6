#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
SCHED = {"P07", "P24", "P27"}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    src = os.path.join(V, "checks", i + ".cpp")
    if not os.path.exists(src):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    oracle = open(src).read().splitlines()[0].lstrip("/ ").rstrip(".")
    tech = ("property-based testing with generated thread schedules (deterministic scheduler), "
            if i in SCHED else "stateful property-based testing with shrinking, ")
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "technique": tech + ("ASan/UBSan; " if i not in SCHED else "") + "thorough tier adds "
                     + ("more schedules" if i in SCHED else "coverage-guided fuzzing (libFuzzer)"),
        "level": "exploration",
        "level_note": oracle + ". Random search over generated cases against that oracle, with "
                      "sanitizers on; nothing is established beyond the cases generated. Trusts "
                      "the harness' model and the host build (clang) of /repo's sources.",
    })
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: checks compile /repo's sources themselves (those of the CUDA, HIP and SYCL back ends against a model of the runtimes in fake/). Known and repaired "
              "findings are in known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
