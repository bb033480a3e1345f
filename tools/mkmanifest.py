#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties in CLAIMED."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
T = "deterministic simulation with fault injection: "
CLAIMED = json.load(open(os.path.join(here, "claimed.json")))
NA = {
    "P01": "Parsing and printing are pure functions of one string or formula: no scheduling, clock, I/O, cancellation or accumulated state takes part, so there is nothing for a simulator to schedule or to fail. (The interplay of parsing with faulty files and with a factory that has a history is decided by R01 and F02.)",
    "G01": "Evaluation, restriction and the graph algorithms are pure functions without handler, I/O or internal state; a simulation would degenerate to input fuzzing. (Their use inside cancellable, cached computations is covered by F01, D01 and E02.)",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": T + tech, "level": "exploration", "level_note": note})
na = [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in CLAIMED]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
