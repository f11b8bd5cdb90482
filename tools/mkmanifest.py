#!/usr/bin/env python3
# Writes MANIFEST.json: the claimed properties and how they are decided.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
PENDING = set()
NOTE = {
  "default": "Every obligation generated from the current source is discharged for all inputs, states, schedules (lock-invariant reasoning) and iterations; assumptions on the environment and on machine limits are listed in the evidence and in DESIGN.md; partial correctness (termination is not proved).",
  "C12": "Absence of races is proved as lock discipline (every guarded field accessed with its lock held or while unshared, lock order, release on every exit) plus invariants re-established at each release; the meaning of an operation is then atomic per lock section.",
}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in PENDING:
        na.append({"property": i, "reason": "contracts for this part of the repository are not written yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "contract-based deductive verification: contracts on the Go functions, VCs generated from go/ssa of the current source, discharged by z3 and cvc5",
        "level": "proof",
        "level_note": NOTE.get(i, NOTE["default"]),
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "govc (in /verif/govc) translates the SSA of /repo's current source into verification conditions against the contracts in /verif/contracts; see DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
