#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
SCHED = ("stateless model checking of the real code: every interleaving of small concurrent programs under a controlled scheduler "
         "(vector-clock race detection, deadlock detection, equivalent states merged)")
SEQ = "explicit-state enumeration of all operation sequences up to a depth on the real code, compared step by step with a reference model"
INP = "explicit enumeration of a finite input space on the real code against an independently written reference model"
SN = ("All schedules of the listed scenarios within the stated bound were executed on the real code; "
      "assumes the source instrumentation preserves semantics, sequential consistency between race-free accesses, and that the small scenarios are representative. ")
QN = "All sequences up to the stated depth over the listed alphabet were executed on the real code; trusts the small reference model in src/mc. "
IN = "Every element of the listed finite input space was executed on the real code; values outside the listed alphabets are not covered; trusts the reference model in src/mc. "
T = {
 "C01": (SCHED, SN),
}
exec(open(V + "/tools/manifest_table.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check still under construction"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: instrumentation is generated into /verif/.build from /repo's working tree at check time."},
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
