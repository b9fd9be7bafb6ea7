#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the list of registered checks."""
import json, subprocess
LANG = ("runtime monitoring: differential oracle over recorded score events",
        "Exploration: every emitted event of seeded random scores is compared with an independent reference interpreter (harness/lang), which shares no code with the client. Held on the executions reported in the evidence; trusts the reference and its printer.")
T = {i: LANG for i in "C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C17".split()}
T["C05"] = (LANG[0] + ", plus metamorphic unrolling", LANG[1] + " Also compares the client with itself on the written-out score.")
T["C06"] = (LANG[0] + ", plus metamorphic inlining", LANG[1] + " Also compares the client with itself on the inlined score.")
T["C17"] = (LANG[0] + ", plus metamorphic re-layout", LANG[1])
exec(open("/verif/tools/manifest_more.py").read())
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
have = subprocess.run(["/verif/.build/bin/verif", "list"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in T:
        t, note = T[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet.")})
m = {"version": 1, "setup_cmd": "bash ./build.sh plain", "checks": checks, "not_applicable": na}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", [n["property"] for n in na])
