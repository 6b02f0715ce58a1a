#!/usr/bin/env python3
import json
cfg = json.load(open("/verif/checks.json"))
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
     "notes": "pyvc (/verif/pyvc) interprets the real functions of /repo/src/simplemseed on every run, generates proof obligations from sidecar contracts and discharges them with z3 and cvc5; search/ is the labelled bounded part and the replay harness."}
for p in props:
    c = cfg[p]
    m["checks"].append({"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"bin/check {p} --tier thorough", "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
