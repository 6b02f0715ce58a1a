#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + table of seeded changes (from seeded/*/meta.json and tools/trial_results.txt) + tail"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(root, "tools", "trial_results.txt")
if os.path.exists(p):
    for l in open(p):
        m = re.match(r"(\S+) rc=(\d+) (\d+)s ?(.*)", l)
        if m: res[m[1]] = (int(m[2]), int(m[3]), m[4])
out = [open(os.path.join(root, "tools", "design_head.md")).read().rstrip(), ""]
out += ["| seeded change | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    r = res.get(d)
    c = "not tried" if r is None else "missed" if r[0] != 1 else f"check {m['property']}, failed obligation, no failing input found" if "no-failing-input" in r[2] else f"check {m['property']}, failing input"
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {c} |")
with open(os.path.join(root, "DESIGN.md"), "w") as f: f.write("\n".join(out) + "\n")
