#!/usr/bin/env python3
"""DESIGN.md = design_head.md + table from properties/checks/evidence + design_tail.md + table of planted bugs."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + "/tools"]
from checks import CHECKS
from design_props import D
o = open(V + "/tools/design_head.md").read() + "\n## 2. Properties\n\nCosts are those of the last recorded run of the tier named, on 8 cores (`tools/cost.json`).\n"
cost = json.load(open(V + "/tools/cost.json")) if os.path.exists(V + "/tools/cost.json") else {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; c = CHECKS[i]
    o += "\n### %s %s\n\n%s\n" % (i, p["title"], D[i][0])
    if D[i][1]: o += "Outside: %s\n" % D[i][1]
    o += "\n"
    for f in c["fns"]:
        pr = ", ".join("%s %s/%s" % (k, f.get("quick", {}).get(k), f.get("thorough", {}).get(k)) for k in sorted(set(f.get("quick", {})) | set(f.get("thorough", {}))))
        o += "* `%s`%s: %s%s\n" % (f["fn"], " (thorough only)" if f.get("thorough_only") else "", f.get("bounds", ""), " (quick/thorough: %s)" % pr if pr else "")
    for a in c.get("assumptions", []): o += "* assumption: %s\n" % a
    for t in ("quick", "thorough"):
        if t in cost.get(i, {}): o += "* %s: %s\n" % (t, cost[i][t])
o += "\n" + open(V + "/tools/design_tail.md").read() + "\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
r = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    o += "| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"].replace("|", "/"), ", ".join(r.get(b, [])) or "-")
open(V + "/DESIGN.md", "w").write(o)
