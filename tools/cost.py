#!/usr/bin/env python3
"""cost.py: records the costs of the evidence files (clean runs only) in tools/cost.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = V + "/tools/cost.json"
c = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(V + "/evidence/C*.json"):
    e = json.load(open(f)); x = e["coverage"]
    if e["violations"] or not x["functions_encoded"]: continue
    inc = [r["harness"] for r in x["runs"] if not r["complete"]]
    c.setdefault(e["property"], {})[e["tier"]] = "%d paths, %d queries (%d from caches), solver %.1f s, total %.0f s, %d native replays, %d functions of /repo encoded%s" % (x["states"], x["queries_discharged"], x["query_cache_hits"], x["solver_time_s"], e["wall_s"], x["traces_validated_against_impl"], len(x["functions_encoded"]), "" if not inc else "; stopped by the time limit: " + ", ".join(inc))
json.dump(c, open(p, "w"), indent=1, sort_keys=True)
