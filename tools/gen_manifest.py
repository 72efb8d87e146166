#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NA = {}
try:
    from not_applicable import NA
except ImportError:
    pass
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        b = "; ".join("%s: %s" % (f["fn"], f.get("bounds", "")) for f in CHECKS[i]["fns"])
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique="symbolic execution of the LLVM bitcode of /repo's sources with an SMT solver (Z3); counterexamples and sampled paths replayed natively",
                           level="model_checking", level_note="Complete within the stated bounds over a modelled QtCore and socket environment. " + b))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check built yet.")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
