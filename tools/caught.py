#!/usr/bin/env python3
"""Runs the check of its property against every planted bug (tools/mut.sh); writes caught.json. caught.py [ID...]"""
import glob, json, os, subprocess, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T); out = os.path.join(T, "caught.json")
r = json.load(open(out)) if os.path.exists(out) else {}
for d in sorted(glob.glob(V + "/seeded/*/")):
    i = os.path.basename(d[:-1])
    if sys.argv[1:] and i not in sys.argv[1:]:
        continue
    p = json.load(open(d + "meta.json"))["property"]
    o = subprocess.run([T + "/mut.sh", d + "patch.diff", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
    r[i] = [p] if o.strip().endswith("exit 1") and "VIOLATION property=" + p in o else []
    print(i, r[i], flush=True)
    json.dump(r, open(out, "w"), indent=0, sort_keys=True)
