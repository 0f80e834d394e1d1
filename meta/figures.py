#!/usr/bin/env python3
"""Runs every quick check and records its figures for DESIGN.md."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {}
for i in range(1, 100):
    p = "C%02d" % i
    if not any('"%s"' % p in l for l in open(os.path.join(V, "properties.jsonl"))):
        continue
    r = subprocess.run(["python3", os.path.join(V, "check.py"), p, "quick"], capture_output=True, text=True)
    e = json.load(open(os.path.join(V, "evidence", p + ".json")))
    c = e["coverage"]
    N[p] = dict(obligations=c["obligations"], discharged=c["discharged"], undecided=c["undecided"], wall=e["wall_s"])
    print(p, r.returncode, N[p], flush=True)
json.dump(N, open(os.path.join(V, "meta", "figures.json"), "w"), indent=1, sort_keys=True)
