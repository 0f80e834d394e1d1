#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (kept together
so that what is stated and what is claimed cannot drift apart)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from props import PROPS
from sa import registry

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        f.write(json.dumps(o) + "\n")
checks, na = [], []
for p in PROPS:
    if "na" in p:
        na.append(dict(property=p["id"], reason=p["na"]))
        assert p["id"] not in registry.PROPS
        continue
    assert p["id"] in registry.PROPS, p["id"]
    r = registry.PROPS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                       thorough_cmd="python3 check.py %s thorough" % p["id"],
                       technique=p["technique"], level="other", level_note=p["note"]))
have = set(p["id"] for p in PROPS)
assert set(registry.PROPS) <= have, set(registry.PROPS) - have
m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks, not_applicable=na,
         notes="All checks are static: they read LLVM IR compiled from /repo's current tree and never run it. "
               "See DESIGN.md. Fixed and known defects: known_findings.json.")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
