#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import P, NOTE
V = os.path.dirname(HERE)
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks = []
for p in P:
    if p["na"]:
        continue
    checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                       technique="contract-based deductive verification of the real source (symbolic execution, loop summaries, z3 + polynomial normaliser), counterexamples replayed on the compiled code",
                       level=p["level"], level_note=p["note"] or NOTE))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
         notes="known_findings.json lists recorded and fixed defects; DESIGN.md describes method, coverage and planted changes.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
