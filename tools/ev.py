#!/usr/bin/env python3
"""summarise an evidence file: ev.py PROP"""
import json, sys
e = json.load(open("/verif/evidence/%s.json" % sys.argv[1]))
for r in e["coverage"]["per_contract"]:
    if r["status"] != "proved" or len(sys.argv) > 2 or r["seconds"] > 40:
        print(r["label"], r["status"], r["seconds"], str(r["why"])[:300], r["replay"])
for o in e["coverage"]["obligations_list"]:
    if o["status"] != "discharged":
        print("   ", str(o)[:400])
print(e["coverage"]["errors"], e["wall_s"])
