#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry lib/checks.py and the reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "lib"))
import checks
NA = {}
DEF = "Check not built yet."
for l in open(os.path.join(V, "tools", "not_applicable.txt")):
    if ":" in l: k, v = l.split(":", 1); NA[k.strip()] = v.strip()
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "make -s -C engine all && engine/build/selftest 200000", "checks": [], "not_applicable": []}
for p in props:
    c = checks.C.get(p)
    if c: m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p, "technique": c.get("technique") or checks.TECH, "level": c["level"], "level_note": ("Bounds: " + c["bounds"] + ". " + c["notes"]).strip()})
    else: m["not_applicable"].append({"property": p, "reason": NA.get(p, DEF)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
