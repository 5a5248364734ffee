#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in (PROPS, NOT_APPLICABLE):
        for pid, p in d.items():
            assert len(p["title"]) <= 80, (pid, len(p["title"]))
            f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": p["anchors"]}) + "\n")
m = {"version": 1, "setup_cmd": "python3 build.py all", "checks": [], "not_applicable": []}
for pid, p in PROPS.items():
    m["checks"].append({
        "property": pid,
        "quick_cmd": "python3 check.py " + pid,
        "thorough_cmd": "python3 check.py %s --thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": p.get("technique", "deterministic simulation with fault injection: seeded search over %s, checked against an independent reference model" % p.get("search", "operation and fault sequences")),
        "level": p.get("level", "exploration"),
        "level_note": p.get("note", "Seeded random exploration, no exhaustiveness claim. Trusts the simulator's disk, clock and allocator model and the independent emitters, parsers and spline model in sim/."),
    })
for pid, p in NOT_APPLICABLE.items():
    m["not_applicable"].append({"property": pid, "reason": p["reason"]})
m["notes"] = "No hooks in /repo: the simulator interposes libc and operator new in its own program. Replay: python3 check.py replay <file>."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
