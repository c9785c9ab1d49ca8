#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table in props.py and the check
table in checks.py (development helper, not used by the checks)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
from props import PROPS, NOT_APPLICABLE

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "REFLEX_VERIF_BLOCK", "enable": "check.py compiles /repo's sources into its own build cache with -DREFLEX_VERIF_BLOCK=<bytes> (variants named smallbuf)", "source_commits": ["a90828b"]}, "checks": [], "not_applicable": [],
     "notes": "One harness binary per property, built from /repo's current tree by check.py; all observation is through the public API, exported tables, generated code and files. The one hook in /repo sets the size of the matcher's buffer, so that small inputs cross it."}
for p in PROPS:
    i = p["id"]
    if i in CHECKS and i not in NOT_APPLICABLE:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": CHECKS[i]["technique"], "level": CHECKS[i].get("level", "exploration"),
                            "level_note": CHECKS[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "the check for this property is not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(l), s)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
