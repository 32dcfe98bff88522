#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and checks.py, and checks both against the schemas
when those are at hand."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import PROPS
from checks import CHECKS

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        fh.write(json.dumps({k: v for k, v in p.items() if k != "pending"}, sort_keys=False) + "\n")
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
checks, na = [], []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if c:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"], "thorough_cmd": "python3 run.py %s --tier=thorough" % p["id"],
                       "technique": c["technique"], "level": "exploration", "level_note": c["level_note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("pending", "no check yet: its monitor is being built")})
assert not set(CHECKS) - set(ids), set(CHECKS) - set(ids)
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "Everything is built from /repo's working tree through a Go overlay; no hook is committed in /repo. Known findings: known_findings.json."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(checks), "checks,", len(na), "pending")
except ImportError:
    print("jsonschema not installed: not validated")
