#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, sys
sys.path.insert(0, "/verif")
from registry import CHECKS
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 setup.py_check",
         checks=[], not_applicable=[])
m["setup_cmd"] = "python3 selfcheck.py --setup"
for p in props:
    c = CHECKS.get(p["id"])
    if c:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
            thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique=c.get("technique", "TLA+ specification model-checked with TLC; calls of the real code recorded and validated against it by TLC trace checking"),
            level=c["level"], level_note=c.get("note", "The design model is checked exhaustively within its constants; conformance is decided on the recorded calls, within the generated inputs. Trusts TLC, the Flt override (IEEE primitives) and the recording harness.")))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="not claimed yet: its specification and harness are not built"))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import subprocess
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: print("no jsonschema")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
