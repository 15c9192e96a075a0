#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts import registry
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    m = registry.META.get(i)
    if m:
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py --property {i}",
            thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py --property {i}",
            technique=m.get("technique", registry.TECHNIQUE), level=m.get("level", "proof"), level_note=m["note"]))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
