#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and tools/claimed.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claimed = json.load(open(os.path.join(root, "tools", "claimed.json")))
checks, na = [], []
for p in props:
    c = claimed.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.sh %s" % p["id"],
        "thorough_cmd": "env VERIF_TIER=thorough ./run.sh %s" % p["id"],
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One harness crate (/verif/harness) built against /repo's working tree; see DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
