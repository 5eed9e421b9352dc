#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. The list of built checks is what `mc --list` prints (kept in tools/built.txt)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built = open(os.path.join(root, "tools/built.txt")).read().split()
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(root, "tools/notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        n = NOTE[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "technique": n["technique"],
            "level": "model_checking",
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": NOTE.get(i, {}).get("not_applicable", "the check for this property isn't built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "./run.sh --list",
    "checks": checks,
    "not_applicable": na,
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface of the crate only", "source_commits": []},
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
