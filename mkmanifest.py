#!/usr/bin/env python3
"""writes MANIFEST.json from checks.json and properties.jsonl"""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
checks = json.load(open(V + "/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/not_applicable.json"))
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [], "not_applicable": [],
     "hooks": {"guard": "none (no hooks are needed)", "enable": "the checks build /repo's crates as they are", "source_commits": []},
     "notes": "Verus contracts spliced into functions mechanically extracted from /repo on every run; see DESIGN.md."}
for p in props:
    c = checks.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": c.get("technique", "contract-based deductive verification (Verus) of the extracted real code"),
            "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": na.get(p["id"], "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
