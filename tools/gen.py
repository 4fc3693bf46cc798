#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and claims.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props, claims
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": None},
        }) + "\n")
ids = [p["id"] for p in props.P]
checks, na = [], []
for i in ids:
    if i in claims.C:
        t, n = claims.C[i]
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "technique": t, "level": "other", "level_note": n, "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": props.NA.get(i, "the analysis for this property is not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One analyzer (analyzer/, Go, x/tools vendored) decides all properties from the type-checked SSA of /repo's current source; nothing of /repo is executed and no hooks are needed."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
