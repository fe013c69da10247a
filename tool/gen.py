#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from lib/archlint/meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from archlint import meta
checks, na = [], []
with open(V + "/properties.jsonl", "w") as fh:
    for p in meta.PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                             "why_tests_cant": p["why"], "anchors": a}) + "\n")
        for f in p["files"]:
            if not os.path.exists("/repo/" + f): print("missing anchor file", p["id"], f)
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            c = f"python3 checks/{p['id']}.py"
            checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c, "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
            assert os.path.exists(f"{V}/checks/{p['id']}.py"), p["id"]
json.dump({"version": 1, "setup_cmd": "python3 tool/setup.py", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they type-check /repo's current working tree with clang, serialise the type-checked program and decide the rule on it. No hooks in /repo."},
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
