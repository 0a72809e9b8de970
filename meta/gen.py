#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (run by hand; the results are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from defs import PROPERTIES, NOT_APPLICABLE
out = []
for p in PROPERTIES + NOT_APPLICABLE:
    assert len(p["title"]) <= 80, p["title"]
    out.append({"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
                "quantifier": {"over": p.get("over", ["inputs"]), "text": p["all"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
with open(V + "/properties.jsonl", "w") as f:
    for p in out:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 engine/prepare.py",
    "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']}",
                "technique": p["technique"], "level": "other", "level_note": " ".join(p["note"].split())} for p in PROPERTIES],
    "not_applicable": [{"property": p["id"], "reason": " ".join(p["reason"].split())} for p in NOT_APPLICABLE],
}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
