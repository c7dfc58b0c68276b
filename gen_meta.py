"""Regenerate properties.jsonl and MANIFEST.json from sa/props.py."""
import json
from sa.props import PROPS

with open("properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        import os
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), (p["id"], x)
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m compileall -q sa run_check.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python run_check.py {p['id']}",
        "thorough_cmd": f"/opt/venv/bin/python run_check.py {p['id']}",
        "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    } for p in PROPS if p["run"]],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p["run"]],
    "notes": "All checks are static: they read /repo's current source (Python via ast, Cython via Cython's own parser) and never run it.",
}
json.dump(man, open("MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties,", len(man["checks"]), "claimed")
