"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, NOTES

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        assert d["statement"].count(". ") <= 2, d["id"]
        f.write(json.dumps(d) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "checks/run.sh " + p["id"],
            "thorough_cmd": "checks/run.sh " + p["id"],
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        }
        for p in PROPS
    ],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": NOTES,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
