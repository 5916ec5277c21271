"""Writes properties.jsonl and MANIFEST.json from spec/props.py (python3 spec/gen.py)."""
import json
import re
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).parent))
from props import NOT_APPLICABLE, PROPS

PROPS.sort(key=lambda p: p["id"])
V = Path(__file__).resolve().parent.parent
with open(V / "properties.jsonl", "w") as f:
    for p in PROPS:
        d = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                "state": [dict(zip(("name", "meaning", "where"), m)) for m in p.get("state", [])],
                "observe_at": p["observe"],
                "hook_needed": None,
            },
        }
        assert len(d["title"]) <= 80, d["title"]
        assert len(re.findall(r"\.(?:\s|$)", d["statement"])) <= 3, p["id"]
        f.write(json.dumps(d) + "\n")

man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        }
        for p in PROPS
        if p["id"] not in {n["property"] for n in NOT_APPLICABLE}
    ],
    "not_applicable": NOT_APPLICABLE,
    "notes": "All checks drive the unmodified package from /repo (no hooks); see DESIGN.md.",
}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
