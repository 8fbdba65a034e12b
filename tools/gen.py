#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from spec.py and props.py."""
import json, pathlib, sys
here = pathlib.Path(__file__).resolve().parent
sys.path[:0] = [str(here), str(here.parent)]
from spec import SPEC
from props import PROPS
V = here.parent
with open(V / "properties.jsonl", "w") as f:
    for s in SPEC:
        f.write(json.dumps({
            "id": s["id"], "title": s["title"], "statement": s["statement"],
            "quantifier": {"over": s["over"], "text": s["text"]},
            "why_tests_cant": s["why"],
            "anchors": {"files": s["files"], "mechanism": [{"name": a, "where": b} for a, b in s["mech"]]},
        }, ensure_ascii=False) + "\n")
ids = [s["id"] for s in SPEC]
assert sorted(ids) == sorted(PROPS), (ids, list(PROPS))
for s in SPEC:
    assert len(s["title"]) <= 80, s["title"]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [{
        "property": s["id"],
        "quick_cmd": f"python3 run.py {s['id']} --tier quick",
        "thorough_cmd": f"python3 run.py {s['id']} --tier thorough",
        "technique": s["technique"],
        "level": PROPS[s["id"]]["level"],
        "level_note": s["note"],
    } for s in SPEC],
    "not_applicable": [],
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
