import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P
try:
    from na import NA
except ImportError:
    NA = []
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q waxsa >/dev/null 2>&1 || true",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 -m waxsa check {p['id']}",
            "thorough_cmd": f"python3 -m waxsa check {p['id']} --thorough",
            "technique": p["technique"], "level": "other", "level_note": p["note"],
        }
        for p in P
    ],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "Every check parses /repo's current source and decides its obligations statically; nothing of the repository is executed.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "claimed", len(NA), "n/a")
