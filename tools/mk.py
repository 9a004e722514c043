import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P

have = [p for p in P if os.path.exists(os.path.join(ROOT, "vpf", "checks", p["id"].lower() + ".py"))]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick", "thorough_cmd": f"./check {p['id']} --tier thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in have],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p not in have],
     "notes": "Every check drives /repo's working tree (an editable install) through public API with Hypothesis; see DESIGN.md. No hooks in /repo."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(have), "checks")
