#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and harness/groups.txt from the descriptions in tools/props/*.py."""
import json, os, glob, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, na = [], []
for f in sorted(glob.glob(os.path.join(root, "tools", "props", "*.py"))):
    ns = {}
    exec(open(f).read(), ns)
    props += ns.get("PROPS", [])
props.sort(key=lambda p: p["id"])
checks, groups = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as out:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if "observe" in p: anchors["observe_at"] = p["observe"]
        if "state" in p: anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        out.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")
        if "group" not in p:
            na.append({"property": p["id"], "reason": p["na"]}); continue
        groups.append(f'{p["id"]} {p["group"]} {p.get("maps") or "-"} {p.get("sched") or "-"} {p.get("race") or "-"}')
        checks.append({"property": p["id"], "quick_cmd": f'./run.sh {p["id"]} quick', "thorough_cmd": f'./run.sh {p["id"]} thorough',
            "evidence_file": f'evidence/{p["id"]}.json', "technique": p["technique"], "level": p.get("level", "model_checking"), "level_note": p["note"]})
open(os.path.join(root, "harness", "groups.txt"), "w").write("\n".join(groups) + "\n")
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "notes": "Checks build the harness against /repo's working tree through Go build overlays made on the fly (no hooks are committed in /repo); see DESIGN.md."},
  open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(props), "properties", len(checks), "checks")
