#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks the harness has."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
src = "".join(open(os.path.join(root, "harness/src/checks", f)).read() for f in sorted(os.listdir(os.path.join(root, "harness/src/checks"))))
have = set(re.findall(r'id: "(C\d\d)"', src))
notes = json.load(open(os.path.join(root, "tools/level_notes.json")))
checks = []
for p in props:
    if p["id"] not in have: continue
    n = notes[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}", "thorough_cmd": f"bash run.sh {p['id']}",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "bash run.sh --setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": notes.get(p["id"], {}).get("not_applicable", "no check built yet")} for p in props if p["id"] not in have],
     "notes": "All checks are one Rust harness (harness/, binary vh) linked against /repo; no hooks in /repo are needed. Genuine defects: known_findings.json and DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
