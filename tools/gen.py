#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (committed) from one table."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
P = []
def prop(id, title, statement, over, text, tests, files, mech, level="model_checking",
         technique="", note="", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests,
                  files=files, mech=mech, level=level, technique=technique, note=note,
                  state=state or [], observe=observe or []))
exec(open("tools/props.py").read())
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [dict(name=n, where=w) for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(f"harness/src/bin/{p['id'].lower()}.rs"):
        assert len(p["statement"].split(". ")) <= 4, p["id"]
        checks.append({
            "property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the public API of the crate built from /repo's "
              "working tree. See DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
import subprocess
print(len(P), "properties,", len(checks), "checks,", len(na), "not built")
