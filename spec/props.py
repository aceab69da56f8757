#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json: ./spec/props.py rewrites both"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na,
                  state=state or [], observe=observe or []))


exec(open(os.path.join(V, "spec", "list.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                                        "mechanism": [dict(zip(("name", "where"), s)) for s in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = []; na = []
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    if p["na"]: na.append({"property": p["id"], "reason": p["na"]}); continue
    if not os.path.exists(os.path.join(V, "sa", "checks", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "no check built yet"}); continue
    checks.append({"property": p["id"], "quick_cmd": "./check.py " + p["id"], "thorough_cmd": "./check.py " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "static analysis: " + p["tech"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "tool/build.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks recompile /repo's current sources to LLVM bitcode and decide the property on the resolved program (or on the parsed .nuj sources); nothing is executed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
