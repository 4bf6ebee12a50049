#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique="", level="exploration", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe,
                  technique=technique, level=level, note=note, na=na))


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": ["include/delfem2/" + x for x in p["files"]],
                         "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                         "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "observe_at": list(p["observe"]), "hook_needed": None}}
        for x in d["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(ROOT, "harness", p["id"] + ".cpp")) and not p["na"]:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check built yet (model checking applies; see DESIGN.md)"})
M = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles its harness (harness/ID.cpp) against /repo/include of the current working tree and exhaustively executes the real code; no hooks in /repo are needed."}
json.dump(M, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
