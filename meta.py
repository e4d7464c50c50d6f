#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None, reason=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, reason=reason))


exec(open(os.path.join(HERE, "properties_table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")) and p["technique"]:
        checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 run.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["reason"] or "check under construction"})
m = {"version": 1, "setup_cmd": "python3 -m vf.build", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds what it runs from /repo/src (see vf/build.py); no hooks in /repo are needed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "unclaimed")
