#!/usr/bin/env python3
"""Writes known_findings.json (run by hand after a new fix commit; never by a check)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(HERE, "known_table.py")).read())
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
fixed = []
for p, subj, what in FIXED:
    assert "fix: " + subj in log, subj
    fixed.append("fixed: property=%s %s %s" % (p, log.pop("fix: " + subj), what or subj))
left = [s for s in log if s.startswith("fix:")]
assert not left, left
json.dump({"known": KNOWN, "fixed": fixed}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
