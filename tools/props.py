#!/usr/bin/env python3
"""The table of properties; writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, level_note, state=None, claimed=True,
         reason=None, level="model_checking"):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": False}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((d, technique, level_note, claimed, reason, level))


exec(open(os.path.join(ROOT, "tools", "proptable.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, technique, note, claimed, reason, level in P:
    i = d["id"]
    if not claimed:
        na.append({"property": i, "reason": reason})
        continue
    checks.append({"property": i, "quick_cmd": "python3 checks/%s.py quick" % i,
                   "thorough_cmd": "python3 checks/%s.py thorough" % i,
                   "technique": technique, "level": level, "level_note": note,
                   "evidence_file": "evidence/%s.json" % i})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+ (TLC). No hooks: every observation is made through the program's own command line. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "claimed")
