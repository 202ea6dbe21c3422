#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, na=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    P.append((d, technique, note, na))

exec(open(os.path.join(ROOT, "meta", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
m = {"version": 1,
     "setup_cmd": "./run.sh names > /dev/null",
     "checks": [], "not_applicable": [],
     "notes": "Every check is static: it type-checks the working tree of /repo, builds SSA form and decides the property from it. Nothing of /repo is executed. See DESIGN.md."}
for d, tech, note, na in P:
    if na:
        m["not_applicable"].append({"property": d["id"], "reason": na})
    else:
        m["checks"].append({"property": d["id"], "quick_cmd": "./run.sh " + d["id"], "thorough_cmd": "./run.sh " + d["id"],
                            "evidence_file": "evidence/%s.json" % d["id"], "technique": tech, "level": "other", "level_note": note})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
