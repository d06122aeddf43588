#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=None, tech=None, note=None, na=None, level="other", thorough=False):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "state": [{"name": n, "meaning": m} for n, m in state or []], "observe_at": observe, "hook_needed": None}}
    P.append((d, dict(tech=tech, note=note, na=na, level=level, thorough=thorough)))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _ in P:
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 -c 'from laikcheck import build; print(build.engine())'", "checks": [], "not_applicable": [],
       "notes": "Static analysis only. Each check compiles /repo's current sources to LLVM bitcode (clang -O0 -g, same flags as the project's build), "
                "dumps the linked IR with engine/laikir and decides the rules in laikcheck/rules/<id>.py on it; nothing of /repo is run. "
                "No hooks are needed in /repo."}
for d, a in P:
    if a["na"]:
        man["not_applicable"].append({"property": d["id"], "reason": a["na"]})
    else:
        c = {"property": d["id"], "quick_cmd": "./check " + d["id"], "thorough_cmd": "./check %s --thorough" % d["id"],
             "evidence_file": "evidence/%s.json" % d["id"], "technique": a["tech"], "level": a["level"], "level_note": a["note"]}
        man["checks"].append(c)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed,", len(man["not_applicable"]), "not applicable")
