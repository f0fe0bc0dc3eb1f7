#!/usr/bin/env python3
# Writes /verif/properties.jsonl and /verif/MANIFEST.json (single source for both).
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, check=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append((d, check))

BB = "explicit enumeration of a bounded input space through the real compiled program, every output judged by an independent reference model"
exec(open(os.path.join(V, "tools", "props_list.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks = []
for d, c in P:
    if not c: continue
    checks.append(dict(property=d["id"], quick_cmd=f"bash run.sh {d['id']} quick", thorough_cmd=f"bash run.sh {d['id']} thorough",
        evidence_file=f"evidence/{d['id']}.json", technique=c["technique"], level=c["level"], level_note=c["note"]))
na = [dict(property=d["id"], reason=c_na) for d, c in P if not c for c_na in [NA[d["id"]]]]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks are committed in /repo: instrumented copies are generated from the working tree by each check.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "checks")
