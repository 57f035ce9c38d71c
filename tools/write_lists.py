#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=(), state=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], hook_needed=None),
                  _t=technique, _n=note, _na=na))

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = []
for p in P:
    if p["_na"]:
        NA.append(dict(property=p["id"], reason=p["_na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                       technique=p["_t"], level="exploration", level_note=p["_n"], evidence_file=f"evidence/{p['id']}.json"))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=NA,
                   notes="Every check builds what it needs from /repo's working tree (check.sh), in /verif/build."), f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(NA), "not applicable")
