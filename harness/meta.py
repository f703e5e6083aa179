#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "ADOL-C/src/"; I = "ADOL-C/include/adolc/"
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _t=tech, _n=note))

exec(open(os.path.join(V, "harness", "props.py")).read())

claimed = [p["id"] for p in P if os.path.exists(os.path.join(V, "harness", "checks", p["id"] + ".cpp"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
M = dict(version=1, setup_cmd="./run.py --setup", checks=[], not_applicable=[], notes=NOTES)
for p in P:
    i = p["id"]
    if i in claimed:
        M["checks"].append(dict(property=i, quick_cmd=f"./run.py {i} quick", thorough_cmd=f"./run.py {i} thorough",
                                technique=p["_t"], level="exploration", level_note=p["_n"]))
    else:
        M["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
cfg = {i: CFG.get(i, {}) for i in claimed}
json.dump(cfg, open(os.path.join(V, "harness", "checks.json"), "w"), indent=1)
print(len(P), "properties,", len(claimed), "claimed")
