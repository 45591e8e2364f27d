#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
S = "iOverlay/src/"


def prop(id, title, statement, over, text, why, files, mech, na=None, tech=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                  mech=[dict(name=n, where=S + w) for n, w in mech], na=na, tech=tech, note=note))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
m = dict(version=1, setup_cmd="bash build/setup.sh", checks=[], not_applicable=[])
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    else:
        assert os.path.exists(os.path.join(V, "sa/props", p["id"].lower() + ".py")), p["id"]
        m["checks"].append(dict(property=p["id"], quick_cmd=f"python3 sa/check.py {p['id']} quick",
                                thorough_cmd=f"python3 sa/check.py {p['id']} thorough",
                                technique=p["tech"], level="other", level_note=p["note"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
