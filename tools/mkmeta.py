#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, na=na))
def m(name, where): return {"name": name, "where": where}
exec(open(os.path.join(V, "tools", "props_meta.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"])), ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for p in P:
    if p["na"]:
        man["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    else:
        man["checks"].append(dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"],
            thorough_cmd="bash run.sh %s thorough" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
    print("valid,", len(P), "properties")
except ImportError:
    pass
