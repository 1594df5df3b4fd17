#!/usr/bin/env python3
"""Writes the per-property sections of DESIGN.md (between the markers) from props_meta.py and design_notes.py."""
import os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, observe=observe, technique=technique, note=note, na=na))
def m(a, b): return None
exec(open(V + "/tools/props_meta.py").read())
N = {}
exec(open(V + "/tools/design_notes.py").read())
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
kf = [l.strip() for l in open(V + "/known-findings.jsonl") if l.strip() and not l.startswith("#")]
out = []
for p in P:
    out.append("### %s — %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    if p["na"]: out.append("Not applicable: %s\n" % p["na"]); continue
    n = N[p["id"]]
    out.append("* **Anchors**: %s; observed at %s." % (", ".join("`%s`" % f for f in p["files"]), ", ".join(p["observe"])))
    out.append("* **Workload**: %s" % n["work"]); out.append("* **Oracle**: %s" % n["oracle"])
    out.append("* **Bounds and cost**: %s %s" % (p["note"], n["cost"]))
    out.append("* **Beyond the tests**: %s" % p["why"])
    fs = [json.loads(l) for l in kf if l[0] == "{"]
    for x in fs:
        if x["property"] == p["id"]: out.append("* **Known finding %s**: %s" % (x["id"], x["what"]))
    for l in kf:
        if l.startswith("fixed: property=%s " % p["id"]): out.append("* **Repaired** (%s): %s" % (l.split()[2][:7], " ".join(l.split()[3:])))
    if p["id"] in seeds: out.append("* **Planted bugs**: " + "; ".join("`%s` (%s)" % (i, d["what_it_breaks"]) for i, d in seeds[p["id"]]))
    out.append("")
D = V + "/DESIGN.md"
s = open(D).read()
a, b = s.index("<!-- properties -->"), s.index("<!-- end of properties -->")
open(D, "w").write(s[:a] + "<!-- properties -->\n\n" + "\n".join(out) + "\n" + s[b:])
