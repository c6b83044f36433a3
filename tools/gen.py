#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why, anchors=a), tech, note))
def na(id, reason):
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
nas = {n["property"] for n in NA}
json.dump(dict(
    version=1,
    setup_cmd="cargo --version",
    checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
                 technique=t, level="exploration", level_note=n) for p, t, n in P if p["id"] not in nas],
    not_applicable=NA,
), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md
D = os.path.join(HERE, "tools", "design")
out = open(D + "/head.md").read() + "## The monitors\n\n"
for p, t, n in P:
    out += f"### {p['id']} {p['title']}\n\n* Specified: {p['statement']}\n* Over {p['quantifier']['text']}. {p['why_tests_cant']}\n"
    out += (f"* Decided by {t}.\n* Reach: {n}\n\n" if p["id"] not in nas else "* Not applicable, see below.\n\n")
if NA:
    out += "## Not applicable\n\n" + "".join(f"* {n['property']}: {n['reason']}\n" for n in NA) + "\n"
out += open(D + "/tail.md").read() + "\n| change | property | needs |\n|---|---|---|\n"
for i in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(HERE + f"/seeded/{i}/meta.json"))
    out += f"| {i} | {m['property']} | {m['needs']} |\n"
out += "\nEach is caught by the quick check of its property (`tools/seeds.sh` runs them all).\n"
open(HERE + "/DESIGN.md", "w").write(out)
