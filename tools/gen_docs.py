#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development aid, not run by checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "ebi/src/"
P = []  # (id, title, statement, over, quant, why, files, mechanism[(name, where)], note)


def p(id, title, st, over, quant, why, files, mech, note=None, na=None, how=None):
    P.append(dict(id=id, title=title, st=st, over=over, quant=quant, why=why, files=files, mech=mech, note=note, na=na, how=how))


exec(open(V + "/tools/props.py").read())

TECH = "symbolic execution of the compiled LLVM IR with z3 deciding every branch and assertion; counterexamples replayed natively"
with open(V + "/properties.jsonl", "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["st"], "quantifier": {"over": q["over"], "text": q["quant"]},
                            "why_tests_cant": q["why"], "anchors": {"files": [S + x for x in q["files"]],
                            "mechanism": [{"name": a, "where": S + b} for a, b in q["mech"]], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
     "notes": "Every check compiles /repo's current source to LLVM IR and executes it symbolically (engine/). No hooks are needed in /repo. Bounds: DESIGN.md and each evidence file."}
for q in P:
    if q["na"]:
        m["not_applicable"].append({"property": q["id"], "reason": q["na"]})
    else:
        m["checks"].append({"property": q["id"], "quick_cmd": f"python3 check.py {q['id']} quick", "thorough_cmd": f"python3 check.py {q['id']} thorough",
                            "evidence_file": f"evidence/{q['id']}.json", "technique": TECH, "level": "model_checking", "level_note": q["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")

import re, glob
def hdr(i):
    out = []
    for f in (f"{V}/harness/src/{i.lower()}.rs", f"{V}/harness/src/{i.lower()}i.rs"):
        if os.path.exists(f):
            t = open(f).read()
            out += [x for x in re.findall(r"^//! (.*)$", t, re.M)]
    return out
cost = json.load(open(V + "/tools/cost.json")) if os.path.exists(V + "/tools/cost.json") else {}
kf = json.load(open(V + "/known_findings.json"))
D = open(V + "/tools/design_head.md").read() + "## Properties\n\n"
for q in P:
    D += f"### {q['id']} {q['title']}\n\n{q['st']}\n\n"
    if q["na"]:
        D += f"Not applicable: {q['na']}\n\n"
        continue
    D += f"Decided: {q['how'] or 'symbolic execution of the real encoder and decoder; oracle: the input itself.'}\n\n"
    for h in hdr(q["id"]):
        D += f"- {h}\n"
    c = cost.get(q["id"])
    D += f"- COST: {c}\n" if c else ""
    D += f"- Why tests cannot: {q['why']}\n\n"
D += "## Genuine defects found\n\nRepaired (each a `fix:` commit in /repo):\n\n"
for x in kf["fixed"]:
    D += "- " + x[7:] + "\n"
D += "\nRecorded as known findings (known_findings.json); the check prints KNOWN-FINDING for exactly that input and still reports any other violation:\n\n"
for x in kf["findings"]:
    D += f"- {x['property']} ({x['harness']}): {x['what']}\n"
D += open(V + "/tools/design_tail.md").read() if os.path.exists(V + "/tools/design_tail.md") else ""
D += "\n## Planted bugs and which check catches them\n\n| bug | property | needs | caught (quick) |\n|---|---|---|---|\n"
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    mm = json.load(open(d))
    D += f"| {i} | {mm['property']} | {mm['needs']} | {res.get(i, '?')} |\n"
open(V + "/DESIGN.md", "w").write(D)
