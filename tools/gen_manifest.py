#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/DESIGN.md (run by hand; the output is committed)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from proofs import notes, registry
checks, props = [], []
titles = {}
names = set()
for f in os.listdir(os.path.join(V, "proofs", "verus")):
    for l in open(os.path.join(V, "proofs", "verus", f)):
        if l.startswith("//@fn "):
            names.add(l.split()[2])
        m = re.match(r"\s*(?:pub )?proof fn (\w+)", l)
        if m:
            names.add(m[1])
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    titles[d["id"]] = d["title"]
for i in range(1, 20):
    p = f"C{i:02d}"
    n = notes.N[p]
    for t in n["theorems"]:
        assert t in names, t
    checks.append({
        "property": p,
        "quick_cmd": f"python3 run.py {p}",
        "thorough_cmd": f"python3 run.py {p} --tier thorough",
        "technique": n["technique"],
        "level": registry.level(p),
        "level_note": n["note"] or "see DESIGN.md",
        **({"theorems": n["theorems"]} if n["theorems"] else {}),
    })
    props.append(f"### {p} {titles[p]}\n\n{n['text'].strip()}\n\n*Strength:* {n['note']}\n")
na = [{"property": p, "reason": r} for p, r in notes.NA.items()]
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: /repo carries only fix: commits. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
bugs = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = notes.CAUGHT
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    bugs.append(f"| {b} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(b, '')} |")
t = open(os.path.join(V, "tools", "design.tmpl.md")).read()
t = t.replace("@@PROPS@@", "\n".join(props)).replace("@@BUGS@@", "\n".join(bugs)).replace("@@NA@@", "\n".join(f"* **{p}** {titles[p]}: {r}" for p, r in notes.NA.items()))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
