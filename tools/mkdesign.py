#!/usr/bin/env python3
import os, sys, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
from proptext import P, NA
from designtext import D, FINDINGS
t = open(os.path.join(V, "tools", "design.in")).read()
pp = "\n".join(f"* **{p}** {P[p]['title']}. {D.get(p, 'Contracts not written yet.')}" for p in P)
cj = os.path.join(V, "tools", "catches.json"); C = json.load(open(cj)) if os.path.exists(cj) else {}
rows = ["Each was written from the property text and the code, confirmed with `tools/trycheck.sh` (builds, passes the 117 stable tests, demo fails with it and passes without).", "", "| seed | property | change | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json"))); i = os.path.basename(d)
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {C.get(i, '?')} |")
na = "\n".join(f"* **{n['prop']['id']}** {n['prop']['title']}: {n['reason']}" for n in NA) or "* nothing listed yet"
t = t.replace("PERPROP", pp).replace("CATCHES", "\n".join(rows)).replace("NOTAPP", na).replace("FINDINGS", FINDINGS)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
