#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
from proptext import P, NA
TECH = "contract-based deductive verification: contracts on the real functions, weakest-precondition/symbolic execution of their compiled IR with inductive loop invariants, discharged by z3/cvc5"
have = [p for p in P if os.path.exists(os.path.join(V, "props", p + ".py"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P.values(): f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    for n in NA: f.write(json.dumps({k: v for k, v in n["prop"].items()}) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt dv/selfcheck.py", "hooks": {"guard": "QDNG_VERIF", "enable": "not used: the checks compile the unmodified sources", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --thorough", "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "proof",
   "level_note": (P[p]["_note"] + " " if P[p]["_note"] else "") + "All obligations generated from the current sources are discharged for all inputs; doubles are treated as reals and ints as unbounded, OpenMP regions as a team of one (other teams: property C01), the memory manager, libm and FFTW through stated contracts; trusts clang's front end, the /verif/dv executor and z3/cvc5. On a failed obligation the real code is additionally run (address sanitizer) to exhibit a failing input."} for p in have],
 "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NA] + [{"property": p, "reason": "no contracts written yet for the functions this property depends on"} for p in P if p not in have],
 "notes": "See DESIGN.md. known_findings.json lists findings and fixes; seeded/ holds planted bugs."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
