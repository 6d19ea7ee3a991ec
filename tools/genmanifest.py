#!/usr/bin/env python3
"""Writes tools/props.json (read by check.py) and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the Go source (gvc: weakest preconditions over SSA, z3/cvc5)"
GEN = "random grammar-derived texts, mutations of them and of string literals new in the source, random byte strings"
P = {}


def p(id, gvc, level, rule, note, **kw):
    P[id] = dict(gvc=gvc, level=level, rule=rule, note=note, **kw)


BOUND = " The search with the real code is a bounded complement and is not counted as proved."
exec(open(os.path.join(V, "tools/levels.py")).read())

json.dump({k: {a: b for a, b in v.items() if a not in ("note", "tech")} for k, v in P.items()},
          open(os.path.join(V, "tools/props.json"), "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i not in P:
        na.append({"property": i, "reason": "no check yet"})
        continue
    v = P[i]
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i,
                   "technique": v.get("tech", TECH + ", with a bounded search for failing inputs" if v["gvc"] else "bounded stand-in for contract verification: search with the real code against a reference"),
                   "level": v["level"], "level_note": v["note"]})
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Contracts live in /verif/contracts and are laid over the packages of /repo on every run; /repo holds no hooks. known-findings.txt lists defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
