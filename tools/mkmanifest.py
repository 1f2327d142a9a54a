#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from properties.jsonl and contracts/props.txt.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
exec(open(V + "/tools/na.py").read())
conf, cur = {}, None
for l in open(V + "/contracts/props.txt"):
    l = l.strip()
    if not l or l.startswith("#"):
        continue
    w = l.split()
    if w[0] == "prop":
        cur = conf.setdefault(w[1], {"unit": [], "bounded": [], "note": []})
    elif w[0] == "unit":
        cur["unit"] += w[1:]
    elif w[0] == "bounded":
        cur["bounded"].append(" ".join(w[1:3]) + ": " + " ".join(w[3:]))
checks, na = [], []
for i in ids:
    if i in conf and i not in NA:
        c = conf[i]
        note = "Every obligation of the contracts of " + ", ".join(c["unit"]) + " (and of every contract they rely on) is discharged by SMT solvers from /repo's current source, for all inputs and iterations."
        if c["bounded"]:
            note += " Not proved, bounded stand-in only: " + "; ".join(c["bounded"]) + "."
        note += " Assumes the listed library models, slice lengths up to 2^30, sequential execution; trusts the gover verifier, go/ssa and the solvers."
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "technique": "contract-based deductive verification of the real Go code (go/ssa symbolic execution, loop invariants, SMT)",
                       "level": "proof", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "under construction: no contracts yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One verifier (gover) and one set of contracts decide all properties; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
