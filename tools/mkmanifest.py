#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per harness directory that has a spec.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    d = root + "/harness/" + i.lower()
    if i in NA or not os.path.exists(d + "/spec.json"):
        na.append({"property": i, "reason": NA.get(i, "no check has been built for this property yet")})
        continue
    s = json.load(open(d + "/spec.json"))
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh %s quick" % i,
        "thorough_cmd": "./run.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "bounded symbolic execution of the Go SSA form of the current source; z3 decides every branch and assertion; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for every value within: " + "; ".join(s["bounds"]) + ". Outside: " + "; ".join(s.get("outside", [])) + ". Trusts the executor in /verif/engine (its models of the Go runtime and of library calls, cross-checked natively on sampled paths) and z3." + (" Assumes: " + "; ".join(s["assumptions"]) + "." if s.get("assumptions") else ""),
    })
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: /repo carries only fix: commits. Harnesses are compiled against /repo through a build overlay."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
