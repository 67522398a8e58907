#!/usr/bin/env python3
"""Joins the evidence of the builds that together decide a property."""
import glob, json, os, sys
pid = sys.argv[1]
parts = sorted(glob.glob(f"/verif/evidence/parts/{pid}-*.json"))
if len(sys.argv) > 2:
    json.dump({"property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration",
               "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": sys.argv[2], "samples": [sys.argv[2]]}, "wall_s": 0, "violations": 1},
              open(f"/verif/evidence/{pid}.json", "w"))
    sys.exit(0)
if not parts:
    sys.exit("no evidence")
es = [(os.path.basename(p)[len(pid) + 1:-5], json.load(open(p))) for p in parts]
first = es[0][1]
cov = {"evaluations": sum(e["coverage"]["evaluations"] for _, e in es), "distinct_nontrivial": sum(e["coverage"]["distinct_nontrivial"] for _, e in es),
       "rule": first["coverage"]["rule"], "samples": [dict(s, build=b) for b, e in es for s in e["coverage"]["samples"]],
       "regression_inputs_replayed": sum(e["coverage"]["regression_inputs_replayed"] for _, e in es),
       "suites": [dict(s, build=b) for b, e in es for s in e["coverage"]["suites"]]}
assumptions = []
for _, e in es:
    assumptions += [a for a in e["assumptions"] if a not in assumptions]
json.dump(dict(first, coverage=cov, assumptions=assumptions, wall_s=sum(e["wall_s"] for _, e in es), violations=max(e["violations"] for _, e in es)),
          open(f"/verif/evidence/{pid}.json", "w"), indent=1)
