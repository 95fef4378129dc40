"""regenerates MANIFEST.json from the implemented plans"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import plans
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification checked with TLC; " + plans.TECH.get(i, plans.TECH[""]),
                           level="model_checking", level_note=plans.NOTE.get(i, plans.NOTE[""])))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="All checks: bin/check <id> [quick|thorough]; without the second argument the tier comes from VERIF_TIER, random choices from VERIF_SEED. See DESIGN.md. "
               "No hooks are needed in /repo: the driver observes return values and files of public calls.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
