#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a harness, not_applicable (with the reason below) for the others."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
have = set()
for f in glob.glob(V + "/harness/*/*.go"):
    have |= set(re.findall(r'Register\("Verif_(C\d\d)_', open(f).read()))
NA = {
}
NOTE = ("Every path of the listed harnesses over the real Go SSA of the current tree is explored symbolically; the solver decides each assertion for all values of the symbolic inputs within the bounds "
        "(bounds and functions per harness in the evidence file). Trusted: Go SSA builder, the encoder (engine/), z3; validated by replaying a sample input of explored paths and every counterexample natively. "
        "Nothing is claimed outside the bounds.")
checks, na = [], []
for i in ids:
    if i in have and i not in NA:
        checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "bounded symbolic execution of the real Go SSA with SMT (z3)" + (", schedules as symbolic choices and predictive race queries over event orders" if i == "C32" else ""), "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no sound encoding of the code behind it was finished")})
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: harnesses are compiled in through a build overlay."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
