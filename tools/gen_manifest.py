"""Writes /verif/MANIFEST.json: one check per property that has a module in mc/props, the rest under not_applicable."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "stateless exploration of all completion orders and failures on the real async EA",
 "C02": "stateless exploration of schedules, failures and contestant draws on the real code",
 "C03": "explicit enumeration of insertion histories, conformance against a from-scratch sort",
 "C07": "enumeration of all fitness histories and random outcomes of the generational EA",
 "C13": "enumeration of all migration histories against a reference island model",
 "C15": "enumeration of failure patterns and completion orders (fault model checking)",
}
DEFAULT = "bounded exhaustive enumeration of executions on the real code (stateless model checking)"
NOTE = ("Every execution within the stated bounds (see coverage.bounds in the evidence) is run on the real code in /repo with all randomness, "
        "scheduling and faults under the explorer's control, and compared with an independent reference model. Nothing beyond the bounds is claimed; "
        "trusted: the explorer, the draw replacements for random/numpy.random (real-valued draws are represented by bin midpoints), the reference model.")
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, "mc", "props", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="./check %s quick" % p, thorough_cmd="./check %s thorough" % p,
                           technique=TECH.get(p, DEFAULT), level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=p, reason="its check is not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); import leap_ec, numpy, networkx'",
         checks=checks, not_applicable=na,
         notes="No hooks: the checks own every source of nondeterminism from outside (mc/engine.py). Known findings: known_findings.jsonl.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
