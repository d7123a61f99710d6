"""MANIFEST.json from the registry of checks and the property table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.registry import CHECKS, TECHNIQUE, NOTE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
    "N01": "The estimate is a minimum over greedy colourings, three of them in random order: whether it is always optimal depends on run-time colourings of arbitrary graphs (NP-hard in general), not on the shape of the code.",
    "N02": "Numerical property of the optimum reached by external numerical routines (spectral embedding, density reachability, message passing) on arbitrary vectors; no sound static argument bounds it.",
    "N03": "Convergence and monotonicity quantify over floating-point values of arbitrary data; the code shape says nothing about them (only termination, claimed as C23, is structural).",
    "N04": "The code writes in place with open(..., 'w') by design of the documented API, and crash atomicity depends on the file system; the current code does not promise it and a static rule would only state that a rename is absent.",
}
checks = []
for p in props:
    pid = p["id"]
    if pid in CHECKS:
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "technique": TECHNIQUE[pid], "level": CHECKS[pid][1], "level_note": NOTE[pid]})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")} for p in props if p["id"] not in CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 -c \"import ast\"", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they parse /repo/src afresh on every run and never import or execute it. See DESIGN.md."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
