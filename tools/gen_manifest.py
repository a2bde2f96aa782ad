#!/usr/bin/env python3
"""Writes ../MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, root)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo are needed: the dependency the memory headers "
              "reach (sysops) is supplied by /verif/include and is the fault "
              "injection seam. All defects found are repaired by fix: commits, "
              "listed in known_findings.txt."}
for c in props:
    if c in CHECKS:
        k = CHECKS[c]
        m["checks"].append({
            "property": c,
            "quick_cmd": "python3 run.py %s --tier quick" % c,
            "thorough_cmd": "python3 run.py %s --tier thorough" % c,
            "technique": k["technique"], "level": k["level"],
            "level_note": "Exhaustive within: %s. Trusted: %s" % (
                k["bounds"], k.get("trusted", "the compiler, the reference model in the harness, "
                                   "and the interception of abort() and assertion failures."))})
    else:
        m["not_applicable"].append({"property": c, "reason": NOT_APPLICABLE.get(c, "check not built yet")})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
