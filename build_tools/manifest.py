#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + "/build_tools")
from checks import CHECKS  # noqa: E402
NA = {}
try:
    from checks import NOT_APPLICABLE as NA  # noqa: E402
except ImportError:
    pass
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [],
    "not_applicable": [],
}
for p in props:
    pid = p["id"]
    if pid in CHECKS:
        c = CHECKS[pid]
        m["checks"].append({
            "property": pid,
            "quick_cmd": "python3 check.py %s --tier quick" % pid,
            "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
            "technique": "property-based testing: " + (c.get("technique") or
                         "generated inputs against an explicit oracle, with shrinking"),
            "level": "exploration",
            "level_note": "Searches generated cases only; absence of a counterexample "
            "is evidence, not proof. " + (c["note"] or ""),
        })
    else:
        m["not_applicable"].append({
            "property": pid,
            "reason": NA.get(pid, "no check has been built for it yet")})
with open(here + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
