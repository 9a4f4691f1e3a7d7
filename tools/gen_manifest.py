#!/usr/bin/env python3
"""Writes MANIFEST.json: every property is either claimed by the module that
checks it or listed as not applicable."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import modules  # noqa: E402

NOT_APPLICABLE = {}

checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not modules.claimed(p):
        na.append({"property": p, "reason": NOT_APPLICABLE.get(
            p, "not built yet: the specification of this module is not "
               "written")})
        continue
    m = modules.parts_of(p)[0].m
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": m.get("technique",
                           "TLA+ specification checked with TLC; traces of "
                           "the real code validated against it"),
        "level": m.get("level", "model_checking"),
        "level_note": m.get("level_note",
                            "The specification is explored exhaustively "
                            "inside small bounds; its behaviours and seeded "
                            "random ones are executed on the real code and "
                            "each recorded trace is checked by TLC step by "
                            "step. Trusts TLC, the driver's recording and "
                            "the compiler; inputs outside the generated "
                            "ones are not executed."),
    })
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
       "not_applicable": na,
       "notes": "No hooks in /repo: the checks compile /repo's sources "
                "unchanged and observe public functions and statistics."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
