#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from catalogue.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
from catalogue import CATALOGUE, NOT_APPLICABLE


def line(i, c):
    return {"id": i, "title": c["title"], "statement": c["statement"],
            "quantifier": {"over": c["over"], "text": c["quant"]}, "why_tests_cant": c["why"],
            "anchors": {"files": c["files"], "mechanism": [{"name": n, "where": w} for n, w in c["mech"]],
                        "observe_at": c.get("observe", []), "hook_needed": None}}


with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in sorted(list(CATALOGUE) + list(NOT_APPLICABLE)):
        f.write(json.dumps(line(i, CATALOGUE.get(i) or NOT_APPLICABLE[i])) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 driver/check.py --build-only",
     "hooks": {"guard": "none", "enable": "no hooks: every seam is an interposed runtime function (libgomp, clock, libc file calls, operator new); the checks compile /repo's headers unchanged", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "python3 driver/check.py --property %s --tier quick" % i,
                 "thorough_cmd": "python3 driver/check.py --property %s --tier thorough" % i,
                 "technique": c["technique"], "level": c["level"], "level_note": c["note"]} for i, c in sorted(CATALOGUE.items())],
     "not_applicable": [{"property": i, "reason": c["reason"]} for i, c in sorted(NOT_APPLICABLE.items())],
     "notes": "Every check is deterministic simulation with fault injection; see DESIGN.md. Replay: python3 driver/check.py --replay FILE."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
