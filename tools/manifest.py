#!/usr/bin/env python3
"""Writes MANIFEST.json from the check registry and the property table."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import REGISTRY, NOT_APPLICABLE, NOTES  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
DEFAULT_NOTE = ("Abstract interpretation of the current source of /repo; every obligation is decided for all inputs at once by comparing "
                "normal forms of the computed terms or the effects of the call with the stated definition. Trusts the models of the "
                "numpy/scipy/networkx/pandas/torch calls in sa/lib.py and sa/normal.py (exact real arithmetic). "
                "An obligation the analysis cannot decide is reported as UNDECIDED in the evidence and raises no alarm.")
for i in ids:
    if i in REGISTRY:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                       "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": REGISTRY[i][2], "level": "other", "level_note": NOTES.get(i, "") + DEFAULT_NOTE})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check is registered for it yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the analyser reads the source of /repo and never runs it. Python 3 standard library only."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks", len(na), "not applicable")
