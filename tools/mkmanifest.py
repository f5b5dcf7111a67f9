#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import meta
from checks import CHECKS, NOT_APPLICABLE  # noqa

props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(property=p, quick_cmd="python3 tools/vf.py check " + p,
                           thorough_cmd="python3 tools/vf.py check " + p,
                           evidence_file="evidence/%s.json" % p,
                           technique=meta.TECH[p], level=c.get("level", "proof"),
                           level_note=meta.NOTE[p]))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "no contract built yet")))
m = dict(version=1, setup_cmd="python3 tools/vf.py setup",
         checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: the unmodified headers are extracted", source_commits=[]),
         notes="tools/vf.py is the runner, harness/ holds the contracts, tools/ll2c the extraction. See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
