#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/instances.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from instances import CHECKS  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = "Specified in properties.jsonl, its model and conformance harness are not finished yet."
NOTE = ("Bounded: exhaustive small instances of the TLA+ model plus seeded random behaviours of "
        "larger ones, each replayed on the code and judged by TLC. {}")

checks, missing = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in CHECKS:
        missing.append({"property": p, "reason": PENDING})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3 bin/check.py {p} --tier quick",
        "thorough_cmd": f"python3 bin/check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "TLA+ model checked by TLC; behaviours of the model replayed on the code; "
                     "recorded traces validated by TLC against the trace specification",
        "level": "model_checking",
        "level_note": NOTE.format(CHECKS[p].get("assumptions", "")).strip(),
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "hooks": {"guard": "none", "enable": "no hook is needed: the checks only use public entry "
              "points, user-provided modules, samplers, optimizers and stopping rules",
              "source_commits": []},
    "checks": checks,
    "not_applicable": missing,
    "notes": "See DESIGN.md. Every check imports skwdro from /repo's working tree.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
