#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/specs.py and properties.jsonl."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks.specs import SPECS  # noqa

props = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl"))]
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 checks/run.py {p} --tier quick",
        "thorough_cmd": f"python3 checks/run.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": SPECS[p]["technique"],
        "level": "exploration",
        "level_note": SPECS[p]["note"],
    } for p in props if p in SPECS],
    "not_applicable": [{"property": p, "reason": "its monitor is still being built"} for p in props if p not in SPECS],
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
