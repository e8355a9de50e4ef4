"""
Writes MANIFEST.json and props/index.json.

What each check covers is described in `tools/checks.py`.
"""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))

from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl")) as f:
    ids = [json.loads(line)["id"] for line in f if line.strip()]

index = {}
checks = []
for p in ids:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    index[p] = {
        "modules": c["modules"],
        "explanation": c["explanation"],
        "bounds": c["bounds"],
        "assumptions": c["assumptions"],
        "level": "other",
    }
    checks.append(
        {
            "property": p,
            "quick_cmd": f"python3-vt run.py {p} --tier quick",
            "thorough_cmd": f"python3-vt run.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "bounded symbolic execution of the Python source of /repo, decided by the SMT solver z3; counterexamples replayed on the unmodified code",
            "level": "other",
            "level_note": c["explanation"] + " Bounds: " + c["bounds"] + " Assumes: " + " ".join(c["assumptions"]),
        }
    )
missing = [p for p in ids if p not in CHECKS]
manifest = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": [
        {"property": p, "reason": NOT_APPLICABLE.get(p, "No check has been built yet; nothing is claimed.")} for p in missing
    ],
}
with open(os.path.join(HERE, "props", "index.json"), "w") as f:
    json.dump(index, f, indent=1)
    f.write("\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
