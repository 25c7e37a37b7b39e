#!/usr/bin/env python3
"""Writes MANIFEST.json from table.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
from table import CHECKS  # noqa: E402

VERIF = os.path.dirname(HERE)
ids = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"],
        })
m = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "hooks": {"guard": "none: no hooks in /repo; two packages get an export shim through go's -overlay",
              "enable": "go test -overlay, see ./check", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "the check is still being built"} for i in ids if i not in CHECKS],
    "notes": "Run from /verif. VERIF_SEED and VERIF_TIER (quick, thorough) select the run. "
             "./check ID --replay FILE repeats a recorded failure. See DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
