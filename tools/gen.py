#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and the
list of checks the simulator implements (tools/checks.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
from props import PROPS, NOT_APPLICABLE
try:
    from checks import CHECKS, HOOK_COMMITS
except ImportError:
    CHECKS, HOOK_COMMITS = {}, []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in PROPS]
na = dict(NOT_APPLICABLE)
for i in ids:
    if i not in CHECKS and i not in na:
        na[i] = "No check built yet (work in progress)."
m = {
    "version": 1,
    "setup_cmd": "bash tools/build.sh",
    "hooks": {
        "guard": "tower_sim",
        "enable": "RUSTFLAGS='--cfg tower_sim' when building the harness crate /verif/sim (tools/build.sh); off in every other build",
        "source_commits": HOOK_COMMITS,
    },
    "checks": [
        {
            "property": i,
            "quick_cmd": f"bash tools/check.sh {i} quick",
            "thorough_cmd": f"bash tools/check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: " + CHECKS[i][0],
            "level": "exploration",
            "level_note": CHECKS[i][1],
        }
        for i in ids if i in CHECKS
    ],
    "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i in na and i not in CHECKS],
    "notes": "See DESIGN.md. Every check is seeded search over simulated executions of the real tower code; replay a reported file with: bash tools/replay.sh <file>.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
