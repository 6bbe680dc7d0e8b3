#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: one check per property the harness implements."""
import json, os, subprocess, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from notes import NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
exe = os.path.join(os.environ.get("VERIF_TARGET", os.path.join(root, "target")), "debug", "check")
have = [l.split()[0] for l in subprocess.check_output([exe, "--list"], text=True).splitlines()]
checks, na = [], []
for i in ids:
    if i in have:
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} --tier quick", "thorough_cmd": f"./run.sh {i} --tier thorough",
                       "technique": "property-based testing: " + tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh build",
     "hooks": {"guard": "none: no hooks were needed, every check uses the public API", "enable": "nothing to enable; the harness crate has a path dependency on /repo", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One binary (harness/, crate wsverif) holds all checks; run.sh rebuilds it from /repo's working tree and runs one property. VERIF_SEED selects the seed, --tier (or VERIF_TIER) the depth; ./run.sh ID --replay FILE reruns a saved case."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
