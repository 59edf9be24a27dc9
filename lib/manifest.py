"""Rewrites /verif/MANIFEST.json from the checks that exist."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import props  # noqa: E402

ids = [json.loads(x)["id"] for x in open(f"{HERE}/properties.jsonl")]
NOTE = {k: v for k, v in json.load(open(f"{HERE}/lib/notes.json")).items()}
checks = []
for i in ids:
    if i in props.CHECKS:
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                       "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in props.CHECKS],
     "notes": "TLA+ specification in spec/, checked with TLC; recorded sessions of the real library are accepted or "
              "rejected by TLC, and cases written out by TLC are replayed on the real code. No hooks in /repo."}
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
