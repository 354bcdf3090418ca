"""Writes /verif/MANIFEST.json from the list of properties and of the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkprops
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
na = [{"property": k, "reason": v} for k, v in mkprops.NA.items()]
na += [{"property": p["id"], "reason": "check under construction"} for p in mkprops.P
       if p["id"] not in mkprops.NA and p["id"] not in CHECKS]
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none (no hooks are needed in /repo)", "enable": "the simulated runtime is linked in place of libgomp; see dst/build.py", "source_commits": []},
     "checks": [{"property": k, "quick_cmd": f"bash tools/check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough bash tools/check.sh {k}",
                 "evidence_file": f"evidence/{k}.json", "technique": "deterministic simulation with fault injection: " + t,
                 "level": "exploration", "level_note": n} for k, (t, n) in CHECKS.items()],
     "not_applicable": na,
     "notes": "Replays: bash tools/check.sh <id> --replay <file>."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
