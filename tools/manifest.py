"""Writes /verif/MANIFEST.json for the checks that exist."""
import json, os
from properties import PROPS
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
LEVEL = json.load(open(os.path.join(here, "tools", "levels.json")))
checks, na = [], []
for p in PROPS:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(here, f)):
        checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                       "technique": T + LEVEL[i][0], "level": "model_checking", "level_note": LEVEL[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/, drivers in checks/ and lib/, the harness that runs the real code in harness/. No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
