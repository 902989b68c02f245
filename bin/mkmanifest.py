"""Regenerate MANIFEST.json from properties.jsonl, levels.json and notes.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
levels = json.load(open(H + "/levels.json"))
notes = json.load(open(H + "/notes.json"))
checks = []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)["id"]
    lv = levels[p]
    checks.append({"property": p, "quick_cmd": "bin/check {} quick".format(p), "thorough_cmd": "bin/check {} thorough".format(p),
                   "technique": notes[p]["technique"], "level": lv, "level_note": notes[p]["note"]})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import pandas'", "checks": checks,
           "not_applicable": [], "notes": notes["_"]}, open(H + "/MANIFEST.json", "w"), indent=1)
