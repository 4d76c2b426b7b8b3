"""writes MANIFEST.json; a property is claimed when a check for it exists"""
import json, os
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {}
NOTES = {}
exec(open("/verif/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES and i not in NA:
        level, note, tech = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3-vt /verif/check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3-vt /verif/check.py {i} --thorough",
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
