#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties with a check."""
import json, sys
done = sys.argv[1].split(',')
notes = json.load(open('/verif/tools/levels.json'))
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for p in props:
    if p in done:
        m["checks"].append({
            "property": p,
            "quick_cmd": "./check.sh %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p,
            "technique": "deterministic simulation with fault injection: " + notes[p][0],
            "level": "exploration",
            "level_note": notes[p][1],
        })
    else:
        m["not_applicable"].append({"property": p, "reason": notes.get(p, ["", "No check built yet."])[1]})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
