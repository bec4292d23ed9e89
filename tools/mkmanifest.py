#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties below.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
CL = json.load(open(os.path.join(root, 'tools', 'claims.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CL:
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": CL[i][0], "level": "exploration", "level_note": CL[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
