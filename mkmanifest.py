#!/usr/bin/env python3
"""Writes MANIFEST.json from levels.json (level and note of each property)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
L = json.load(open(V + '/levels.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the contracts live in /verif/contracts and are bound to the functions of /repo by name on every run", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in L['checks']:
        c = L['checks'][p]
        m['checks'].append({"property": p, "quick_cmd": "bash check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p,
            "technique": "contract-based deductive verification: Go functions translated to WhyML on every run, obligations discharged by Z3 and CVC5; concrete search for replayable counterexamples",
            "level": c[0], "level_note": c[1]})
    else:
        m['not_applicable'].append({"property": p, "reason": L['not_applicable'][p]})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')
