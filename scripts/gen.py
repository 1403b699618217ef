#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from scripts/props.py."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'scripts'))
from props import PROPS, NA
TECH = "deductive verification of contracts on the real Go code (govc: SSA -> weakest-precondition obligations -> z3/cvc5)"
with open(root + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(q) + '\n')
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": [], "not_applicable": [{"property": p['id'], "reason": p['reason']} for p in NA],
     "notes": "Contracts are in contracts/ (overlaid on /repo, nothing is copied or rewritten); the verifier is tool/. No hook is needed in /repo."}
for p in PROPS:
    m['checks'].append({"property": p['id'], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                        "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": "proof", "level_note": p['note']})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
