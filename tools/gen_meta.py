#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
built = {l.split()[0] for l in open(os.path.join(root, 'mc/families.txt')) if l.strip() and not l.startswith('#')}
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        a = {"files": p['files'], "mechanism": [{"name": n, "where": w} for n, w in p['mech']], "observe_at": p['observe'], "hook_needed": None}
        if p['state']:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p['state']]
        f.write(json.dumps({"id": p['id'], "title": p['title'], "statement": p['statement'],
            "quantifier": {"over": p['over'], "text": p['qtext']}, "why_tests_cant": p['why'], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    if p['na']:
        na.append({"property": p['id'], "reason": p['na']})
    elif p['id'] in built:
        checks.append({"property": p['id'], "quick_cmd": "bash run.sh %s quick" % p['id'], "thorough_cmd": "bash run.sh %s thorough" % p['id'],
            "technique": p['technique'], "level": p['level'], "level_note": p['note']})
    else:
        na.append({"property": p['id'], "reason": "not claimed yet: the check is not finished"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the exported API and the built binaries. See DESIGN.md."}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
