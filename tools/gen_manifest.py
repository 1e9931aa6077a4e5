#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real source (pyvc symbolic execution + z3/cvc5), with run-time checked contracts as the labelled-bounded stand-in'
RT = 'run-time checked contracts on the real functions with a stated bound (bounded stand-in of the contract family; not counted as proved)'
LEVEL = {}
NOTE = {}
exec(open(os.path.join(HERE, 'tools', 'levels.py')).read())
checks = []
for f in sorted(os.listdir(os.path.join(HERE, 'bounded'))):
    if f.startswith('c') and f[1:3].isdigit():
        p = f[:3].upper()
        lv = LEVEL.get(p, 'exploration')
        checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p,
                           thorough_cmd='python3 check.py %s --tier thorough' % p,
                           technique=TECH if lv == 'proof' else RT, level=lv, level_note=NOTE.get(p, '')))
have = {c['property'] for c in checks}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = [dict(property=p, reason=NA.get(p, 'check under construction')) for p in props if p not in have]
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
