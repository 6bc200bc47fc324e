#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CLAIMS:
        tech, level, note = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd='python3-vt mimv/check.py %s --tier quick' % p,
                           thorough_cmd='python3-vt mimv/check.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=tech, level=level, level_note=note))
na = [dict(property=p, reason=NA.get(p, 'no check built yet')) for p in props if p not in CLAIMS]
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Deductive verification of the C++ sources of /repo (re-parsed on every run); no hooks are needed in /repo. '
               'See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
