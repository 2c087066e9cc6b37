#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a driver harness/cXX.py is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'TLA+ specification checked with TLC; '
TRACE = BASE + 'recorded behaviours of the real code validated against it'
BOTH = BASE + 'bounded-exhaustive TLC model replayed on the real code, and recorded behaviours validated against it'
NOTE = 'Bounded: every behaviour of the small exhaustive models, and the seeded random cases of this run, agree with the ' \
       'specification. Trusts TLC, the JSON bridge, and the specification modules named in DESIGN.md.'
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(line)
    pid = d['id']
    drv = os.path.join(V, 'harness', pid.lower() + '.py')
    if not os.path.exists(drv):
        na.append(dict(property=pid, reason='no check has been built yet'))
        continue
    both = 'model_phase' in open(drv).read()
    checks.append(dict(property=pid, quick_cmd='python3 run.py %s quick' % pid, thorough_cmd='python3 run.py %s thorough' % pid,
                       technique=BOTH if both else TRACE, level='model_checking', level_note=NOTE,
                       evidence_file='evidence/%s.json' % pid))
m = dict(version=1, setup_cmd='python3 scripts/setup.py', checks=checks, not_applicable=na,
         notes='No hooks are used: every observation goes through the public interface. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', [x['property'] for x in na])
