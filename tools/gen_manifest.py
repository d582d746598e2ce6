#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('contract-based deductive verification: pyvc generates verification conditions from the real Python source in /repo '
        '(function contracts, loop contracts), discharged by z3/cvc5; path witnesses replayed on CPython')
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'level_notes.json')))
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'specs', 'p_%s.py' % p.lower())) and p in NOTES:
        checks.append(dict(property=p, quick_cmd='python3-vt check.py %s' % p, thorough_cmd='python3-vt check.py %s' % p,
                           evidence_file='evidence/%s.json' % p, technique=TECH,
                           level=NOTES[p].get('level', 'proof'), level_note=NOTES[p]['note']))
    else:
        na.append(dict(property=p, reason=NOTES.get(p, {}).get('na', 'no check registered yet (machinery for this property is not finished)')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sys; print(z3.get_version_string())"', checks=checks,
               not_applicable=na, notes='All checks: python3-vt /verif/check.py <id>; thorough = VERIF_TIER=thorough. No hooks in /repo are needed.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
