"""addfix.py <property> <commit> <what failed>  |  note <property> <text>"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1] == 'note':
    p = os.path.join(ROOT, 'tools', 'level_notes.json')
    d = json.load(open(p))
    d[sys.argv[2]] = {'note': sys.argv[3]}
else:
    p = os.path.join(ROOT, 'known_findings.json')
    d = json.load(open(p))
    line = 'fixed: property=%s %s %s' % tuple(sys.argv[1:4])
    if line not in d['fixed']:
        d['fixed'].append(line)
json.dump(d, open(p, 'w'), indent=1)
