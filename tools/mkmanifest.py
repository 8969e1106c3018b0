"""writes /verif/MANIFEST.json from properties.jsonl and levels.json"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
levels = json.load(open(os.path.join(V, 'levels.json')))
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    l = levels.get(p['id'], {})
    level = l.get('level', 'exploration')
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'], thorough_cmd='python3-vt check.py %s thorough' % p['id'], technique=l.get('technique', 'contracts evaluated at run time on the real code (bounded stand-in)'),
                       level=level, level_note=l.get('note', 'Bounded: the contracts of the property are evaluated on the real code for corner and random inputs; nothing is proved.')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, ast"', checks=checks, not_applicable=[], notes='See DESIGN.md. No hooks were added to /repo; /repo carries only fix: commits.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
