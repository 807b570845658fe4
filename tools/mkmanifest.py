"""Regenerate MANIFEST.json from properties.jsonl and the checks that exist."""
import ast
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    path = os.path.join(ROOT, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    tree = ast.parse(open(path).read())
    vals = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) \
                and node.targets[0].id in ('BOUNDS', 'ASSUMPTIONS', 'TECHNIQUE'):
            vals[node.targets[0].id] = ast.literal_eval(node.value)
    tech = vals.get('TECHNIQUE', 'bounded exhaustive model checking of the real code against an '
                                 'executable reference model')
    note = ('Every case inside these bounds is executed on the code of /repo and compared with '
            'the reference model: %s. Trusts: %s.' %
            (vals['BOUNDS']['quick'], '; '.join(vals['ASSUMPTIONS'])))
    checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
                       thorough_cmd='./check.sh %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=tech, level='model_checking', level_note=note))
man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
           notes='No hooks in /repo are needed: all checks drive the public Python API of the '
                 'working tree through PYTHONPATH=/repo. See DESIGN.md.')
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not built')
