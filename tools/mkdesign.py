"""Write DESIGN.md (development tool)."""
import ast
import glob
import json
import os
import textwrap
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from notes import NOTES  # noqa
COST = json.load(open(os.path.join(ROOT, 'tools', 'cost.json')))
find = json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
seeds = {}
for meta in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    d = json.load(open(meta))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(meta)), d))


def wrap(text, first='', rest='  '):
    return textwrap.fill(text, 100, initial_indent=first, subsequent_indent=rest,
                         break_long_words=False, break_on_hyphens=False)


out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read().rstrip(), '']
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    tree = ast.parse(open(os.path.join(ROOT, 'checks', i.lower() + '.py')).read())
    vals = {n.targets[0].id: ast.literal_eval(n.value) for n in tree.body
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
            and n.targets[0].id in ('BOUNDS', 'ASSUMPTIONS')}
    what, oracle, why = NOTES[i]
    out += ['### %s - %s' % (i, p['title']), '']
    out.append(wrap('**Enumerated**: %s.' % what, '* '))
    out.append(wrap('**Oracle**: %s.' % oracle, '* '))
    out.append(wrap('**Beyond the tests**: %s.' % why, '* '))
    out.append(wrap('**Bounds (quick)**: %s.' % vals['BOUNDS']['quick'], '* '))
    out.append(wrap('**Thorough**: %s.' % vals['BOUNDS']['thorough'], '* '))
    out.append(wrap('**Trusts**: %s.' % '; '.join(vals['ASSUMPTIONS']), '* '))
    if i in COST:
        out.append(wrap('**Cost** (8 cores): %s.' % COST[i], '* '))
    mine = [f for f in find if f['property'] == i]
    if mine:
        out.append('* **Defects found**:')
        for f in mine:
            text = f['what']
            if f['status'] == 'fixed':
                text = 'repaired in %s: %s' % (f['commit'], text.split(f['commit'], 1)[1].strip())
            else:
                text = 'KNOWN FINDING (not repaired): ' + text
            out.append(wrap(text, '  - ', '    '))
    if i in seeds:
        out.append('* **Planted changes** (all caught by the quick check of this property):')
        for name, d in seeds[i]:
            out.append(wrap('`%s`: %s (needs: %s)' % (name, d['what_it_breaks'], d['needs']),
                            '  - ', '    '))
    out.append('')
out.append(open(os.path.join(ROOT, 'tools', 'design_tail.md')).read().rstrip())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
