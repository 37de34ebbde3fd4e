#!/usr/bin/env python3
"""Writes DESIGN.md from design.md, design_tail.md, the catalog, the evidence
of the last quick runs and the results of tools/seeded.py (seeded.txt)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from catalog import PROPS
out = [open(os.path.join(here, 'design.md')).read(), '## Properties\n']
out.append('Bounds and counts are those of the quick tier (of one of 8 shards where they say "in this shard"); the thorough tier goes one step deeper or has more values.\n')
for p in sorted(PROPS, key=lambda p: p['id']):
    f = os.path.join(root, 'evidence', p['id'] + '.json')
    e = json.load(open(f)) if os.path.exists(f) else None
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('- *Over:* ' + p['quantifier'])
    out.append('- *Decided by:* ' + p['technique'][0].lower() + p['technique'][1:] + '.')
    if e:
        c = e['coverage']
        if c.get('rule'): out.append('- *Explored:* ' + c['rule'] + '.')
        out.append('- *Oracle:* the reference model in `harness/props` that goes with it; a panic or an exhausted step budget counts as a failure.')
        out.append('- *Bounds:* ' + '; '.join('%s: %s' % kv for kv in c['bounds'].items()) + '.')
        out.append('- *Size:* %d cases, %d states, %d transitions.' % (c['cases_enumerated'], c['states'], c['transitions']))
    out.append('- *Code:* ' + '; '.join('%s (`%s`)' % m for m in p['mechanism']) + '.')
    out.append('- *Why not tests:* ' + p['why'])
    n = p['note'].split('Every case within')[0].strip()
    if n: out.append('- *Note:* ' + n)
    out.append('')
kf = [l.rstrip('\n') for l in open(os.path.join(root, 'KNOWN_FINDINGS.txt'))]
sd = os.path.join(here, 'seeded.txt')
res = {}
if os.path.exists(sd):
    for l in open(sd):
        a = l.split(None, 2); res[a[0]] = a[2].strip()
rows = ['| change | property | needs | breaks | result |', '|---|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(root, 'seeded'))) if os.path.isdir(os.path.join(root, 'seeded')) else []:
    m = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], res.get(i, '')))
mm = os.path.join(here, 'mutants.txt')
out.append(open(os.path.join(here, 'design_tail.md')).read() % {
    'fixes': sum(l.startswith('fixed:') for l in kf),
    'known': '\n'.join('- ' + l[len('finding: property='):].split(' ', 1)[0] + ': ' + l.split('" ', 1)[1] for l in kf if l.startswith('finding:')),
    'seeded': '\n'.join(rows),
    'mm': open(mm).read().strip() if os.path.exists(mm) else '',
})
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
