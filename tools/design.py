"""Regenerate DESIGN.md from tools/design_head.md, design_notes.py, the harness registry, evidence and tools/seed_results.json."""
import json
import os
import re
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from design_notes import NOTES
out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read()]
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    f = os.path.join(ROOT, 'evidence', p['id'] + '.json')
    if p['id'] not in NOTES or not os.path.exists(f):
        continue
    e = json.load(open(f))
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('%s\n' % NOTES[p['id']])
    for h in e['coverage']['harnesses']:
        out.append('* `%s`: %s' % (h['name'], h['bounds']))
    if e['assumptions']:
        out.append('\nAssumes: ' + '; '.join(e['assumptions']))
    out.append('')
out.append(open(os.path.join(ROOT, 'tools', 'design_tail.md')).read())
r = json.load(open(os.path.join(ROOT, 'tools', 'seed_results.json')))
out.append('| change | property | needs | quick check |\n|---|---|---|---|')
for i in sorted(r):
    if os.path.isdir(os.path.join(ROOT, 'seeded', i)):
        m = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], r[i]))
extra = os.path.join(ROOT, 'tools', 'design_mutants.md')
if os.path.exists(extra):
    out.append('\n' + open(extra).read())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
