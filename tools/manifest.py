"""Regenerate MANIFEST.json: python3 tools/manifest.py.  A property is claimed when props/*.py registers a harness for it."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'X01': 'the AES block cipher and both CBC backends are third-party code (C extension and pyaes); bitcoinX only passes arguments '
           'through, so there is no bitcoinX code whose symbolic execution would decide AES equivalence (argument passing and '
           'padding are covered by E09)',
    'X02': 'unicodedata.normalize is a C function over the full Unicode tables; the property is about that C code, not about '
           'bitcoinX, and encoding it for the solver is out of reach',
}
PENDING = 'check not built yet'
claimed = set()
for f in os.listdir(os.path.join(ROOT, 'props')):
    if f.endswith('.py'):
        claimed |= set(re.findall(r"^@prop\('(\w+)'", open(os.path.join(ROOT, 'props', f)).read(), re.M))
skip = set(open(os.path.join(ROOT, 'tools', 'unclaimed.txt')).read().split()) if os.path.exists(os.path.join(ROOT, 'tools', 'unclaimed.txt')) else set()
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in claimed and i not in skip:
        checks.append(dict(
            property=i,
            quick_cmd='PYTHONHASHSEED=0 python3-vt -m engine.check %s --tier quick' % i,
            thorough_cmd='PYTHONHASHSEED=0 python3-vt -m engine.check %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the real Python source with Z3 (path-complete within bounds), counterexamples '
                      'replayed on the real code',
            level='model_checking',
            level_note='bounded: holds for all values within the bounds listed per harness in the evidence file'))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
m = dict(version=1,
         setup_cmd='python3-vt -c "import z3, attr"',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks instrument the source of /repo at import time (engine/instrument.py).')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', [x['property'] for x in na])
