"""Write /verif/seeded/<id>/ from tools/seeds_src.py, confirming each in a scratch copy of /repo.
usage: seed.py [--check] [ID...]   (--check: also run the property's quick check against the copy)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seeds_src import SEEDS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# run with cwd at the repository root
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, timeout=400, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', **(env or {}))
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)


def stable(copy):
    base = json.load(open('/opt/vp/BASELINE.json'))
    k = [x for x in base if isinstance(base[x], list)][0] if isinstance(base, dict) else None
    want = set(base[k] if k else base)
    with tempfile.TemporaryDirectory() as d:
        sh([PY, '-m', 'pytest', '-q', '-p', 'fixed_random', '-p', 'pytest_timeout', '-p', 'no:cacheprovider', '--timeout=300', '--basetemp=' + d + '/tmp',
            '-o', 'junit_family=xunit2', '--junitxml=' + d + '/junit.xml', 'tests'], copy, env=dict(PYTHONPATH='/opt/vp/plugins', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', TZ='UTC'))
        sh(['/usr/bin/python3', '/opt/vp/results.py', d + '/o.json', 'junit:' + d + '/junit.xml'], copy)
        o = json.load(open(d + '/o.json'))
    return want - set(o.get('passed') or o.get('pass') or [])


def main():
    args = sys.argv[1:]
    check = '--check' in args
    only = [a for a in args if not a.startswith('-')]
    for s in SEEDS:
        if only and s['id'] not in only and s['property'] not in only:
            continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        copy = tempfile.mkdtemp(prefix='seed_')
        try:
            sh(['git', 'clone', '-q', '/repo', copy], '/tmp')
            dem = os.path.join(d, 'demo.py')
            open(dem, 'w').write(s['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            a = sh(['bash', os.path.join(d, 'demo.sh')], copy)
            for f, old, new in s['edits']:
                p = os.path.join(copy, 'bitcoinx', f)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = sh(['git', 'diff'], copy).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            b = sh(['bash', os.path.join(d, 'demo.sh')], copy)
            miss = stable(copy)
            ok = a.returncode == 0 and b.returncode != 0 and not miss
            msg = '' if ok else ' clean demo %d %s; patched demo %d; tests lost %d %s' % (a.returncode, a.stderr[-300:], b.returncode, len(miss), sorted(miss)[:2])
            st = ''
            if check and ok:
                r = sh(['python3-vt', '-m', 'engine.check', s['property'], '--tier', 'quick'], ROOT, 1000, dict(SX_REPO=copy))
                st = ' CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + s['property'] in r.stdout else ' MISSED rc=%d %s' % (r.returncode, r.stdout[-300:])
                rf = os.path.join(ROOT, 'tools', 'seed_results.json')
                res = json.load(open(rf)) if os.path.exists(rf) else {}
                res[s['id']] = st.split()[0].lower()
                json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
            print(s['id'], s['property'], 'ok' if ok else 'BAD', msg, st, flush=True)
            if not ok:
                shutil.rmtree(d)
        finally:
            shutil.rmtree(copy)


main()
