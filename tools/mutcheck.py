"""Run the relevant quick checks against each surviving mutant until one reports a violation.
usage: mutcheck.py SURVIVORS.jsonl OUT.jsonl [--max N]"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
local = threading.local()
copies = []


def encoded():
    r = {}
    for f in glob.glob(os.path.join(ROOT, 'evidence', '*.json')):
        e = json.load(open(f))
        r[e['property']] = set(e['coverage']['functions_encoded'])
    return r


ENC = encoded()
WALL = {}
for f in glob.glob(os.path.join(ROOT, 'evidence', '*.json')):
    e = json.load(open(f))
    WALL[e['property']] = e.get('wall_s', 10)


def relevant(m, cap):
    q = 'bitcoinx.' + m['file'][:-3] + '.' + m['func']
    out = []
    for p, fs in ENC.items():
        if any(q == x or q.startswith(x + '.') for x in fs):
            out.append((len(fs), p))
    return [p for _, p in sorted(out)][:cap]


def run(m, cap):
    if not hasattr(local, 'd'):
        local.d = tempfile.mkdtemp(prefix='mtc_', dir='/tmp')
        copies.append(local.d)
        subprocess.run(['git', 'clone', '-q', '/repo', local.d + '/r'], check=True)
    c = local.d + '/r'
    p = c + '/bitcoinx/' + m['file']
    raw = open(p, 'rb').read()
    open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', SX_REPO=c, SX_WORK=local.d + '/w', SX_JOBS=os.environ.get('MJ', '3'), SX_EVIDENCE=local.d + '/e')
    tried = []
    caught = None
    try:
        for pid in relevant(m, cap):
            t = time.time()
            try:
                r = subprocess.run(['python3-vt', '-m', 'engine.check', pid, '--tier', 'quick'], cwd=ROOT, env=env, capture_output=True, text=True, timeout=400)
                rc = r.returncode
                if rc == 1 and 'VIOLATION property=' + pid in r.stdout:
                    caught = pid
                tried.append((pid, rc, round(time.time() - t, 1)) + ((r.stdout[-200:] + r.stderr[-200:],) if rc not in (0, 1) else ()))
            except subprocess.TimeoutExpired:
                tried.append((pid, 'timeout', 400))
            if caught:
                break
    finally:
        open(p, 'wb').write(raw)
    return dict(m, caught=caught, tried=tried)


def main():
    src, outf = sys.argv[1:3]
    cap = int(os.environ.get('CAP', '5'))
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            d = json.loads(l)
            done.add((d['file'], d['a'], d['b'], d['new']))
    todo = []
    for l in open(src):
        d = json.loads(l)
        if not d['survived'] or (d['file'], d['a'], d['b'], d['new']) in done:
            continue
        if '__hash__' in d['func'] and d['what'] in ('const', 'bin') or '__repr__' in d['func'] or '__str__' in d['func']:
            continue
        if d['old'].startswith('assert '):
            continue
        todo.append(d)
    print(len(todo), flush=True)
    with open(outf, 'a') as o, cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        for f in cf.as_completed([ex.submit(run, m, cap) for m in todo]):
            r = f.result()
            o.write(json.dumps(r) + '\n')
            o.flush()
    for d in copies:
        shutil.rmtree(d)


main()
