"""Small syntactic changes to /repo/bitcoinx: which of them pass the stable tests?
usage: mutants.py OUT.jsonl [FILE...]     (works in scratch clones under /tmp; resumes OUT.jsonl)"""
import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
SRC = '/repo/bitcoinx'
SKIP = {'__init__.py', 'consts.py'}
SWAP = {ast.Lt: ['<=', ], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'],
        ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<', ast.Mod: '+', ast.BitXor: '|'}


def mutants(fname):
    text = open(os.path.join(SRC, fname)).read()
    lines = text.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = text.encode()
    tree = ast.parse(text)
    func = {}

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def put(a, b, new, what, node):
        q = node
        out.append(dict(file=fname, func=func.get(id(q), ''), line=node.lineno, a=a, b=b, new=new, what=what, old=raw[a:b].decode()))

    def walk(n, qual):
        func[id(n)] = qual
        for c in ast.iter_child_nodes(n):
            q = qual
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = qual + '.' + c.name if qual else c.name
            walk(c, q)
    walk(tree, '')
    infn = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for c in n.body:
                for x in ast.walk(c):
                    infn.add(id(x))
    for n in ast.walk(tree):
        if id(n) not in infn:
            continue
        q = func[id(n)]
        if any(s in q for s in ('__repr__', '__str__', '__hash__')) and False:
            continue
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                a, b = pos(left)[1], pos(right)[0]
                for s in SWAP.get(type(op), []):
                    put(a, b, ' %s ' % s, 'cmp', n)
                left = right
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            a, b = pos(n)
            put(a, b, str(n.value + 1), 'const', n)
            put(a, b, str(n.value - 1) if n.value else '(-1)', 'const', n)
        elif isinstance(n, ast.Constant) and n.value in (True, False) and type(n.value) is bool:
            a, b = pos(n)
            put(a, b, str(not n.value), 'bool', n)
        elif isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                a, b = pos(x)[1], pos(y)[0]
                mid = raw[a:b].decode()
                w, r = (' and', ' or') if isinstance(n.op, ast.And) else (' or', ' and')
                k = mid.find(w.strip())
                if k >= 0:
                    put(a, b, mid[:k] + r.strip() + mid[k + len(w.strip()):], 'andor', n)
            for x in n.values:
                a, b = pos(x)
                put(a, b, 'True' if isinstance(n.op, ast.And) else 'False', 'drop', n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = pos(n)
            c, d = pos(n.operand)
            put(a, b, raw[c:d].decode(), 'not', n)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = pos(n.test)
            if not isinstance(n, ast.While):
                put(a, b, 'True', 'iftrue', n)
            if not (isinstance(n.test, ast.Constant)):
                put(a, b, 'False', 'iffalse', n)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                continue
            a, b = pos(n.left)[1], pos(n.right)[0]
            mid = raw[a:b].decode()
            for k in ('<<', '>>', '//', '+', '-', '*', '&', '|', '%', '^'):
                if k in mid:
                    put(a, b, mid.replace(k, BIN[type(n.op)], 1), 'bin', n)
                    break
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Assign, ast.Break, ast.Continue, ast.Assert)):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield)):
                continue
            a, b = pos(n)
            put(a, b, 'pass', 'del', n)
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            a, b = pos(n.value)
            put(a, b, 'None', 'retnone', n)
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None and not isinstance(x, ast.Constant):
                    a, b = pos(x)
                    put(a, b, '(%s) + 1' % raw[a:b].decode(), 'slice', n)
                    put(a, b, '(%s) - 1' % raw[a:b].decode(), 'slice', n)
        elif isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in ('reversed', 'sorted', 'abs', 'bytes', 'hash_to_value', 'double_sha256', 'cast'):
            a, b = pos(n)
            c, d = pos(n.args[0])
            put(a, b, raw[c:d].decode(), 'uncall', n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'any', 'all'):
            a, b = pos(n.func)
            put(a, b, {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[n.func.id], 'minmax', n)
    res = []
    seen = set()
    for m in out:
        new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
        if new in seen or new == raw:
            continue
        seen.add(new)
        try:
            compile(new, fname, 'exec')
        except SyntaxError:
            continue
        res.append(m)
    return res, raw


WANT = None
TESTS = {'address': 'test_address', 'misc': 'test_misc'}


def stable_set():
    base = json.load(open('/opt/vp/BASELINE.json'))
    k = [x for x in base if isinstance(base[x], list)][0] if isinstance(base, dict) else None
    return set(base[k] if k else base)


local = threading.local()
copies = []


def run(m, raw):
    if not hasattr(local, 'd'):
        local.d = tempfile.mkdtemp(prefix='mtt_', dir='/tmp')
        copies.append(local.d)
        subprocess.run(['git', 'clone', '-q', '/repo', local.d + '/r'], check=True)
    c = local.d + '/r'
    p = c + '/bitcoinx/' + m['file']
    open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH='/opt/vp/plugins', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', TZ='UTC', TMPDIR=local.d)
    try:
        t = 'tests/test_%s.py' % m['file'][:-3]
        base = 'ulimit -v 6000000; exec /opt/venv/bin/python -m pytest -q -x -p fixed_random -p pytest_timeout -p no:cacheprovider --timeout=60 --basetemp=%s/tmp ' % local.d
        r = None
        for args in ([t] if os.path.exists(c + '/' + t) else []) + ['tests']:
            try:
                r = subprocess.run(['bash', '-c', base + args], cwd=c, env=env, capture_output=True, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                return dict(m, survived=False, why='timeout')
            if r.returncode != 0:
                return dict(m, survived=False, why='tests')
        return dict(m, survived=True)
    finally:
        open(p, 'wb').write(raw)


def main():
    outf = sys.argv[1]
    files = sys.argv[2:] or sorted(f for f in os.listdir(SRC) if f.endswith('.py') and f not in SKIP)
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            d = json.loads(l)
            done.add((d['file'], d['a'], d['b'], d['new']))
    jobs = []
    for f in files:
        ms, raw = mutants(f)
        jobs += [(m, raw) for m in ms if (f, m['a'], m['b'], m['new']) not in done]
    print(len(jobs), 'mutants', flush=True)
    n = 0
    with open(outf, 'a') as o, cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '7'))) as ex:
        for f in cf.as_completed([ex.submit(run, *j) for j in jobs]):
            r = f.result()
            n += 1
            o.write(json.dumps(r) + '\n')
            o.flush()
            if n % 100 == 0:
                print(n, flush=True)
    for d in copies:
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
