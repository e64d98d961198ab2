"""Decide one property: python3-vt -m engine.check PROP [--tier quick|thorough] (run in /verif)."""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ['TZ'] = 'XXX-05:45'      # a zone other than UTC, so that local time is told from UTC
time.tzset()
REPO = os.environ.get('SX_REPO', '/repo')
VENV = '/opt/venv/bin/python'
SCRATCH = os.environ.get('SX_WORK') or os.path.join(ROOT, 'work')


def setup(pid):
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    import importlib.util
    if importlib.util.find_spec('pyaes') is None:
        sys.path.append('/opt/venv/lib/python3.12/site-packages')
    from engine import instrument, stubs
    instrument.install({'bitcoinx': REPO, 'props': ROOT})
    stubs.install()
    from engine import reg
    import props
    for f in sorted(os.listdir(os.path.join(ROOT, 'props'))):
        if f.endswith('.py') and f != '__init__.py' and not f.startswith('_'):
            with open(os.path.join(ROOT, 'props', f)) as fh:
                if "'%s'" % pid in fh.read():
                    importlib.import_module('props.' + f[:-3])
    import bitcoinx
    assert bitcoinx.__file__.startswith(REPO), bitcoinx.__file__
    return reg.HARNESSES[pid]


HS = None
LIMIT = [float('inf')]      # when the replays should be over


def task(hi, case, prefixes, opts, budget, sample):
    from engine import explore
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    import logging
    logging.disable(logging.CRITICAL)
    return explore.run_task(HS[hi], case, prefixes, opts, budget, sample)


def replay_batch(pid, records, oracles, tag):
    if not records:
        return []
    os.makedirs(SCRATCH, exist_ok=True)
    a = os.path.join(SCRATCH, '%s_%s_in_%d.json' % (pid, tag, os.getpid()))
    b = os.path.join(SCRATCH, '%s_%s_out_%d.json' % (pid, tag, os.getpid()))
    with open(a, 'w') as f:
        json.dump(dict(property=pid, records=records, oracles=oracles), f)
    try:
        p = subprocess.run([VENV, os.path.join(ROOT, 'engine', 'replay.py'), '--batch', a, b], capture_output=True, text=True,
                           timeout=max(30, min(300, LIMIT[0] - time.time())), env=dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))
        why = p.stderr[-800:]
    except subprocess.TimeoutExpired:
        why = 'timeout'
    try:
        out = []
        if os.path.exists(b):
            with open(b) as f:
                for line in f:
                    if line.endswith('\n'):
                        out.append(json.loads(line))
        return out + [['error', 'replay process', why, []]] * (len(records) - len(out))
    finally:
        for x in (a, b):
            if os.path.exists(x):
                os.unlink(x)


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f):
                if e['property'] == pid and e.get('status') == 'known':
                    out.append(e)
    return out


def main():
    global HS
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SX_JOBS', '8')))
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.prop
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    HS = setup(pid)
    total = a.budget or (300 if a.tier == 'quick' else 3000)
    tasks = []
    for hi, h in enumerate(HS):
        if a.only and h.name != a.only:
            continue
        for c in h.cases + (h.thorough if a.tier == 'thorough' else []):
            tasks.append((hi, c))
    agg = dict(paths=0, decisions=0, queries=0, solver_s=0.0, checks=0, triv=0, feasible=0)
    statuses, unknowns, partial, unsup, reached, funcs = {}, {}, {}, {}, {}, set()
    viol, samples, probes = [], [], []
    deadline = t0 + total
    LIMIT[0] = t0 + total * 2 + 150
    left = {}
    ctx = mp.get_context('fork')
    with cf.ProcessPoolExecutor(max_workers=a.jobs, mp_context=ctx) as ex:
        futs = {}
        queue = [(hi, c, [[]]) for hi, c in tasks]
        queue.reverse()
        nsample = {}

        def submit():
            while queue and len(futs) < a.jobs * 2:
                hi, c, pre = queue.pop()
                opts = dict(HS[hi].opts)
                if a.tier == 'thorough':
                    opts.update(opts.pop('thorough_opts', {}))
                opts['deadline'] = deadline
                opts['path_limit'] = 200 if a.tier == 'quick' else 1500
                ns = nsample.get((hi, json.dumps(c, sort_keys=True, default=str)), 0)
                f = ex.submit(task, hi, c, pre, opts, 4.0, max(0, 3 - ns))
                futs[f] = (hi, c)
        submit()
        broken = first_violation = None
        while futs:
            done, _ = cf.wait(list(futs), return_when=cf.FIRST_COMPLETED)
            for f in done:
                hi, c = futs.pop(f)
                h = HS[hi]
                try:
                    r = f.result()
                except BaseException as e:
                    broken = '%s %s: %r' % (h.name, c, e)
                    unsup['task failed: ' + broken] = 1
                    if isinstance(e, cf.process.BrokenProcessPool):
                        futs.clear()
                        queue.clear()
                        break
                    continue
                for k in agg:
                    agg[k] += r[k]
                if a.v:
                    print('%-40s %-50s paths %d feas %d %.1fs q%d s%.1f %s viol %d' % (h.name, str(c)[:50], r['paths'], r['feasible'],
                          r['wall'], r['queries'], r['solver_s'], r['statuses'], len(r['violations'])), flush=True)
                for k, n in r['statuses'].items():
                    statuses[k] = statuses.get(k, 0) + n
                for u in r['unknowns']:
                    unknowns['%s: %s' % (h.name, u)] = unknowns.get('%s: %s' % (h.name, u), 0) + 1
                for u in r['partial']:
                    partial['%s: %s' % (h.name, u)] = partial.get('%s: %s' % (h.name, u), 0) + 1
                for u in r['unsupported']:
                    unsup['%s: %s' % (h.name, u)] = unsup.get('%s: %s' % (h.name, u), 0) + 1
                reached.setdefault(h.name, set()).update(r['reached'])
                funcs |= r['funcs']
                key = (hi, json.dumps(c, sort_keys=True, default=str))
                nsample[key] = nsample.get(key, 0) + len(r['samples'])
                for s in r['samples']:
                    s.update(harness=h.name, case=c, property=pid)
                    samples.append(s)
                for s in r['probes']:
                    s.update(harness=h.name, case=c, property=pid)
                    probes.append(s)
                for v in r['violations']:
                    for cd in v['cands']:
                        cd.update(harness=h.name, case=c, property=pid)
                    v.update(harness=h.name, case=c)
                    viol.append(v)
                if viol:
                    first_violation = first_violation or time.time()
                    deadline = min(deadline, first_violation + total * 0.4)
                if r['stack']:
                    if time.time() > deadline:
                        left[h.name] = left.get(h.name, 0) + len(r['stack'])
                    elif len([v for v in viol if v['harness'] == h.name]) < 12:
                        st = r['stack']
                        k = max(1, min(len(st), a.jobs - len(futs) - len(queue)))
                        for i in range(k):
                            if st[i::k]:
                                queue.append((hi, c, st[i::k]))
            if time.time() > deadline:
                for hi, c, st in queue:
                    left[HS[hi].name] = left.get(HS[hi].name, 0) + len(st)
                queue.clear()
            submit()
    t_sym = time.time() - t0

    # ------------------------------------------------------------ replay of counterexamples on the real code
    confirmed, rejected = [], []
    viol.sort(key=lambda v: v.get('decisions', 0))
    pool = []
    per = {}
    for v in viol:
        k = (v['harness'], v['label'])
        if per.get(k, 0) >= 6:
            continue
        per[k] = per.get(k, 0) + 1
        for cd in v['cands']:
            pool.append((v, cd))
    pool = pool[:120]
    recs = [cd for v, cd in pool]
    pure = replay_batch(pid, recs, False, 'pure')
    need = [i for i, r in enumerate(pure) if r[0] != 'violated' and recs[i]['oracles']]
    orc = replay_batch(pid, [recs[i] for i in need], True, 'orc')
    ores = dict(zip(need, orc))
    seen = set()
    for i, (v, cd) in enumerate(pool):
        if pure[i][0] == 'violated':
            confirmed.append((v, cd, pure[i], False))
            seen.add(id(v))
        elif i in ores and ores[i][0] == 'violated':
            confirmed.append((v, cd, ores[i], True))
            seen.add(id(v))
    for i, (v, cd) in enumerate(pool):
        if id(v) not in seen:
            seen.add(id(v))
            rejected.append((v, pure[i], ores.get(i)))
    # probes: concrete runs of undecided paths can only add violations
    pr = replay_batch(pid, probes[:200], False, 'probe')
    for rec, r in zip(probes, pr):
        if r[0] == 'violated':
            confirmed.append((dict(label=r[1], harness=rec['harness'], case=rec['case'], exc=None), rec, r, False))
    # translation validation
    step = max(1, len(samples) // 240)
    tv = samples[::step]
    no = [s for s in tv if not s['oracles']]
    wo = [s for s in tv if s['oracles']]
    tvr = list(zip(no, replay_batch(pid, no, False, 'tv'))) + list(zip(wo, replay_batch(pid, wo, True, 'tvo')))
    validated, mismatches = 0, []
    for s, r in tvr:
        if r[0] == 'held' and json.dumps(r[3]) == json.dumps(s['obs']):
            validated += 1
        elif r[0] == 'violated':
            confirmed.append((dict(label=r[1], harness=s['harness'], case=s['case'], exc=None), s, r, bool(s['oracles'])))
        else:
            mismatches.append((s, r))

    # ------------------------------------------------------------ verdict
    kf = known_findings(pid)
    new, known = [], {}
    for v, cd, r, use in confirmed:
        k = next((e for e in kf if finding_matches(e, cd, r)), None)
        if k is not None:
            known.setdefault(k['id'], k)
        else:
            new.append((v, cd, r, use))
    for e in kf:
        # a listed finding is reported when it is still there
        rec = e.get('record')
        if e['id'] not in known and rec:
            q = replay_batch(pid, [dict(rec, property=pid)], False, 'kf')
            if q and q[0][0] == 'violated':
                known[e['id']] = e
    for e in known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    code = 0
    if new:
        code = 1
        os.makedirs(os.path.join(SCRATCH, 'replay'), exist_ok=True)
        done_labels = set()
        for v, cd, r, use in new:
            if (v['harness'], r[1]) in done_labels:
                continue
            done_labels.add((v['harness'], r[1]))
            p = os.path.join(SCRATCH, 'replay', '%s_%d.json' % (pid, len(done_labels)))
            with open(p, 'w') as f:
                json.dump(dict(cd, use_oracles=use, detail=r[2], violated=r[1]), f, indent=1, default=str)
            print('violated: %s case=%s: %s %s' % (v['harness'], v['case'], r[1], r[2].strip()[-600:]))
            print('  inputs: %s' % json.dumps(cd['inputs'], default=str)[:600])
            print('VIOLATION property=%s replay=%s' % (pid, p))
            if len(done_labels) >= 5:
                break
    inconclusive = []
    for v, r, o in rejected:
        inconclusive.append('counterexample not reproduced: %s %s %s -> %s %s; %s' % (
            v['harness'], v['case'], v['label'], r[:2], o and o[:2], (v.get('exc') or '')[-400:]))
    for s, r in mismatches[:10]:
        inconclusive.append('translation mismatch: %s %s inputs=%s obs=%s real=%s' % (
            s['harness'], s['case'], json.dumps(s['inputs'])[:300], json.dumps(s['obs'])[:300], json.dumps(r)[:500]))
    for k, n in list(unknowns.items())[:20]:
        inconclusive.append('undecided (%d): %s' % (n, k))
    for k, n in list(unsup.items())[:20]:
        inconclusive.append('not encoded (%d): %s' % (n, k))
    for k, n in list(partial.items())[:20]:
        inconclusive.append('partial (%d): %s' % (n, k))
    for k, n in left.items():
        inconclusive.append('time budget: %s has %d unexplored prefixes' % (k, n))
    vac = []
    for h in HS:
        if a.only and h.name != a.only:
            continue
        want = h.opts.get('reach', ())
        for w in want:
            if w not in reached.get(h.name, ()):
                vac.append('%s never reached %r' % (h.name, w))
        if not any(x.startswith('check:') for x in reached.get(h.name, ())):
            vac.append('%s reached no check' % h.name)
    for x in vac:
        inconclusive.append('vacuous: ' + x)
    for x in inconclusive:
        print('INCONCLUSIVE: ' + x)
    decided = agg['checks'] - len(unknowns)
    if code == 0 and (agg['feasible'] == 0 or decided <= 0):
        print('ERROR: nothing was decided')
        code = 2
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=a.tier, seed=seed, level='model_checking',
        coverage=dict(
            states=agg['paths'], transitions=agg['decisions'], traces_validated_against_impl=validated,
            samples=[dict(harness=s['harness'], case=s['case'], inputs=s['inputs'], choices=s['choices']) for s in tv[:5]],
            explanation='states = symbolic paths executed (each covers all inputs satisfying its path condition), '
                        'transitions = branch decisions taken on symbolic conditions',
            feasible_paths=agg['feasible'], path_outcomes=statuses, assertions_decided=agg['checks'],
            assertions_closed_by_normalisation=agg['triv'], solver_queries=agg['queries'],
            solver_seconds=round(agg['solver_s'], 2), functions_encoded=sorted(f for f in funcs if f.startswith('bitcoinx')),
            harnesses=[dict(name=h.name, bounds=h.bounds, cases=len([t for t in tasks if t[0] == i]))
                       for i, h in enumerate(HS)],
            exhaustive_within_bounds=not inconclusive, undecided=inconclusive[:60],
            known_findings=[e['id'] for e in known.values()]),
        assumptions=sorted({x for h in HS for x in h.assumes + h.stubs}),
        wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: paths %d (feasible %d) decisions %d assertions %d (solver queries %d, %.1f s) validated %d/%d '
          'symbolic %.1f s wall %.1f s -> exit %d' % (
              pid, a.tier, agg['paths'], agg['feasible'], agg['decisions'], agg['checks'], agg['queries'], agg['solver_s'],
              validated, len(tvr), t_sym, wall, code))
    return code


def finding_matches(e, cd, r):
    m = e.get('match', {})
    if 'harness' in m and cd['harness'] != m['harness']:
        return False
    if 'label' in m and r[1] != m['label']:
        return False
    for k, v in m.get('case', {}).items():
        if cd['case'].get(k) != v:
            return False
    for k, v in m.get('inputs', {}).items():
        if cd['inputs'].get(k, [None, None])[1] != v:
            return False
    for k, v in m.get('choices', {}).items():
        if cd['choices'].get(k) != v:
            return False
    return True


if __name__ == '__main__':
    sys.exit(main())
