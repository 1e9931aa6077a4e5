#!/usr/bin/env python3
"""check.py PROP --tier quick|thorough

1. deductive part  (pyvc, python3-vt): contracts on the real functions, obligations generated from /repo's current
   source and discharged by z3/cvc5;
2. run-time contract part (bounded/, PyPy): the same postconditions evaluated on the real code for enumerated and
   generated inputs; counterexample search / replay for refused obligations and the labelled-bounded stand-in for
   functions out of the verifier's reach.

exit 0: nothing violated;  exit 1: a line  VIOLATION property=<id> replay=<path>[ no-failing-input-found]
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
PYVT = 'python3-vt'


def env():
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONPATH=REPO, VERIF_REPO=REPO)
    return e


def run(cmd, out, limit):
    try:
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit,
                           stdin=subprocess.DEVNULL)
        err = p.stderr.decode(errors='replace')[-3000:]
        rc = p.returncode
    except subprocess.TimeoutExpired:
        err, rc = 'time limit %ss' % limit, -1
    try:
        with open(out) as h:
            return json.load(h), rc, err
    except Exception as e:      # noqa
        return None, rc, err + repr(e)


def findings(prop):
    known, fixed = [], []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                known.append(l[len('known: property=%s ' % prop):])
            elif l.startswith('fixed: property=%s ' % prop):
                fixed.append(l)
    return known, fixed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--part', default='both', choices=['both', 'deductive', 'bounded'])
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    work = os.path.join(HERE, 'replays', '.work_%s_%d' % (a.prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    lim = (420, 380) if a.tier == 'quick' else (3000, 3000)
    ded = bnd = None
    notes = []
    procs = []
    ded_out, bnd_out = os.path.join(work, 'd.json'), os.path.join(work, 'b.json')
    if a.part != 'bounded' and os.path.exists(os.path.join(HERE, 'pyvc', 'run.py')):
        ded, rc, err = run([PYVT, os.path.join(HERE, 'pyvc', 'run.py'), a.prop, '--tier', a.tier, '--out', ded_out],
                           ded_out, lim[0])
        if ded is None:
            notes.append('deductive part gave no result (rc %s): %s' % (rc, err[-400:]))
    if a.part != 'deductive':
        bnd, rc, err = run([PYPY, os.path.join(HERE, 'bounded', 'run.py'), a.prop, '--tier', a.tier, '--seed', str(seed),
                            '--out', bnd_out], bnd_out, lim[1])
        if bnd is None:
            notes.append('run-time contract part gave no result (rc %s): %s' % (rc, err[-1500:]))
            if 'pyphs' in err and 'Error' in err and ('import' in err or 'File "%s' % REPO in err):
                bnd = dict(results=[dict(name=a.prop + '.import', bound='-', funcs=[], status='violated', checks=1, cases=0,
                                         samples=[], known=[], wall_s=0,
                                         detail=dict(what='the package cannot be imported', witness={}, trace=err))])
    dres = (ded or {}).get('results', [])
    bres = (bnd or {}).get('results', [])
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    os.rmdir(work)

    known, fixed = findings(a.prop)
    viol = []
    known_hit = []
    for r in bres:
        for k in r.get('known', []):
            if k in known:
                known_hit.append(k)
        if r['status'] == 'violated':
            viol.append(dict(kind='run-time', name=r['name'], detail=r['detail'], bound=r['bound']))
    for r in dres:
        if r['status'] == 'refuted':
            viol.append(dict(kind='deductive', name=r['name'], detail=r['detail'], bound=None))
    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    rc = 0
    if viol:
        rc = 1
        conc = [v for v in viol if v['kind'] == 'run-time']
        path = os.path.join(HERE, 'replays', '%s.json' % a.prop)
        with open(path, 'w') as h:
            json.dump(dict(property=a.prop, violations=viol,
                           replay=['cd /tmp && VERIF_SEED=%d python3 %s %s --tier %s' % (seed, os.path.join(HERE, 'check.py'),
                                                                                        a.prop, a.tier)] +
                           ['PYTHONPATH=%s PYTHONHASHSEED=0 %s %s %s --tier %s --seed %d --only %s' % (
                               REPO, PYPY, os.path.join(HERE, 'bounded', 'run.py'), a.prop, a.tier, seed, v['name'])
                            for v in conc]), h, indent=1, default=str)
        for v in viol:
            d = v['detail']
            print('  %s obligation %s: %s' % (v['kind'], v['name'], json.dumps(d, default=str)[:700]))
        print('VIOLATION property=%s replay=%s%s' % (a.prop, path, '' if conc else ' no-failing-input-found'))

    proved = [r for r in dres if r['status'] == 'proved']
    nob = sum(r.get('obligations', 1) for r in dres)
    ndis = sum(r.get('discharged', 0) for r in dres)
    level = level_of(a.prop)
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd='%s %s/pyvc/run.py %s --tier %s' % (PYVT, HERE, a.prop, a.tier),
        trusted_base=(ded or {}).get('trusted', []),
        functions_under_contract=sorted({f for r in dres for f in r.get('funcs', [])}),
        contracts=[dict(name=r['name'], status=r['status'], funcs=r.get('funcs', []), obligations=r.get('obligations'),
                        discharged=r.get('discharged'), backend=r.get('backend'), solver_s=r.get('solver_s'),
                        paths=r.get('paths'), note=r.get('note'), assumptions=r.get('assumptions'),
                        detail=r.get('detail')) for r in dres],
        solver_s=round(sum(r.get('solver_s') or 0 for r in dres), 2),
        evaluations=sum(r['checks'] for r in bres),
        distinct_nontrivial=sum(r['cases'] for r in bres),
        rule='a case is one generated/enumerated input (system, method, netlist, history ...) handed to the real code; an evaluation '
             'is one postcondition evaluated on its result',
        samples=[s for r in bres for s in r['samples'][:2]][:8] or [{'none': 'no run-time part'}],
        bounded=[dict(name=r['name'], status=r['status'], bound=r['bound'], funcs=r['funcs'], checks=r['checks'], cases=r['cases'],
                      wall_s=r['wall_s'], detail=r['detail'] if r['status'] != 'held' else None) for r in bres],
        explanation='deductive obligations are proofs for all inputs; entries under "bounded" are run-time contract checks with the '
                    'stated bound and are never counted as proved',
        downgraded=[r['name'] for r in dres if r['status'] not in ('proved', 'refuted')] +
                   [r['name'] for r in bres if r['status'] == 'undecided'],
        notes=notes)
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=(ded or {}).get('assumptions', []) + [
                  'Python semantics of the interpreter and of sympy/numpy/h5py/networkx for the run-time part'],
              violations=len(viol))
    cov['violated'] = [dict(obligation=v['name'], detail=json.dumps(v['detail'], default=str)[:2000]) for v in viol]
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1, default=str)
    print('%s %s: contracts proved %d/%d (obligations %d/%d), run-time obligations held %d/%d, %d evaluations, %.0fs%s' % (
        a.prop, a.tier, len(proved), len(dres), ndis, nob, sum(r['status'] == 'held' for r in bres), len(bres),
        cov['evaluations'], time.time() - t0, (' notes: ' + '; '.join(notes)[:600]) if notes else ''))
    for r in dres + bres:
        if r['status'] not in ('proved', 'held', 'violated', 'refuted'):
            print('  undecided %s: %s' % (r['name'], str(r['detail'])[:300]))
    if rc == 0 and not notes and (dres or bres) and not any(r['status'] in ('proved', 'held') for r in dres + bres):
        sys.exit(2)
    if rc == 0 and not dres and not bres:
        sys.exit(2)
    sys.exit(rc)


def level_of(prop):
    try:
        with open(os.path.join(HERE, 'MANIFEST.json')) as h:
            for c in json.load(h)['checks']:
                if c['property'] == prop:
                    return c['level']
    except Exception:       # noqa
        pass
    return 'other'


main()
