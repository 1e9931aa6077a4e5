#!/usr/bin/env python3-vt
"""pyvc/run.py PROP --tier T --out FILE [--only NAME]: discharge all contracts of a property."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('VERIF_REPO', '/repo')

from pyvc import core, load, spec      # noqa: E402


def work(name):
    t0 = time.time()
    reg = spec.REG[name]
    try:
        L = load.Loader(REPO)
        L.prefetch = True
        # load modules outside of a path (module-level code is concrete)
        rep = core.verify(name, lambda c: reg['fn'](L), budget_s=reg['budget'])
        st = rep.status()
        notes = []
        if st == 'proved' and not set(rep.covers.values()) & {'reached', 'not refuted'}:
            st = 'unknown'
            notes.append('vacuous: end of the harness not shown reachable')
        det = None
        if st == 'refuted':
            det = {k: o['detail'] for k, o in rep.obl.items() if o['status'] == 'refuted'}
        elif st != 'proved':
            det = {'unsupported': rep.unsupported[:5], 'unknown': [k for k, o in rep.obl.items() if o['status'] == 'unknown'],
                   'why': [o['detail'] for o in rep.obl.values() if o['status'] == 'unknown'][:2], 'notes': notes}
            st = 'unsupported' if rep.unsupported else 'unknown'
        back = sorted({o['backend'] for o in rep.obl.values()})
        return dict(name=name, status=st, funcs=reg['funcs'], note=reg['note'],
                    obligations=sum(o['n'] for o in rep.obl.values()),
                    discharged=sum(o['n'] for o in rep.obl.values() if o['status'] == 'proved'),
                    obl={k: o['status'] for k, o in rep.obl.items()}, backend='+'.join(back) or 'none', paths=rep.paths,
                    solver_s=round(rep.solver_s, 2), queries=rep.queries, wall_s=round(time.time() - t0, 2), detail=det,
                    assumptions=rep.assumptions, loaded_failed=L.failed)
    except Exception as e:       # noqa
        return dict(name=name, status='unsupported', funcs=reg['funcs'], note=reg['note'], obligations=0, discharged=0,
                    backend='none', paths=0, solver_s=0, wall_s=round(time.time() - t0, 2),
                    detail={'crash': repr(e)[:300], 'trace': traceback.format_exc()[-1500:]}, assumptions=[])


def child(name, conn):
    conn.send(work(name))
    conn.close()


def pool(names, j, t_end):
    """one process per contract; a process that dies without an answer (solver crash) is started again"""
    from multiprocessing.connection import wait
    mpc = mp.get_context('fork')
    todo = sorted(names, key=lambda n: -spec.REG[n]['budget'])      # longest first
    tries = {n: 0 for n in names}
    run, done = {}, {}
    while todo or run:
        while todo and len(run) < j:
            n = todo.pop(0)
            tries[n] += 1
            r, w = mpc.Pipe(False)
            p = mpc.Process(target=child, args=(n, w), daemon=True)
            p.start()
            w.close()
            run[r] = (n, p)
        left = t_end - time.time()
        ready = wait(list(run), timeout=max(0.01, left))
        for r in ready:
            n, p = run.pop(r)
            try:
                done[n] = r.recv()
            except EOFError:
                p.join(5)
                if tries[n] < 3:
                    todo.insert(0, n)
                else:
                    done[n] = undecided(n, 'the process of the verifier ended with status %s' % p.exitcode)
            r.close()
            p.join(5)
        if not ready and left <= 0:
            for n, p in run.values():
                p.kill()
                done[n] = undecided(n, 'time limit of the run')
            for n in todo:
                done[n] = undecided(n, 'time limit of the run')
            break
    return [done[n] for n in names]


def undecided(n, why):
    reg = spec.REG[n]
    return dict(name=n, status='unsupported', funcs=reg['funcs'], note=reg['note'], obligations=0, discharged=0, backend='none',
                paths=0, solver_s=0, wall_s=0, detail={'unsupported': [why]}, assumptions=[])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--only', nargs='*')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--limit', type=float)
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    mod = 'pyvc.contracts.' + a.prop.lower()
    if not os.path.exists(os.path.join(HERE, 'contracts', a.prop.lower() + '.py')):
        res = dict(results=[], trusted=[], assumptions=[])
    else:
        m = importlib.import_module(mod)
        names = [n for n in spec.REG if n.startswith(a.prop + '.') and (a.tier == 'thorough' or spec.REG[n]['tier'] == 'quick')]
        if a.only:
            names = [n for n in names if any(n == o or n.split('.', 1)[1] == o for o in a.only)]
        if len(names) > 1 and a.j > 1:
            t_end = time.time() + (a.limit or (330 if a.tier == 'quick' else 2700))
            results = pool(names, a.j, t_end)
        else:
            results = [work(n) for n in names]
        res = dict(results=results, trusted=TRUSTED, assumptions=ASSUMPTIONS + getattr(m, 'ASSUMPTIONS', []))
    if a.out:
        with open(a.out, 'w') as h:
            json.dump(res, h, indent=1, default=str)
    if a.v or not a.out:
        for r in res['results']:
            print('%-28s %-11s obl %d/%d paths %d %s %.1fs (solver %.1f)' % (
                r['name'], r['status'], r['discharged'], r['obligations'], r['paths'], r['backend'], r['wall_s'], r['solver_s']))
            if r['status'] != 'proved':
                print('    ', json.dumps(r['detail'], default=str)[:1800])


TRUSTED = [
    'pyvc: the symbolic executor in /verif/pyvc (path exploration, AST rewriting of displays/comprehensions/for loops, loop rule)',
    'CPython 3.12 executing the rewritten source; z3 and cvc5',
]
ASSUMPTIONS = [
    'machine integers and floats are treated as mathematical integers and reals',
    'assumed contracts on sympy (pyvc/stubs.py, pyvc/domain.py): Matrix construction, slicing, assignment, +, -, *, transpose, '
    'zeros/eye/diag/hstack/vstack act entrywise as documented; an Expr denotes a real function of the valuation of its symbols; '
    'subs is simultaneous substitution; diff is a function of (expression, symbol)',
    'symbols of one list are pairwise distinct',
]

if __name__ == '__main__':
    main()
