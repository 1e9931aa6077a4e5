import os
import math
import numpy as np
import sympy as sp
from fw import obligation, Skip
from lib import *

_n = [0]


def simulate(t, c, d, cfg, nt, u, p, x0, via_method=True):
    Method, Simulation = t.imp('pyphs', 'Method', 'Simulation')
    _n[0] += 1
    path = os.path.join(os.getcwd(), 's%d' % _n[0])
    mc = {k: v for k, v in cfg.items() if k in ('split', 'theta', 'grad')}
    m = Method(c, config=mc)
    s = Simulation(m, config=dict(cfg, path=path, lang='python', pbar=False), inits={'x': list(x0)} if len(x0) else None)
    s.init(nt=nt, u=u, p=p)
    s.process()
    return m, s


def setup(t, k, grads=('discret',), **kw):
    sh = t.rng.choice([(1, 0, 1), (1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 0, 2), (3, 1, 1), (2, 1, 0)])
    npar = t.rng.choice([0, 0, 1])
    c, d = rand_core(t.rng, *sh, state_dep=t.rng.random() < .5, npar=npar, obs=t.rng.random() < .5,
                     res=t.rng.random() < .5, **kw)
    cfg = dict(split=t.rng.random() < .5, theta=t.rng.choice([0., .5, 1.]), grad=t.rng.choice(grads),
               fs=t.rng.choice([200., 2000.]), maxit=60, eps=1e-13)
    nt = t.rng.choice([1, 2, 6])
    u = np.array([[t.rng.uniform(-1, 1) for _ in d['u']] for _ in range(nt)]).reshape(nt, len(d['u']))
    p = np.array([[t.rng.uniform(.2, 1) for _ in d['p']] for _ in range(nt)]).reshape(nt, len(d['p']))
    x0 = [t.rng.uniform(.3, .9) for _ in d['x']]
    t.case(shape=sh, npar=npar, H=d['H'], z=d['z'], M=d['M'].tolist(), nt=nt, u=u.tolist(), x0=x0, **cfg)
    return c, d, cfg, nt, u, p, x0


def arr(a):
    return np.asarray(a, dtype=float)


def near(t, a, b, what, tol=1e-7, **w):
    a, b = arr(a), arr(b)
    ok = a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b))))
    t.check(ok, what, got=a.tolist(), expected=b.tolist(), **w)


def records(D):
    return {n: arr(D[n, :]) for n in ('x', 'dx', 'dxH', 'w', 'z', 'u', 'y', 'p')}


def regular(R):
    return all(np.all(np.isfinite(v)) and np.all(np.abs(v) < 1e3) for v in R.values())


def order(sym, m_syms):
    """positions of the symbols in the simulated method's own ordering"""
    return [list(m_syms).index(s) for s in sym]


@obligation('C11', 'power_balance', 'random models (<=3 states, state-dependent structures, resistive part, parameters, nonlinear '
            'coupled energies, both splittings, theta 0/.5/1), simulated <=6 steps: recorded energy variation + dissipated + source '
            'power against zero, at every step', ['Simulation.process', 'Simulation._process_py', 'H5Data.dtE', 'H5Data.pd',
                                                  'H5Data.ps'], limit=280)
def balance(t):
    done = 0
    for k in range(t.pick(14, 80)):
        c, d, cfg, nt, u, p, x0 = setup(t, k)
        m, s = simulate(t, c, d, cfg, nt, u, p, x0)
        R = records(s.data)
        if not regular(R):
            continue
        scale = 1 + max([0.] + [float(np.max(np.abs(v))) for v in R.values() if v.size])
        fs = cfg['fs']
        # converged step?
        if hasattr(s.nums, 'it') and s.nums.it >= cfg['maxit']:
            continue
        done += 1
        pd, ps = arr(s.data.pd()), arr(s.data.ps())
        for name in ('DxhDtx', 'deltaH'):
            e = arr(s.data.dtE(DtE=name))
            t.check(e.shape == (nt,) == pd.shape == ps.shape, 'one value per time step', shapes=[e.shape, pd.shape, ps.shape])
            tol = 1e-7 * scale**2 * max(1, fs * 1e-3) * 10
            t.check(bool(np.all(np.abs(e + pd + ps) < tol)), 'power balance closes (%s)' % name, dtE=e.tolist(), pd=pd.tolist(),
                    ps=ps.tolist())
    if done < 5:
        raise Skip('too few converged simulations')


@obligation('C11', 'records', 'random models, all gradients: state chain, recorded gradient/law/outputs against the structure, energy '
            'and power terms recomputed from the recorded variables by an independent evaluator',
            ['Simulation._process_py', 'H5Data.E', 'H5Data.dtE', 'H5Data.dtx', 'H5Data.pd', 'H5Data.ps', 'H5Data.o', 'Core.pd'],
            limit=280)
def recs(t):
    done = 0
    for k in range(t.pick(14, 80)):
        c, d, cfg, nt, u, p, x0 = setup(t, k, grads=('discret', 'theta', 'trapez'))
        zdef, Hdef, Mdef = dict(zip(d['w'], d['z'])), d['H'], d['M']
        lab = list(d['x']) + list(d['w']) + list(d['y'])
        m, s = simulate(t, c, d, cfg, nt, u, p, x0)
        R = records(s.data)
        if not regular(R):
            continue
        if hasattr(s.nums, 'it') and s.nums.it >= cfg['maxit']:
            continue
        done += 1
        D, fs = s.data, cfg['fs']
        near(t, R['u'], u, 'the inputs of the simulation are recorded', 0)
        near(t, R['p'], p, 'the parameters of the simulation are recorded', 0)
        mx, mw = list(m.x), list(m.w)
        if d['x']:
            near(t, R['x'][0], x0, 'the first recorded state is the initial one plus no increment', 1e-12)
            near(t, R['x'][1:], R['x'][:-1] + R['dx'][:-1], 'recorded state plus increment is the next state', 1e-12)
            near(t, arr(D.dtx()), R['dx'] * fs, 'dtx is the sample rate times the increment', 1e-12)
        near(t, arr(D.a()), np.concatenate([R['dxH'], R['z'], R['u']], axis=1), 'efforts of the record', 0)
        near(t, arr(D.b()), np.concatenate([R['dx'] * fs, R['w'], R['y']], axis=1), 'flows of the record', 1e-12)
        E, pd, ps, e1 = arr(D.E()), arr(D.pd()), arr(D.ps()), arr(D.dtE(DtE='DxhDtx'))
        e2 = arr(D.dtE(DtE='deltaH'))
        obs = arr(D.o()) if len(list(c.observers)) else None
        th = cfg['theta']
        for i in range(nt):
            env = {}
            xa = dict(zip(mx, R['x'][i]))
            dxa = dict(zip(mx, R['dx'][i]))
            wa = dict(zip(mw, R['w'][i]))
            env.update(xa)
            env.update(wa)
            env.update(dict(zip(d['p'], p[i])))
            env.update(dict(zip(d['u'], u[i])))
            t.close(E[i], fev(Hdef, env), 'recorded energy is the energy of the recorded state', step=i)
            t.close(ps[i], float(np.dot(R['u'][i], R['y'][i])), 'source power is input times output', step=i)
            t.close(e1[i], float(np.dot(R['dxH'][i], R['dx'][i])) * fs, 'energy variation is gradient times state variation', step=i)
            if i + 1 < nt:
                env2 = dict(env)
                env2.update(dict(zip(mx, R['x'][i + 1])))
                t.close(e2[i], (fev(Hdef, env2) - fev(Hdef, env)) * fs, 'energy variation deltaH', tol=1e-6, step=i)
            # structure evaluated at the theta point, with the recorded gradient/law/input
            def at(f):
                vs = []
                for q_ in ([0., 1.] if cfg['grad'] == 'trapez' else [th]):
                    envt = dict(env)
                    envt.update({q: xa[q] + q_ * dxa[q] for q in mx})
                    vs.append(f(envt))
                return vs
            Ms = at(lambda e_: fmat(Mdef, e_))
            Mn = [[sum(q[i_][j_] for q in Ms) / len(Ms) for j_ in range(len(lab))] for i_ in range(len(lab))]
            zs = at(lambda e_: {q: fev(zdef[q], e_) for q in mw})
            zc = {q: sum(v[q] for v in zs) / len(zs) for q in mw}
            near(t, R['z'][i], [zc[q] for q in mw], 'recorded law is the law of the recorded variables', 1e-7, step=i)
            gr = dict(zip(mx, R['dxH'][i]))
            b = [gr[q] for q in d['x']] + [zc[q] for q in d['w']] + list(u[i])
            a = [sum(x * y for x, y in zip(r, b)) for r in Mn]
            got = [dxa[q] * fs for q in d['x']] + [wa[q] for q in d['w']] + list(R['y'][i])
            near(t, got, a, 'recorded flows, dissipation variables and outputs obey the structure', 1e-6, step=i, labels=lab)
            Rq = sum(-b[q] * Mn[q][r] * b[r] for q in range(len(b)) for r in range(len(b)))
            t.close(pd[i], sum(wa[q] * zc[q] for q in mw) + Rq, 'dissipated power', tol=1e-6, step=i)
    if done < 5:
        raise Skip('too few converged simulations')


@obligation('C11', 'windows_of_powers', 'one simulation x all windows (start, stop, step): the power terms of a window are the selected '
            'samples of the full record', ['H5Data.E', 'H5Data.dtE', 'H5Data.pd', 'H5Data.ps', 'H5Data.dtx'], limit=200)
def windows(t):
    c, d = rand_core(t.rng, 2, 2, 1, npar=1, obs=True)
    nt = 7
    u = np.array([[t.rng.uniform(-1, 1)] for _ in range(nt)])
    p = np.array([[t.rng.uniform(.2, 1)] for _ in range(nt)])
    m, s = simulate(t, c, d, dict(split=True, theta=.5, grad='discret', fs=500., maxit=60, eps=1e-12), nt, u, p, [.3, .5])
    D = s.data
    full = {n: arr(getattr(D, n)()) for n in ('E', 'pd', 'ps', 'dtE', 'dtx')}
    wins = [(a, b, k) for a in range(nt) for b in range(a + 1, nt + 1) for k in (1, 2, 3)]
    t.rng.shuffle(wins)
    for a, b, k in wins[:t.pick(20, 84)]:
        t.case(window=(a, b, k))
        for n in full:
            got = arr(getattr(D, n)(tslice=slice(a, b, k)))
            near(t, got, full[n][a:b:k], 'window of ' + n, 1e-12, name=n)
        got = arr(D.dtE(tslice=slice(a, b, k), DtE='deltaH'))
        sel = full['E'][a:b:k]
        near(t, got[:-1], np.diff(sel) * 500. / k, 'deltaH on a window: mean variation between the selected samples', 1e-9)
        near(t, got[-1:], full['dtE'][a:b:k][-1:], 'deltaH on a window: variation at the last selected sample', 1e-9)


@obligation('C11', 'reconfigured', 'simulations re-initialised with another sample rate, gradient, parameter values or initial state: the '
            'next run uses the new ones (power balance and record checks)', ['Simulation.init', 'Simulation.init_method',
                                                                            'Simulation.init_parameters'], limit=200)
def reconf(t):
    Method, Simulation = t.imp('pyphs', 'Method', 'Simulation')
    for k in range(t.pick(4, 16)):
        c = new_core()
        x, w, u, y = S('x1'), S('w1'), S('u1'), S('y1')
        K, r = S('K'), S('r')
        c.add_storages([x], K * x**2 / 2 + x**4 / 4)
        c.add_dissipations([w], [r * w])
        c.add_ports([u], [y])
        c.M = sp.SparseMatrix([[0, -1, -1], [1, 0, 0], [1, 0, 0]])
        c.subs.update({K: 2., r: .5})
        m = Method(c, config={'split': bool(k % 2)})
        _n[0] += 1
        s = Simulation(m, config=dict(path=os.path.join(os.getcwd(), 's%d' % _n[0]), lang='python', pbar=False, fs=100.),
                       inits={'x': [.4]})
        s.init(nt=3, u=np.ones((3, 1)))
        s.process()
        for change in ({'config': {'fs': 1000.}}, {'subs': {K: 5.}}, {'inits': {'x': [.7]}}, {'subs': {r: 2.}},
                       {'config': {'theta': .5}}):
            t.case(split=bool(k % 2), change=change)
            s.init(nt=3, u=np.ones((3, 1)), **change)
            s.process()
            D = s.data
            fs = s.config['fs']
            for kk, v in change.get('config', {}).items():
                t.eq(s.config[kk], v, 'configuration is updated')
            R = records(D)
            Kv, rv = float(s.method.subs[K]), float(s.method.subs[r])
            for kk, v in change.get('subs', {}).items():
                t.close(s.method.subs[kk], v, 'parameter is updated')
            if 'inits' in change:
                near(t, R['x'][0], change['inits']['x'], 'new initial state')
            for i in range(3):
                X, dX = R['x'][i][0], R['dx'][i][0]
                H = lambda q: Kv * q**2 / 2 + q**4 / 4          # noqa
                g = (H(X + dX) - H(X)) / dX if abs(dX) > 1e-9 else Kv * X + X**3
                t.close(R['dxH'][i][0], g, 'gradient with the current parameters', tol=1e-4)
                t.close(R['w'][i][0], R['dxH'][i][0], 'dissipation variable', tol=1e-6)
                t.close(R['z'][i][0], rv * R['w'][i][0], 'law with the current parameters', tol=1e-6)
                t.close(dX * fs, -R['z'][i][0] - 1., 'increment with the current sample rate', tol=1e-6)
