import math
import sympy as sp
from fw import obligation
from lib import *
from interp import Interp, consts, geteval_


def spec(d, m, cfg):
    """the discretised system written from its definition: label -> residual expression, plus M, z by label"""
    x, dx = list(m.x), list(m.dx())
    g = dict(zip(x, m.dxH()))
    D = dict(zip(x, dx))
    lab = d['x'] + d['w'] + d['y']
    gsub = {gi: g[xi] for gi, xi in zip(d['g'], d['x'])} if d['g'] else {}

    def at(e, th):
        s = {xi: xi + th * D[xi] for xi in x} if th else {}
        s.update(gsub)
        return sp.sympify(e).subs(s, simultaneous=True)

    def ev_(e):
        if cfg['grad'] == 'trapez':
            return (at(e, 0) + at(e, 1)) / 2
        return at(e, cfg['theta'])
    M = {(a, b): ev_(d['M'][i, j]) for i, a in enumerate(lab) for j, b in enumerate(lab)}
    z = {w: ev_(e) for w, e in zip(d['w'], d['z'])}
    eff = {}
    eff.update(g)
    eff.update(z)
    eff.update(dict(zip(d['y'], d['u'])))
    row = {a: sum([M[(a, b)] * eff[b] for b in lab], sp.Integer(0)) for a in lab}
    return g, z, row, D


def resid(it, d, S_, fs):
    g, z, row, D = S_
    full = dict(it.env)
    full.update(it.const)
    out = {}
    for a in d['x']:
        out[a] = fs * full[D[a]] - fev(row[a], full)
    for a in d['w']:
        out[a] = full[a] - fev(row[a], full)
    return out


def special(t, i):
    """combinations that random draws seldom produce"""
    k = i % 4
    cfg = dict(split=t.rng.choice([True, False]), theta=t.rng.choice([0., .5, 1.]), grad='trapez')
    kw = dict(state_dep=True, couple=True, nlz=True, npar=0, gdep=True)
    if k == 0:
        c, d = rand_core(t.rng, 2, 1, 1, **kw)
    elif k == 1:
        # a law modulated by the state
        c, d = rand_core(t.rng, 1, 2, 1, **kw)
        c.z[0] = c.z[0] * (1 + d['x'][0]**2 + d['x'][0])
        d['z'][0] = d['z'][0] * (1 + d['x'][0]**2 + d['x'][0])
        if t.rng.random() < .5:
            cfg['grad'] = 'discret'
    elif k == 2:
        # a law modulated by the gradient, another by both
        c, d = rand_core(t.rng, 2, 2, 1, **kw)
        for i_ in range(2):
            f = 1 + d['g'][i_] / 3 + (d['x'][0]**2 if i_ else 0)
            c.z[i_] = c.z[i_] * f
            d['z'][i_] = d['z'][i_] * f
        cfg['grad'] = t.rng.choice(['trapez', 'discret', 'theta'])
    else:
        # linear states coupled with nonlinear ones through the affine part of the energy
        n = t.rng.choice([2, 3])
        c, d = rand_core(t.rng, n, 1, 1, kinds=['quad'] * n, couple=False)
        x = list(d['x'])
        t.rng.shuffle(x)
        H = x[0]**2 * 3 / 4 + x[1]**4 / 4 + x[0] * x[1] / 2 + x[1]**2 + (x[0] if t.rng.random() < .3 else 0)
        if n == 3:
            H += x[2]**4 / 8 + x[2]**2 / 2 + t.rng.choice([x[0] * x[2] / 3, x[1]**2 * x[2]**2 / 4, sp.Integer(0)])
        c.H, d['H'] = H, H
        cfg.update(grad='discret', split=True)
    return c, d, cfg


def gen(t, **kw):
    t.k_ = getattr(t, 'k_', -1) + 1
    if not kw and t.k_ % 3 == 2:
        return special(t, t.k_ // 3)
    nx, nw, ny = t.rng.randint(0, 3), t.rng.randint(0, 3), t.rng.randint(0, 2)
    if nx + nw == 0:
        nx = 1
    if t.rng.random() < .12:
        nx, nw, ny = 1, 0, 1
    sd = t.rng.random() < .4
    a = dict(state_dep=sd, couple=t.rng.random() < .5, nlz=t.rng.random() < .6, npar=t.rng.choice([0, 0, 1, 2]),
             obs=False, gdep=nx > 0 and t.rng.random() < .15)
    a.update(kw)
    c, d = rand_core(t.rng, nx, nw, ny, **a)
    if t.rng.random() < .3:
        param_chain(t, c, d)
    cfg = dict(split=t.rng.choice([True, True, False]), theta=t.rng.choice([0., 0., .5, 1.]),
               grad=t.rng.choice(['discret', 'discret', 'theta', 'trapez']))
    return c, d, cfg


def gradient_check(t, it, m, d, cfg):
    """the gradient the scheme uses is the configured discretisation of the gradient of the energy"""
    full = dict(it.env)
    full.update(it.const)
    g = dict(zip(m.x, it.expr(list(m.dxH()))))
    D = dict(zip(m.x, m.dx()))

    def at(e, th):
        q = dict(full)
        q.update({x: full[x] + th * full[D[x]] for x in D})
        return fev(e, q)
    if cfg['grad'] == 'discret':
        t.close(sum([g[x] * full[D[x]] for x in D], 0.), at(d['H'], 1.) - at(d['H'], 0.),
                'discrete gradient times increment is the energy difference', 1e-8)
    for x in D:
        e = sp.diff(d['H'], x)
        if cfg['grad'] == 'theta':
            t.close(g[x], at(e, cfg['theta']), 'gradient at the theta point', 1e-8, state=x)
        elif cfg['grad'] == 'trapez':
            t.close(g[x], (at(e, 0.) + at(e, 1.)) / 2, 'mean of the gradients', 1e-8, state=x)


@obligation('C09', 'equations', 'methods built from random cores (<=3 storages, <=3 dissipations, <=2 ports, parameters, '
            'state-dependent structure, gradient-dependent structure), all gradient rules, theta in {0,.5,1}, splitting on/off',
            ['Method', 'build_structure_evaluation', 'set_structure', 'tempF', 'explicit_implicit'], limit=300)
def equations(t):
    Method = t.imp('pyphs', 'Method')
    for k in range(t.pick(24, 160)):
        c, d, cfg = gen(t)
        t.case(H=d['H'], z=d['z'], M=rows(d['M']), config=cfg)
        m = Method(c, config=cfg)
        t.eq(sorted(map(str, m.x)), sorted(map(str, d['x'])), 'same states')
        t.eq(sorted(map(str, m.w)), sorted(map(str, d['w'])), 'same dissipation variables')
        t.eq(list(m.u), d['u'], 'same inputs')
        sp_ = spec(d, m, cfg)
        for _ in range(2):
            it = Interp(m, 10.)
            for s in it.env:
                it.env[s] = t.rng.uniform(.1, 1.) * t.rng.choice([1, -1])
            gradient_check(t, it, m, d, cfg)
            R = resid(it, d, sp_, 10.)
            F = it.expr(geteval_(m, 'tempF'))
            lab = list(m.x) + list(m.w)
            t.eq(len(F), len(lab), 'one equation per unknown')
            for a, f in zip(lab, F):
                t.close(f, R[a], 'equation of %s of the generated scheme' % a, 1e-8, order=lab)
            # the split rows
            ll = list(m.xl()) + list(m.wl())
            ln = list(m.xnl()) + list(m.wnl())
            for nm, L in (('tempFl', ll), ('tempFnl', ln)):
                G = it.expr(geteval_(m, nm))
                t.eq(len(G), len(L), nm + ' length')
                for a, f in zip(L, G):
                    t.close(f, R[a], 'equation of %s in %s' % (a, nm), 1e-8)
            # output
            y = it.eval('y')
            full = dict(it.env)
            full.update(it.const)
            for a, v in zip(d['y'], y):
                t.close(v, fev(sp_[2][a], full), 'output %s' % a, 1e-8)


@obligation('C09', 'step_solves', 'one to three steps of the generated actions run by an independent interpreter, sample '
            'rates 20..2000 Hz; random cores as above (only converged steps are judged)',
            ['Method', 'set_execactions', 'set_update_x', 'set_update_vl', 'set_update_vnl', 'Operation'], limit=400)
def step(t):
    Method = t.imp('pyphs', 'Method')
    conv = 0
    for k in range(t.pick(24, 160)):
        c, d, cfg = gen(t)
        fs = t.rng.choice([20., 200., 2000.])
        t.case(H=d['H'], z=d['z'], M=rows(d['M']), config=cfg, fs=fs)
        m = Method(c, config=cfg)
        sp_ = spec(d, m, cfg)
        it = Interp(m, fs)
        for s in m.x:
            it.env[s] = t.rng.uniform(-.5, .5)
        for n in range(3):
            x0 = {s: it.env[s] for s in m.x}
            dx0 = {s: it.env[e] for s, e in zip(m.x, m.dx())}
            u = [t.rng.uniform(-1, 1) for _ in d['u']]
            p = [t.rng.uniform(.1, 1) for _ in d['p']]
            try:
                its, res = it.step(u, p)
            except (ZeroDivisionError, OverflowError):
                break
            for s in m.x:
                t.close(it.env[s], x0[s] + dx0[s], 'the state advances by its previous increment', 1e-12, state=s)
            t.eq([it.env[s] for s in m.u], u, 'the input is the given one')
            if its is not None and not res < 1e-7:
                break
            conv += 1
            R = resid(it, d, sp_, fs)
            sc = max([1.] + [abs(fs * it.env[e]) for e in m.dx()])
            for a, r in R.items():
                t.check(abs(r) <= 1e-6 * sc, 'the increments and dissipation variables solve the discretised system',
                        equation=a, residual=r, iterations=its, step=n)
            full = dict(it.env)
            full.update(it.const)
            g, z, row, D = sp_
            for a, v in zip(m.x, it.get('dxH')):
                t.close(v, fev(sp.sympify(g[a]), full), 'recorded gradient belongs to the solved step', 1e-9, state=a)
            for a, v in zip(m.w, it.get('z')):
                t.close(v, fev(z[a], full), 'recorded law belongs to the solved step', 1e-9, w=a)
            for a, v in zip(m.y, it.get('y')):
                t.close(v, fev(row[a], full), 'recorded output belongs to the solved step', 1e-9, y=a)
    t.check(conv >= 5, 'enough converged steps to judge', conv=conv)


@obligation('C09', 'split_on_off', 'random cores, the same core with splitting on and off, one step from the same state',
            ['Method', 'explicit_implicit'], limit=400)
def onoff(t):
    Method = t.imp('pyphs', 'Method')
    n = 0
    for k in range(t.pick(14, 100)):
        c, d, cfg = gen(t)
        fs = 200.
        cfg = dict(cfg, split=False)
        t.case(H=d['H'], z=d['z'], M=rows(d['M']), config=cfg)
        ms = [Method(c, config=dict(cfg, split=s)) for s in (True, False)]
        x0 = {s: t.rng.uniform(-.5, .5) for s in d['x']}
        u = [t.rng.uniform(-1, 1) for _ in d['u']]
        p = [t.rng.uniform(.1, 1) for _ in d['p']]
        out = []
        for m in ms:
            it = Interp(m, fs)
            it.env.update(x0)
            try:
                its, res = it.step(u, p)
            except (ZeroDivisionError, OverflowError):
                break
            if its is not None and not res < 1e-7:
                break
            out.append({str(s): it.env[s] for s in list(m.dx()) + list(m.w)})
        if len(out) < 2:
            continue
        # the multivariate discrete gradient depends on the partition: compare only when the gradients agree
        env = dict(x0)
        env.update({S('d' + str(s)): .1 + .05 * i for i, s in enumerate(d['x'])})
        env.update(consts(ms[0]))
        ga, gb = [{s: fev(sp.sympify(e), env) for s, e in zip(m.x, m.dxH())} for m in ms]
        if any(abs(ga[s] - gb[s]) > 1e-9 for s in ga):
            continue
        n += 1
        for s in out[0]:
            t.close(out[0][s], out[1][s], 'splitting does not change the solution', 1e-5, var=s)
    t.check(n >= 3, 'enough comparisons', n=n)


@obligation('C09', 'jacobians', 'random cores; oracle: finite differences of the implicit function along the unknowns',
            ['set_getters_Jac_tempF', 'set_getters_Jac_G', 'set_getters_G'], limit=300)
def jac(t):
    Method = t.imp('pyphs', 'Method')
    for k in range(t.pick(14, 100)):
        c, d, cfg = gen(t)
        t.case(H=d['H'], z=d['z'], M=rows(d['M']), config=cfg)
        m = Method(c, config=cfg)
        it = Interp(m, 10.)
        for s in it.env:
            it.env[s] = t.rng.uniform(.1, 1.) * t.rng.choice([1, -1])
        vl, vnl = list(m.vl()), list(m.vnl())

        def J(name, args):
            cols = []
            for a in args:
                v0 = it.env[a]
                h = 1e-5
                it.env[a] = v0 + h
                p = it.expr(geteval_(m, name))
                it.env[a] = v0 - h
                q = it.expr(geteval_(m, name))
                it.env[a] = v0
                cols.append([(x - y) / (2 * h) for x, y in zip(p, q)])
            return cols
        for nm, f, args in (('jactempFll', 'tempFl', vl), ('jactempFnll', 'tempFnl', vl), ('jacGlnl', 'Gl', vnl),
                            ('jacGnlnl', 'Gnl', vnl)):
            A = it.expr(geteval_(m, nm))
            C = J(f, args)
            for j, col in enumerate(C):
                for i, v in enumerate(col):
                    t.close(A[i][j], v, '%s entry' % nm, 1e-4, ij=(i, j))
        # the explicit part: F = J.vl + G with J and G independent of vl, J independent of vnl
        for nm, G, Jn in (('tempFl', 'Gl', 'jactempFll'), ('tempFnl', 'Gnl', 'jactempFnll')):
            F = it.expr(geteval_(m, nm))
            Gv = it.expr(geteval_(m, G))
            A = it.expr(geteval_(m, Jn))
            for i in range(len(F)):
                t.close(F[i], Gv[i] + sum(A[i][j] * it.env[a] for j, a in enumerate(vl)), 'affine decomposition', 1e-9)
            e0 = dict(it.env)
            for a in vl + vnl:
                it.env[a] = e0[a] + .1
            A2 = it.expr(geteval_(m, Jn))
            it.env.update(e0)
            for a in vl:
                it.env[a] = e0[a] + .2
            G2 = it.expr(geteval_(m, G))
            it.env.update(e0)
            for i in range(len(F)):
                for j in range(len(vl)):
                    t.close(A[i][j], A2[i][j], 'the explicit part is linear in the increments solved explicitly', 1e-9)
                t.close(Gv[i], G2[i], 'the explicit remainder does not depend on the explicit unknowns', 1e-8)


@obligation('C09', 'observers_params', 'random cores with an observer and parameters, 2 steps', ['set_update_observers'],
            limit=200)
def obs(t):
    Method = t.imp('pyphs', 'Method')
    for k in range(t.pick(6, 40)):
        nx = t.rng.randint(1, 2)
        c, d = rand_core(t.rng, nx, 1, 1, nlz=False, kinds=['quad'] * nx, couple=False)
        o = S('obs1')
        expr = d['x'][0]**2 + 3 * d['x'][-1] + d['u'][0]
        c.add_observer({o: expr})
        # the law uses the observed quantity
        c.z[0] = c.z[0] * (1 + o**2)
        d['z'][0] = d['z'][0] * (1 + o**2)
        cfg = dict(split=t.rng.choice([True, False]), theta=0., grad='discret')
        t.case(observer=expr, z=d['z'], config=cfg)
        m = Method(c, config=cfg)
        it = Interp(m, 100.)
        for s in m.x:
            it.env[s] = t.rng.uniform(-.5, .5)
        sp_ = spec(d, m, cfg)
        for n in range(2):
            u = [t.rng.uniform(-1, 1)]
            its, res = it.step(u, [])
            full = dict(it.env)
            full.update(it.const)
            t.close(it.env[o], fev(expr, full), 'the observer is evaluated at the updated state and input', 1e-10)
            for a, r in resid(it, d, sp_, 100.).items():
                t.check(abs(r) < 1e-6, 'the equations use the observed value', eq=a, r=r)
