import contextlib
import io
import math
import os
import shutil
import tempfile
import sympy as sp
from fw import obligation, Skip
from lib import *
from netlib import core_response

pi, exp, log, cos = sp.pi, sp.exp, sp.log, sp.cos
DICT = 'pyphs.dictionary'


def sat(q, k0, ks, qs):
    return k0 * (q**2 / 2 + ks * (-8 * qs / (pi * (4 - pi))) * (pi**2 * q**2 / (8 * qs**2) + log(cos(pi * q / (2 * qs)))))


P = dict(lambda_=1)
X = S('XX')

# storages: documented energy, control of the edge and state bound (None: any); (module, class): (nodes, params, H(p), ctrl, xmax(p))
STO = {
    ('electronics', 'Capacitor'): (('A', 'B'), 'C', lambda p: X**2 / (2 * p['C']), 'f', None),
    ('electronics', 'Inductor'): (('A', 'B'), 'L', lambda p: X**2 / (2 * p['L']), 'e', None),
    ('mechanics', 'Mass'): (('A',), 'M', lambda p: X**2 / (2 * p['M']), 'f', None),
    ('mechanics', 'Stiffness'): (('A', 'B'), 'K', lambda p: X**2 * p['K'] / 2, 'e', None),
    ('mechanics', 'Springcubic'): (('A', 'B'), 'F1 F3 xref', lambda p: p['F1'] * X**2 / (2 * p['xref']) +
                                   p['F3'] * X**4 / (4 * p['xref']**3), 'e', None),
    ('mechanics', 'Springsat'): (('A', 'B'), 'K0 Ksat xsat', lambda p: sat(X, p['K0'], p['Ksat'], p['xsat']), 'e', 'xsat'),
    ('mechanics_dual', 'Mass'): (('A', 'B'), 'M', lambda p: X**2 / (2 * p['M']), 'e', None),
    ('mechanics_dual', 'Stiffness'): (('A', 'B'), 'K', lambda p: X**2 * p['K'] / 2, 'f', None),
    ('mechanics_dual', 'Springcubic'): (('A', 'B'), 'F1 F3 xref', lambda p: p['F1'] * X**2 / (2 * p['xref']) +
                                        p['F3'] * X**4 / (4 * p['xref']**3), 'f', None),
    ('mechanics_dual', 'Springsat'): (('A', 'B'), 'K0 Ksat xsat', lambda p: sat(X, p['K0'], p['Ksat'], p['xsat']), 'f', 'xsat'),
    ('magnetics', 'Capacitor'): (('A', 'B'), 'C', lambda p: X**2 / (2 * p['C']), 'f', None),
    ('magnetics', 'Capacitorsat'): (('A', 'B'), 'C0 Csat phisat', lambda p: sat(X, 1 / p['C0'], p['Csat'], p['phisat']), 'f',
                                    'phisat'),
    ('thermics', 'Capacitor'): (('T',), 'C T0', lambda p: p['C'] * p['T0'] * exp(X / p['C']), 'f', None),
}
LIN = {
    ('electronics', 'Resistor'): ('R', False), ('mechanics', 'Damper'): ('A', True), ('mechanics_dual', 'Damper'): ('A', False),
    ('magnetics', 'Resistor'): ('R', False),
}


def comp(t, key):
    return t.imp('%s.%s' % (DICT, key[0]), key[1])


def give(t, names, lab, style):
    """user parameters in one of the accepted styles; returns (kwargs, law symbols, expected stored values, free parameters)"""
    kw, law, subs, free = {}, {}, {}, []
    vals = {n: t.rng.choice([0.3, 0.75, 1.5, 2.0, 3.25]) for n in names}
    perm = list(names)
    t.rng.shuffle(perm)
    for n, q in zip(names, perm):
        if style == 'number':
            kw[n] = vals[n]
        elif style == 'pair':
            kw[n] = ('my' + n, vals[n])
        elif style == 'swap':           # names of other parameters of the same component
            kw[n] = (q, vals[n])
        elif style == 'name':
            kw[n] = 'fr' + n
    for n, q in zip(names, perm):
        if style == 'number':
            law[n] = ('value', vals[n])
        elif style == 'name':
            law[n] = ('symbol', S('fr' + n))
        else:
            s = S('my' + n if style == 'pair' else q)
            law[n] = ('symbol', s)
            subs[s] = vals[n]
    return kw, law, subs, vals


def law_env(t, g, law, subs, vals):
    """(symbol -> value used to evaluate the component's expressions, parameter name -> value)"""
    env = dict(g.core.subs)
    env = {k: float(v) for k, v in env.items()}
    for s, v in subs.items():
        t.check(s in env, 'the named parameter appears in the stored values', name=s, stored=env)
        t.eq(env[s], v, 'stored value of the named parameter', name=s)
    pv = {}
    for n, (k, v) in law.items():
        if k == 'value':
            pv[n] = v
        else:
            pv[n] = vals[n]
            if v not in env:
                env[v] = vals[n]
                t.check(v in list(g.core.p), 'a parameter given by name only is a free parameter', name=v, p=list(g.core.p))
    return env, pv


def the_edges(g):
    return [e[2] for e in g.edges(data=True)]


@obligation('C07', 'storage_laws', 'all 13 analytic storage components x 4 parameter styles x values; 12 (40) state values each; energy '
            'nonnegative, documented energy and gradient, documented causality',
            ['dictionary.*.Capacitor/Inductor/Mass/Stiffness/Springcubic/Springsat/Capacitorsat', 'StorageLinear', 'StorageNonLinear',
             'form', 'mappars'])
def storage_laws(t):
    for key, (nodes, names, H, ctrl, bound) in sorted(STO.items()):
        names = names.split()
        for style in ('number', 'pair', 'swap', 'name'):
            if key[1] in ('Inductor', 'Capacitor', 'Mass', 'Stiffness') and style == 'swap' and key[0] != 'thermics':
                continue
            for rep in range(t.pick(1, 4)):
                lab = 'T' if key[0] == 'thermics' else 'lab'
                kw, law, subs, vals = give(t, names, lab, style)
                t.case(component=key, kwargs=kw)
                g = comp(t, key)(lab, nodes, **kw)
                env, pv = law_env(t, g, law, subs, vals)
                t.eq(len(g.core.x), 1, 'one state')
                x = g.core.x[0]
                t.eq([d['type'] for d in the_edges(g)], ['storage'], 'one storage edge')
                t.eq(the_edges(g)[0]['ctrl'], ctrl, 'documented causality')
                t.eq(the_edges(g)[0]['label'], x, 'edge of the state')
                ref = H({n: sp.Float(v, 30) for n, v in pv.items()})
                dref = sp.diff(ref, X)
                dgot = g.core.dxH()[0]
                for k in range(t.pick(12, 40)):
                    b = pv[bound] * .98 if bound else 3.
                    v = t.rng.uniform(-b, b) if k else 0.
                    e = dict(env)
                    e[x] = v
                    h = fev(sp.sympify(g.core.H), e)
                    t.check(h >= -1e-12, 'nonnegative energy', x=v, H=h)
                    t.close(h, fev(ref, {X: v}), 'documented energy', x=v, tol=1e-9)
                    t.close(fev(sp.sympify(dgot), e), fev(dref, {X: v}), 'documented gradient', x=v, tol=1e-9)


@obligation('C07', 'linear_dissipations', 'the 4 linear dissipative components x 4 parameter styles; both controls, mutually inverse, '
            'nonnegative power', ['Resistor', 'Damper', 'DissipativeLinear'])
def linear_dissipations(t):
    for key, (n, inv) in sorted(LIN.items()):
        for style in ('number', 'pair', 'name'):
            for rep in range(t.pick(2, 5)):
                kw, law, subs, vals = give(t, [n], 'lab', style)
                t.case(component=key, kwargs=kw)
                g = comp(t, key)('lab', ('A', 'B'), **kw)
                env, pv = law_env(t, g, law, subs, vals)
                r = 1 / pv[n] if inv else pv[n]
                w = g.core.w[0]
                d = the_edges(g)
                t.eq(len(d), 1, 'one edge')
                d = d[0]
                for v in (-2., -.3, 0., 1., 5.):
                    env[w] = v
                    t.close(fev(sp.sympify(d['z']['f_ctrl']), env), r * v, 'flux-controlled law: effort = R flux', w=v)
                    t.close(fev(sp.sympify(d['z']['e_ctrl']), env), v / r, 'effort-controlled law: flux = effort / R', w=v)
                    z = fev(sp.sympify(g.core.z[0]), env)
                    t.check(z * v >= 0, 'nonnegative dissipated power', w=v, z=z)


def both_laws(t, d, env, w, vals, what):
    """the two laws of an edge with undetermined control are inverse functions, each with nonnegative power"""
    ze, zf = sp.sympify(d['z']['e_ctrl']), sp.sympify(d['z']['f_ctrl'])
    for v in vals:
        e = dict(env)
        e[w] = v
        i = fev(ze, e)
        t.check(i * v >= 0, 'nonnegative power (%s, effort-controlled)' % what, w=v, z=i)
        e[w] = i
        t.close(fev(zf, e), v, 'the two laws are inverse (%s)' % what, w=v, tol=1e-7)


@obligation('C07', 'diode_potentiometer', 'diode and potentiometer x parameter styles and values; laws, inverses, passivity on a grid of '
            'values', ['Diode', 'Potentiometer', 'DissipativeNonLinear'])
def diode_potentiometer(t):
    D = comp(t, ('electronics', 'Diode'))
    Pt = comp(t, ('electronics', 'Potentiometer'))
    for style in ('number', 'pair', 'swap', 'name'):
        for rep in range(t.pick(2, 6)):
            kw, law, subs, vals = give(t, ['Is', 'mu', 'R', 'v0'], 'lab', style)
            t.case(component='Diode', kwargs=kw)
            g = D('lab', ('A', 'B'), **kw)
            env, pv = law_env(t, g, law, subs, vals)
            ed = {str(e[2]['label']): e for e in g.edges(data=True)}
            t.eq(len(ed), 3, 'junction, series resistance and leakage')
            jn = [e for e in ed.values() if {S('wlab')} & sp.sympify(e[2]['z']['e_ctrl']).free_symbols]
            for e in ed.values():
                d = e[2]
                w = d['label']
                vs = [-.3, -.1, 0., .2, .7, 1.2]
                both_laws(t, d, env, w, vs, 'diode')
                for v in vs:
                    q = dict(env)
                    q[w] = v
                    i = fev(sp.sympify(d['z']['e_ctrl']), q)
                    if {e[0], e[1]} == {'A', str('B') + 'lab'} and sp.sympify(d['z']['e_ctrl']).has(sp.exp):
                        t.close(i, pv['Is'] * (math.exp(v / (pv['mu'] * pv['v0'])) - 1), 'Shockley law', w=v)
                    elif e[1] == 'B' or e[0] == 'B':
                        t.close(i, v / pv['R'], 'series resistance', w=v)
            s = sum(1 for e in ed.values() if sp.sympify(e[2]['z']['e_ctrl']).has(sp.exp))
            t.eq(s, 1, 'one junction')
    for style in ('number', 'pair', 'swap', 'name'):
        for rep in range(t.pick(2, 6)):
            kw, law, subs, vals = give(t, ['R', 'A', 'E'], 'lab', style)
            if style == 'number':
                kw['A'] = vals['A'] = .3
                law['A'] = ('value', .3)
            elif isinstance(kw['A'], tuple):
                s = S(kw['A'][0])
                vals['A'] = .3
                kw['A'] = (kw['A'][0], .3)
                subs[s] = .3
            else:
                vals['A'] = .3
            t.case(component='Potentiometer', kwargs=kw)
            g = Pt('lab', ('A', 'B', 'C'), **kw)
            env, pv = law_env(t, g, law, subs, vals)
            tot = 0.
            for e in g.edges(data=True):
                d = e[2]
                w = d['label']
                both_laws(t, d, env, w, [-2., -.5, 0., 1., 3.], 'potentiometer')
                q = dict(env)
                q[w] = 1.
                r = fev(sp.sympify(d['z']['f_ctrl']), q)
                tot += r
                a = pv['A'] ** pv['E']
                t.close(r, 1 + pv['R'] * (a if 'A' in e[:2] else 1 - a), 'resistance of the section', edge=e[:2])
            t.close(tot, pv['R'] + 2, 'constant total resistance')


@obligation('C07', 'transistor_triode', 'Bjt and Triode with default and random parameters; %s voltages each: nonnegative real power, '
            'Ebers-Moll and Koren currents' % '60 (300)', ['Bjt', 'Triode', 'DissipativeNonLinear'])
def transistor_triode(t):
    B = comp(t, ('electronics', 'Bjt'))
    Tr = comp(t, ('electronics', 'Triode'))
    r = t.rng
    for rep in range(t.pick(3, 10)):
        pv = dict(Is=1e-12, betaR=r.uniform(2, 20), betaF=r.uniform(20, 500), Vt=26e-3, mu=r.uniform(1, 2), Rb=r.uniform(1, 30),
                  Rc=r.uniform(.1, 2), Re=r.uniform(.1, 2))
        kw = {k: ('q' + k, v) for k, v in pv.items()}
        if rep == 1:
            kw.update(Rb=('Rc', pv['Rb']), Rc=('Re', pv['Rc']), Re=('Rb', pv['Re']))
        t.case(component='Bjt', kwargs=kw)
        g = B('lab', ('b', 'c', 'e'), **kw)
        env = {k: float(v) for k, v in g.core.subs.items()}
        ed = {}
        for e in g.edges(data=True):
            ed[(e[0], e[1])] = e[2]
        js = {k: d for k, d in ed.items() if sp.sympify(d['z']['e_ctrl']).has(sp.exp)}
        rs = {k: d for k, d in ed.items() if k not in js}
        t.eq(len(js), 2, 'two junctions')
        t.eq(len(rs), 3, 'three access resistances')
        for k, d in rs.items():
            n = [q for q in k if q in ('b', 'c', 'e')][0]
            both_laws(t, d, env, d['label'], [-1., 0., 2.], 'access resistance')
            q = dict(env)
            q[d['label']] = 1.
            t.close(fev(sp.sympify(d['z']['f_ctrl']), q), pv['R' + n], 'access resistance', node=n)
        inner = {}
        for k in rs:
            n = [q for q in k if q in ('b', 'c', 'e')][0]
            inner[[q for q in k if q != n][0]] = n
        for i in range(t.pick(60, 300)):
            vbc, vbe = r.uniform(-3, .8), r.uniform(-3, .8)
            V = {('b', 'c'): vbc, ('c', 'b'): -vbc, ('b', 'e'): vbe, ('e', 'b'): -vbe}
            q = dict(env)
            for k, d in js.items():
                q[d['label']] = V[(inner[k[0]], inner[k[1]])]
            fc = pv['Is'] * (math.exp(vbc / (pv['mu'] * pv['Vt'])) - 1)
            fe = pv['Is'] * (math.exp(vbe / (pv['mu'] * pv['Vt'])) - 1)
            p = 0.
            for k, d in js.items():
                c = fev(sp.sympify(d['z']['e_ctrl']), q)
                p += c * q[d['label']]
                kk = (inner[k[0]], inner[k[1]])
                exp_ = {('b', 'c'): fc * (1 + 1 / pv['betaR']) - fe, ('b', 'e'): fe * (1 + 1 / pv['betaF']) - fc}
                if kk in exp_:
                    t.check(abs(c - exp_[kk]) <= 1e-10 + 1e-6 * abs(exp_[kk]), 'Ebers-Moll current', junction=kk, vbc=vbc, vbe=vbe,
                            got=c, expected=exp_[kk])
            t.check(p >= -1e-15, 'nonnegative power in the transistor', vbc=vbc, vbe=vbe, power=p)
    for rep in range(t.pick(3, 10)):
        pv = dict(mu=r.uniform(20, 100), Ex=r.uniform(1.1, 1.6), Kg=r.uniform(500, 2000), Kp=r.uniform(50, 600), Kvb=r.uniform(100, 400),
                  Vct=r.uniform(0, .6), Va=r.uniform(.1, .5), Rgk=r.uniform(1e3, 5e3))
        t.case(component='Triode', kwargs=pv)
        g = Tr('lab', ('k', 'p', 'g'), **{k: ('q' + k, v) for k, v in pv.items()})
        env = {k: float(v) for k, v in g.core.subs.items()}
        ed = {frozenset(e[:2]): e[2] for e in g.edges(data=True)}
        dp, dg = ed[frozenset('pk')], ed[frozenset('gk')]
        for i in range(t.pick(60, 300)):
            vp, vg = r.uniform(-50, 300) if i else 0., r.uniform(-4, 1.)
            q = dict(env)
            q[dp['label']], q[dg['label']] = vp, vg
            ip, ig = fev(sp.sympify(dp['z']['e_ctrl']), q), fev(sp.sympify(dg['z']['e_ctrl']), q)
            t.check(isinstance(ip, float) and isinstance(ig, float) and ip == ip, 'real currents', vpk=vp, vgk=vg, ipk=ip, igk=ig)
            t.check(ip * vp + ig * vg >= -1e-15, 'nonnegative power in the triode', vpk=vp, vgk=vg, ipk=ip, igk=ig)
            e1 = vp / pv['Kp'] * math.log1p(math.exp(pv['Kp'] * (1 / pv['mu'] + (vg + pv['Vct']) / math.sqrt(pv['Kvb'] + vp * vp)))) \
                if pv['Kp'] * (1 / pv['mu'] + (vg + pv['Vct']) / math.sqrt(pv['Kvb'] + vp * vp)) < 600 else None
            if e1 is not None:
                ref = 2 * e1 ** pv['Ex'] / pv['Kg'] if vp > 0 else 0.
                t.check(abs(ip - ref) <= 1e-9 + 1e-6 * abs(ref), 'Koren plate current', vpk=vp, vgk=vg, got=ip, expected=ref)
            if vg < pv['Va'] - .01:
                t.check(abs(ig) < 1e-8, 'no grid current below the threshold', vgk=vg, igk=ig)


@obligation('C07', 'felt', 'the two felts x parameter styles; energy, restoring force and damping on a grid of contractions, passivity',
            ['mechanics.Felt', 'mechanics_dual.Felt'])
def felt(t):
    for mod, ctrl in (('mechanics', 'e'), ('mechanics_dual', 'f')):
        F = comp(t, (mod, 'Felt'))
        for style in ('number', 'pair', 'swap', 'name'):
            for rep in range(t.pick(2, 5)):
                kw, law, subs, vals = give(t, ['L', 'F', 'A', 'B'], 'lab', style)
                t.case(component=mod + '.Felt', kwargs=kw)
                g = F('lab', ('A', 'B'), **kw)
                env, pv = law_env(t, g, law, subs, vals)
                ed = list(g.edges(data=True))
                st = [e for e in ed if e[2]['type'] == 'storage']
                ds = [e for e in ed if e[2]['type'] == 'dissipative']
                t.eq((len(st), len(ds)), (1, 1), 'elastic and damping parts')
                st, ds = st[0], ds[0]
                t.eq((st[2]['ctrl'], ds[2]['ctrl']), (ctrl, ctrl), 'causality')
                if ctrl == 'e':
                    t.eq((st[0], st[1], ds[0], ds[1]), ('A', 'B', 'A', 'B'), 'same velocity: both parts between the terminals')
                else:
                    t.check(st[0] == 'A' and ds[1] == 'B' and st[1] == ds[0], 'same flux: parts in series', edges=(st[:2], ds[:2]))
                q, w = g.core.x[0], g.core.w[0]
                dH = g.core.dxH()[0]
                for k in range(t.pick(10, 40)):
                    v, dv = (t.rng.uniform(-1, 1) * 2 if k else 0.), t.rng.uniform(-2, 2)
                    e = dict(env)
                    e[q], e[w] = v, dv
                    c = max(v, 0.) / pv['L']
                    h = fev(sp.sympify(g.core.H), e)
                    t.check(h >= 0, 'nonnegative energy', q=v)
                    t.close(fev(sp.sympify(dH), e), pv['F'] * c ** pv['B'], 'restoring force F c^B', q=v)
                    z = fev(sp.sympify(ds[2]['z'][ctrl + '_ctrl']), e)
                    ref = pv['A'] * pv['L'] / pv['B'] * c ** (pv['B'] - 1) * dv if c else 0.
                    t.close(z, ref, 'damping force', q=v, dtq=dv)
                    t.check(z * dv >= 0, 'nonnegative dissipated power', q=v, dtq=dv)


SRC = {('electronics', 'voltage'): 'f', ('electronics', 'current'): 'e', ('mechanics', 'force'): 'e', ('mechanics', 'velocity'): 'f',
       ('mechanics_dual', 'force'): 'f', ('mechanics_dual', 'velocity'): 'e', ('magnetics', 'mmf'): 'f', ('magnetics', 'fluxvar'): 'e',
       ('thermics', 'temperature'): 'f', ('thermics', 'entropyvar'): 'e'}


@obligation('C07', 'sources', 'all 5 sources x both types (any letter case) x constant input values; one lossless port with the right '
            'causality', ['dictionary.*.Source', 'edges.Port'])
def sources(t):
    for (mod, typ), ctrl in sorted(SRC.items()):
        Sc = comp(t, (mod, 'Source'))
        for tt in (typ, typ.upper(), typ.capitalize()):
            for const in (None, 2.5, 0.):
                lab = 'T' if mod == 'thermics' else 'lab'
                nodes = ('T',) if mod == 'thermics' else ('A', 'B')
                kw = {'type': tt}
                if const is not None:
                    kw['const'] = const
                t.case(module=mod, kwargs=kw)
                g = Sc(lab, nodes, **kw)
                ed = list(g.edges(data=True))
                t.eq(len(ed), 1, 'one edge')
                d = ed[0][2]
                t.eq((d['type'], d['ctrl']), ('port', ctrl), 'imposed quantity')
                t.eq(ed[0][:2], ('#', 'T') if mod == 'thermics' else ('A', 'B'), 'terminals')
                t.eq((list(g.core.u), list(g.core.y)), ([S('u' + lab)], [S('y' + lab)]), 'one port')
                t.eq(d['label'], S('y' + lab), 'edge of the port')
                t.eq((len(g.core.x), len(g.core.w), g.core.H), (0, 0, 0), 'no energy, no dissipation')
                t.eq({k: float(v) for k, v in g.core.subs.items()}, {} if const is None else {S('u' + lab): const}, 'constant input')
        t.raises('unknown source types are rejected', (AssertionError, ValueError, KeyError), Sc, lab, nodes, type='wrongtype')
        if mod not in ('thermics',):
            g = Sc('lab', ('A',), type=typ)
            t.eq(list(g.edges(data=True))[0][:2], ('#', 'A'), 'single terminal: from the datum')


@obligation('C07', 'connector_components', 'gyrator and transformer x parameter styles', ['connectors.Gyrator', 'connectors.Transformer',
                                                                                          'edges.Connector'])
def connector_components(t):
    for cls, typ in (('Gyrator', 'gyrator'), ('Transformer', 'transformer')):
        for style in ('number', 'pair', 'name'):
            kw, law, subs, vals = give(t, ['alpha'], 'lab', style)
            t.case(component=cls, kwargs=kw)
            g = comp(t, ('connectors', cls))('lab', ('A', 'B', 'C', 'D'), **kw)
            env, pv = law_env(t, g, law, subs, vals)
            ed = {e[:2]: e[2] for e in g.edges(data=True)}
            t.eq(sorted(ed), [('A', 'B'), ('C', 'D')], 'two edges')
            a, b = ed[('A', 'B')], ed[('C', 'D')]
            t.eq((a['type'], b['type'], a['connector_type'], b['connector_type']), ('connector', 'connector', typ, typ), 'type')
            t.eq((a['link'], b['link']), (b['label'], a['label']), 'edges linked with each other')
            t.close(fev(sp.sympify(a['alpha']), env), pv['alpha'], 'coefficient on the first edge')
            t.check(b['alpha'] is None, 'no coefficient on the second edge')
            t.eq((len(g.core.x), len(g.core.w), g.core.H), (0, 0, 0), 'no energy, no dissipation')
            c = g.core.connectors
            t.eq(len(c), 1, 'one connector')
            t.close(fev(sp.sympify(c[0]['alpha']), env), pv['alpha'], 'coefficient of the core')


@obligation('C07', 'thermal_transfer', '20 (80) temperatures: power of the transfer is zero and entropy production nonnegative',
            ['thermics.Transfer'])
def thermal_transfer(t):
    Tr = comp(t, ('thermics', 'Transfer'))
    for k in range(t.pick(20, 80)):
        R = t.rng.uniform(.1, 5)
        t.case(R=R)
        g = Tr('lab', ('Ta', 'Tb'), R=('qR', R))
        ed = {e[1]: e[2] for e in g.edges(data=True)}
        t.eq(sorted(ed), ['Ta', 'Tb'], 'one edge per thermal point')
        a, b = t.rng.uniform(200, 400), t.rng.uniform(200, 400)
        env = {s: float(v) for s, v in g.core.subs.items()}
        env.update({ed['Ta']['label']: a, ed['Tb']['label']: b, S('gxTa'): a, S('gxTb'): b})
        za, zb = [fev(sp.sympify(ed[n]['z']['e_ctrl']), env) for n in ('Ta', 'Tb')]
        t.close(za, R * (a - b) / a, 'entropy flow of the first point')
        t.close(zb, R * (b - a) / b, 'entropy flow of the second point')
        t.check(abs(za * a + zb * b) < 1e-9, 'energy is conserved')
        t.check(za + zb <= 1e-12, 'sign of the entropy production')
        t.eq([d['ctrl'] for d in (ed['Ta'], ed['Tb'])], ['e', 'e'], 'causality')


@obligation('C07', 'fractional', 'the 4 fractional components, gain 2, orders .3 .5 .7: positive coefficients; response of the network '
            'within 3 % (6 %) of g s^order at 3 points of the band', ['Fracderec', 'Fracderfc', 'Fracintec', 'Fracintfc',
                                                               'fractionalDifferenciatorWeights', 'fractionalIntegratorWeights'],
            limit=240)
def fractional(t):
    el = t.imp(DICT, 'electronics')
    Graph = t.imp('pyphs', 'Graph')
    for name, typ in (('Fracderec', 'voltage'), ('Fracderfc', 'current'), ('Fracintec', 'voltage'), ('Fracintfc', 'current')):
        cls = comp(t, ('fraccalc', name))
        der = 'der' in name
        for o in t.pick((.5,), (.3, .5, .7)):
            t.case(component=name, order=o)
            kw = {'alpha' if der else 'beta': o}
            g = Graph(label='g')
            g += el.Source('s', ('a', '#'), type=typ)
            fr = cls('f', ('a', '#'), g=2., NbPoles=8, PolesMinMax=(0, 6), FreqsMinMax=(10, 1e4), DoPlot=False, **kw)
            for s, v in fr.core.subs.items():
                t.check(float(v) > 0, 'positive coefficients', symbol=s, value=v)
            g += fr
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    c = timed(g.to_core, 60)
            except TooLong:
                raise Skip('analysis too long')
            for s in (200., 1000., 5000.):
                y = core_response(c, s, {'us': 1.})
                t.check(y is not None, 'regular model')
                ref = 2. * s ** (o if der else -o)
                t.check(abs(abs(y['ys']) / ref - 1) < .06, 'response follows g s^order', s=s, got=y['ys'], expected=ref)
                t.check(y['ys'] < 0 , 'passive sign', s=s, got=y['ys'])


@obligation('C07', 'pwl', '40 (200) tables of 3..6 points: interpolation, integral, passivity of the piecewise-linear components',
            ['pwl_func', 'data_generator', 'pwl.Storage', 'pwl.Dissipative'])
def pwl(t):
    f, gen = t.imp(DICT + '.pwl.tools', 'pwl_func', 'data_generator')
    Stc, Dis = comp(t, ('pwl', 'Storage')), comp(t, ('pwl', 'Dissipative'))
    d = tempfile.mkdtemp()
    try:
        for k in range(t.pick(40, 200)):
            n = t.rng.choice([1, 2, 3])
            xs = sorted({0.} | {round(-t.rng.uniform(.2, 3), 2) for _ in range(n)} | {round(t.rng.uniform(.2, 3), 2) for _ in range(n)})
            i0 = xs.index(0.)
            ys = [0.] * len(xs)
            for i in range(i0 + 1, len(xs)):
                ys[i] = ys[i - 1] + round(t.rng.uniform(.1, 2), 2)
            for i in range(i0 - 1, -1, -1):
                ys[i] = ys[i + 1] - round(t.rng.uniform(.1, 2), 2)
            t.case(x=xs, y=ys)

            def ref(v):
                i = max(0, min(len(xs) - 2, sum(1 for q in xs if q <= v) - 1))
                return ys[i] + (ys[i + 1] - ys[i]) * (v - xs[i]) / (xs[i + 1] - xs[i])
            path = os.path.join(d, 'f%d.txt' % k)
            with open(path, 'w') as fi:
                fi.write(' '.join(map(repr, xs)) + '\n' + ' '.join(map(repr, ys)) + '\n')
            t.eq([list(q) for q in gen(path)], [xs, ys], 'data read from the file')
            t.eq([list(q) for q in gen(path, start=1)], [ys], 'lines from start')
            ctrl = t.rng.choice('ef')
            g = Dis('lab', ('A', 'B'), file=path, ctrl=ctrl)
            e = list(g.edges(data=True))
            t.eq((len(e), e[0][2]['ctrl']), (1, ctrl), 'one edge with the given control')
            z = sp.sympify(e[0][2]['z'][ctrl + '_ctrl'])
            w = g.core.w[0]
            st = Stc('lab', ('A', 'B'), file=path, ctrl=ctrl, integ=True)
            x = st.core.x[0]
            H, dH = sp.sympify(st.core.H), sp.sympify(st.core.dxH()[0])
            for v in xs + [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [xs[0] - 1, xs[-1] + 1]:
                zz = fev(z, {w: v})
                t.check(abs(zz - ref(v)) < 1e-9, 'piecewise-linear interpolation', at=v, got=zz, expected=ref(v))
                t.check(zz * v >= -1e-12, 'nonnegative power', w=v)
                t.check(abs(fev(dH, {x: v}) - ref(v)) < 1e-9, 'gradient of the integrated energy interpolates the data', at=v)
                t.check(fev(H, {x: v}) >= -1e-12, 'nonnegative energy', x=v, H=fev(H, {x: v}))
            hs = [a * a for a in xs]
            hh = sp.sympify(f(xs, hs, x))
            for v, h in zip(xs, hs):
                t.check(abs(fev(hh, {x: v}) - h) < 1e-9, 'interpolation of energy values', at=v)
    finally:
        shutil.rmtree(d)


@obligation('C07', 'arguments', 'argument formats number / name / (name, value) / symbolic number; malformed tuples rejected',
            ['form', 'mappars', 'Argument'])
def arguments(t):
    form = t.imp(DICT + '.tools', 'form')
    for v in (1, 2.5, -3.):
        t.case(value=v)
        s, sub, par = form('nm', v)
        t.eq((s, dict(sub), par), (S('nm'), {S('nm'): v}, None), 'number')
        s, sub, par = form('nm', ('other', v))
        t.eq((s, dict(sub), par), (S('other'), {S('other'): v}, None), 'pair')
    s, sub, par = form('nm', 'free')
    t.eq((s, dict(sub), par), (S('free'), {}, S('free')), 'name only')
    e = S('q')**2
    s, sub, par = form('nm', e)
    t.eq((s, dict(sub), par), (S('nm'), {S('nm'): e}, None), 'expression')
    for bad in ((1, 'a'), (1., 2.), ('a', 'b')):
        t.raises('malformed pair', TypeError, form, 'nm', bad)


@obligation('C07', 'beam', 'cantilever with 1..2 (3) modes and 1..2 contacts: modal masses, stiffnesses and dampers positive; force and '
            'velocity of the contacts are the modal projections', ['Cantilever', 'omega_cosine', 'waveNumbers', 'beamLength'], limit=300,
            tier='quick')
def beam(t):
    Graph = t.imp('pyphs', 'Graph')
    me = t.imp(DICT, 'mechanics')
    C, om = t.imp(DICT + '.beams._cantilever', 'Cantilever', 'omega_cosine')
    for n, nc in t.pick(((2, 1),), ((1, 1), (2, 1), (2, 2), (3, 1))):
        t.case(modes=n, contacts=nc)
        b = C('b', tuple('N%d' % (i + 1) for i in range(nc)), N=n, F=440., z1=.15, w1=1.5e-2, z2=.8, w2=1e-2)
        env = {str(k): float(v) for k, v in b.core.subs.items()}
        for k, v in env.items():
            if 'alpha' not in k:
                t.check(v > 0, 'positive modal parameter', name=k, value=v)
        # every contact is driven by a force source; admittance y_i/u_j = sum_m om_i[m] om_j[m] s / (M s^2 + A s + K)
        g = Graph(label='g')
        for i in range(nc):
            g += me.Source('s%d' % (i + 1), ('N%d' % (i + 1),), type='force')
        g += b
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                c = timed(g.to_core, 60)
        except TooLong:
            raise Skip('analysis too long')
        for s in (300., 3000.):
            for j in range(nc):
                y = core_response(c, s, {'us%d' % (i + 1): 1. if i == j else 0. for i in range(nc)})
                t.check(y is not None, 'regular model')
                for i in range(nc):
                    ref = 0.
                    for m in range(n):
                        oi, oj = env['bT%dalpha%d' % (i, m)], env['bT%dalpha%d' % (j, m)]
                        ref += oi * oj * s / (env['bM%d' % m] * s * s + env['bA%d' % m] * s + env['bK%d' % m])
                    t.close(abs(y['ys%d' % (i + 1)]), abs(ref), 'modal admittance between contacts', i=i, j=j, s=s, tol=1e-6)
