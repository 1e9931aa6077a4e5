import copy
import sympy as sp
from fw import obligation
from lib import *

A, B, C, D, E, F = [S(n) for n in ('a1', 'b1', 'c1', 'd1', 'e1', 'f1')]


def pcore(t, inv=False, split=False):
    """a core whose energy, laws, structure and observers use parameters A..E; returns (core, definitions)"""
    r = t.rng
    nx, nw, ny = r.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 0, 1), (2, 2, 0)])
    ps = [A, B, C, D, E]

    def coef():
        q = r.choice(ps)
        k = r.randrange(6 if not inv else 9)
        return [q, q * r.choice(ps), q + 2, sp.exp(q / 3), q**2 / r.choice([B, C + 1]), sp.Integer(2) * q,
                1 / q, 1 / (A * B), q**-2 + sp.sqrt(C)][k]
    x, w, u, y = syms('x', nx), syms('w', nw), syms('u', ny), syms('y', ny)
    c = new_core()
    H = sum([coef() * s**2 / 2 + (coef() * s**4 if r.random() < .4 else 0) for s in x], sp.Integer(0))
    if nx > 1 and r.random() < .5:
        H += coef() * x[0] * x[1]
    z = [coef() * s + (coef() * s**3 if r.random() < .4 else 0) for s in w]
    c.add_storages(list(x), H)
    if nw:
        c.add_dissipations(list(w), list(z))
    if ny:
        c.add_ports(list(u), list(y))
    n = nx + nw + ny
    M = sp.zeros(n)
    for i in range(n):
        for j in range(i):
            v = r.choice([sp.Integer(0), sp.Integer(1), coef(), -coef()])
            M[i, j], M[j, i] = v, -v
    c.M = sp.SparseMatrix(M)
    ob = {S('ob1'): coef() * x[0] + x[-1]}
    c.add_observer(ob)
    stored_gradient = r.random() < .3
    if stored_gradient:
        c._dxH = [sp.diff(H, s) for s in x]
    defs = dict(H=H, z=list(z), M=sp.Matrix(M), ob=dict(ob), x=list(x), w=list(w), u=list(u), y=list(y))
    return c, defs


def exprs(c):
    out = {'H': sp.sympify(c.H)}
    for i, e in enumerate(c.z):
        out['z%d' % i] = sp.sympify(e)
    m = sp.Matrix(c.M)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            out['M%d,%d' % (i, j)] = m[i, j]
    for k, v in c.observers.items():
        out['o%s' % k] = sp.sympify(v)
    for i, e in enumerate(c.dxH()):
        out['dxH%d' % i] = sp.sympify(e)
    return out


def exprs0(d):
    out = {'H': d['H']}
    for i, e in enumerate(d['z']):
        out['z%d' % i] = e
    m = d['M']
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            out['M%d,%d' % (i, j)] = m[i, j]
    for k, v in d['ob'].items():
        out['o%s' % k] = v
    for i, e in enumerate(d['x']):
        out['dxH%d' % i] = sp.diff(d['H'], e)
    return out


def compare(t, c, d, value, what, symbs=()):
    """value: symbol -> expression/number it stands for; every expression of c at a random valuation of its remaining
    symbols must evaluate as the original does with the symbols given their value"""
    got, exp = exprs(c), exprs0(d)
    t.eq(sorted(got), sorted(exp), 'same expressions after ' + what)
    rest = set()
    for e in list(got.values()) + list(exp.values()):
        rest |= e.free_symbols
    for v in value.values():
        rest |= sp.sympify(v).free_symbols
    for trial in range(2):
        env = {s: t.rng.uniform(.4, 1.6) for s in sorted(rest, key=str)}
        env0 = dict(env)
        for _ in range(len(value) + 1):
            for s, v in value.items():
                env0[s] = fev(sp.sympify(v), env0)
        # symbols that survive in the result take the same value (definitions may be kept)
        for k in got:
            a = fev(got[k], env0)
            b = fev(exp[k], env0)
            t.check(abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b)), what + ': value of ' + k, got=got[k], original=exp[k], value=value)
    for k in got:
        left = got[k].free_symbols & set(symbs)
        t.check(not left, what + ': substituted symbols no longer occur', where=k, expr=got[k], left=left)


def gen_subs(t, keys):
    """values over symbols that are not themselves substituted"""
    out = {}
    for k in keys:
        out[k] = t.rng.choice([1.25, 2, sp.Rational(3, 4), F, 2 * F + 1, F**2 + S('gnew'), sp.exp(F / 2)])
    return out


@obligation('C13', 'given', 'random cores with parameters in energy, laws, structure and observers x random substitutions by numbers, '
            'symbols and expressions: value of every expression, symbols gone, other stored entries and the caller dictionary kept',
            ['substitute_core', 'substitute', 'substitute_dict', 'substitute_vector', 'substitute_matrix', 'Core.substitute'],
            limit=150)
def given(t):
    for k in range(t.pick(25, 150)):
        c, d = pcore(t)
        keys = [s for s in (A, B, C, D, E) if t.rng.random() < .5]
        sub = gen_subs(t, keys)
        stored = {s: t.rng.choice([.5, 3., 2]) for s in (A, B, C, D, E) if t.rng.random() < .4}
        if t.rng.random() < .3:
            stored[S('q9')] = A + 1
        c.subs.update(stored)
        before = dict(sub)
        t.case(subs=sub, stored=stored, H=d['H'], z=d['z'], M=d['M'].tolist())
        simp = t.rng.random() < .2
        c.substitute(subs=sub, **({'simplify': True} if simp else {}))
        t.eq(sub, before, "the caller's dictionary is left as it was")
        compare(t, c, d, sub, 'substitute', keys)
        for s, v in stored.items():
            if s in sub:
                t.check(s not in c.subs, 'a substituted symbol is no longer in the stored substitutions', symbol=s)
            else:
                t.check(s in c.subs, 'other stored substitutions survive', symbol=s, stored=dict(c.subs))
                exp = sp.sympify(v).subs(sub)
                t.check(sp.sympify(c.subs[s]) == exp, 'stored substitutions keep their meaning', symbol=s, got=c.subs[s], expected=exp)


@obligation('C13', 'renaming', 'random cores: variables and parameters renamed to fresh symbols, everywhere they occur',
            ['substitute_core', 'substitute_vector'], limit=120)
def renaming(t):
    for k in range(t.pick(12, 60)):
        c, d = pcore(t)
        allv = d['x'] + d['w'] + d['u'] + d['y'] + [A, B]
        keys = [s for s in allv if t.rng.random() < .5]
        sub = {s: S('new_%s' % s) for s in keys}
        t.case(rename=sub, H=d['H'], z=d['z'])
        ren = lambda l: [sub.get(s, s) for s in l]          # noqa
        c.substitute(subs=sub)
        for n in ('x', 'w', 'u', 'y'):
            t.eq(list(getattr(c, n)), ren(d[n]), 'renamed variables ' + n)
        got = exprs(c)
        d2 = dict(d, H=d['H'].subs(sub), z=[e.subs(sub) for e in d['z']], M=d['M'].subs(sub),
                  ob={k_: v.subs(sub) for k_, v in d['ob'].items()}, x=ren(d['x']))
        for kk, e in exprs0(d2).items():
            t.check(same_value(got[kk], e, t.rng), 'renamed expression ' + kk, got=got[kk], expected=e)


@obligation('C13', 'stored', 'random cores with stored numbers and (chained, forward and backward) expressions: applying the stored '
            'expressions / everything', ['substitute_core', 'Core.subsexprs', 'Core.substitute'], limit=150)
def stored(t):
    for k in range(t.pick(25, 150)):
        c, d = pcore(t)
        names = [A, B, C, D, E]
        t.rng.shuffle(names)
        st = {}
        for i, s in enumerate(names):
            later = names[i + 1:]
            if later and t.rng.random() < .6:
                q = t.rng.choice(later)
                st[s] = t.rng.choice([2 * q, q + 1, q**2 + F, q * t.rng.choice(later)])
            elif t.rng.random() < .5:
                st[s] = t.rng.choice([.5, 3., 2])
        items = list(st.items())
        t.rng.shuffle(items)
        for s, v in items:
            c.subs[s] = v
        mode = t.rng.choice(['selfexprs', 'selfall'])
        ex = {s: v for s, v in st.items() if not isinstance(v, (int, float))}
        user = gen_subs(t, [F]) if t.rng.random() < .3 else None
        if user is not None:
            user = {F: t.rng.choice([1.5, S('gnew')])}
        keep = dict(user) if user else None
        t.case(mode=mode, stored=st, user=user, H=d['H'], z=d['z'])
        kw = {'subs': user} if user else {}
        c.substitute(**{mode: True}, **kw)
        if user:
            t.eq(user, keep, "the caller's dictionary is left as it was")
        val = dict(st)
        if user:
            val.update(user)
        compare(t, c, d, val, 'substitute(%s)' % mode, list(ex) if mode == 'selfexprs' else list(st))
        for s, v in st.items():
            if mode == 'selfexprs' and s not in ex:
                t.check(s in c.subs and sp.sympify(c.subs[s]) == sp.sympify(v), 'numerical entries survive', symbol=s,
                        stored=dict(c.subs))
            else:
                t.check(s not in c.subs, 'applied entries are removed', symbol=s)
        if mode == 'selfall':
            t.eq(dict(c.subs), {}, 'stored substitutions are emptied')


@obligation('C13', 'simplify', 'random cores: every value unchanged', ['simplify_core', 'simplify', 'simplify_vector', 'simplify_matrix',
                                                                      'simplify_dict', 'Core.simplify'], limit=150)
def simplify(t):
    for k in range(t.pick(12, 60)):
        c, d = pcore(t, inv=True)
        c.subs.update({A: 2., B: 3 * C})
        t.case(H=d['H'], z=d['z'], M=d['M'].tolist())
        c.simplify()
        compare(t, c, d, {}, 'simplify')
        t.eq(dict(c.subs), {A: 2., B: 3 * C}, 'stored substitutions survive')
        for n in ('x', 'w', 'u', 'y'):
            t.eq(list(getattr(c, n)), d[n], 'variables ' + n)
    fs = t.imp('pyphs.core.tools', 'simplify')
    for k in range(t.pick(10, 60)):
        e = (A + B)**2 - A**2 + 1 / (C + 1) - t.rng.choice([B**2, B / C])
        if k % 2:
            e = e * sp.Float(t.rng.choice([3.1415926535, 1.2345678e-7, 0.33331234567, 26.123e-3])) + t.rng.uniform(.1, 2) * A
        t.case(expr=e)
        t.check(same_value(fs(e), e, t.rng), 'simplified scalar', got=fs(e))
        v = fs([e, A, B * e])
        for q, r in zip(v, [e, A, B * e]):
            t.check(same_value(q, r, t.rng), 'simplified vector')
        m = sp.SparseMatrix([[e, 0], [A * e, B]])
        m2 = fs(m.copy())
        for i in range(2):
            for j in range(2):
                t.check(same_value(m2[i, j], m[i, j], t.rng), 'simplified matrix')


@obligation('C13', 'inverses', 'random cores with inverses of parameters: values unchanged, no negative power of a stored parameter '
            'left, new entries are the inverses', ['subsinverse_core', 'subsinverse_scalar', 'subsinverse_matrix', 'subsinverse_vector',
                                                  'subsinverse_dict', 'Core.subsinverse'], limit=200)
def inverses(t):
    for k in range(t.pick(20, 120)):
        c, d = pcore(t, inv=True)
        st = {s: t.rng.choice([.5, 3., 2, 1.25, 4]) for s in (A, B, C, D, E) if t.rng.random() < .7}
        c.subs.update(st)
        t.case(stored=st, H=d['H'], z=d['z'], M=d['M'].tolist())
        c.subsinverse()
        for s, v in st.items():
            t.check(s in c.subs and c.subs[s] == v, 'stored substitutions survive', symbol=s)
        for s in c.subs:
            if s not in st:
                n = str(s)
                t.check(n.startswith('inv') and any(str(q) == n[3:] and abs(float(c.subs[s]) * float(v) - 1) < 1e-12
                                                    for q, v in st.items()), 'a new entry is the inverse of a stored one',
                        symbol=s, value=c.subs[s])
        compare(t, c, d, dict(c.subs), 'subsinverse')
        for kk, e in exprs(c).items():
            if kk.startswith('dxH'):
                continue
            bad = [q for q in sp.preorder_traversal(e) if isinstance(q, sp.Pow) and q.args[0] in st and q.args[1].is_number
                   and q.args[1] < 0]
            t.check(not bad, 'no inverse of a stored parameter remains', where=kk, expr=e)


@obligation('C13', 'freesymbols', 'random cores: the free symbols are those of every expression and variable list',
            ['Core.freesymbols', 'free_symbols'], limit=60)
def free(t):
    fsym = t.imp('pyphs.core.tools', 'free_symbols')
    for k in range(t.pick(10, 60)):
        c, d = pcore(t)
        t.case(H=d['H'])
        exp = set(d['H'].free_symbols)
        for e in d['z']:
            exp |= e.free_symbols
        exp |= d['M'].free_symbols
        got = set(c.freesymbols())
        t.check(exp <= got, 'free symbols of the core', got=got, expected=exp)
        t.eq(set(fsym(list(d['z']) + [d['H']])), set().union(*[e.free_symbols for e in d['z'] + [d['H']]]), 'free symbols, vector')
        t.eq(set(fsym(sp.SparseMatrix(d['M']))), d['M'].free_symbols, 'free symbols, matrix')
        t.eq(set(fsym(d['H'])), d['H'].free_symbols, 'free symbols, scalar')
