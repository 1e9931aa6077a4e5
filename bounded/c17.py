import numpy as np
import sympy as sp
from fw import obligation, Skip
from lib import *


def evaluator(t):
    return t.imp('pyphs.numerics.tools._evaluation', 'Evaluation')


def flat(v):
    return [float(q) for q in np.asarray(v, dtype=float).flatten()]


def want(e, env):
    """(shape, flat values) of an expression (scalar, list, matrix)"""
    if isinstance(e, sp.MatrixBase):
        R = rows(e)
        return tuple(e.shape), [fev(sp.sympify(x), env) for r in R for x in r]
    if isinstance(e, (list, tuple)):
        return (len(e),), [fev(sp.sympify(x), env) for x in e]
    return (), [fev(sp.sympify(e), env)]


def model(t, k):
    r = t.rng
    nx, nw, ny = r.choice([(1, 0, 1), (2, 1, 1), (2, 2, 1), (1, 1, 2), (3, 1, 0), (0, 2, 1)])
    c, d = rand_core(r, nx, nw, ny, state_dep=bool(nx), npar=r.choice([0, 1, 2]), obs=bool(nx), couple=True)
    # stored parameter values: some of the coefficients become named parameters
    P1, P2, P3 = S('q1'), S('q2'), S('q3')
    subs = {P1: 0.75, P2: 1.5}
    if nx:
        c.H = d['H'] = d['H'] + P1 * d['x'][0]**2 * P2
    if nw:
        zz = list(c.z)
        zz[0] = zz[0] + P2 * P3 * d['w'][0]
        c.z = zz
        d['z'] = list(zz)
        subs[P3] = P1 + P2 * 2 if r.random() < .5 else 0.25      # a parameter defined from other parameters
    c.subs.update(subs)
    full = {P1: 0.75, P2: 1.5, P3: (0.75 + 3.0) if subs.get(P3) is not None and not isinstance(subs.get(P3), float) else 0.25}
    return c, d, full


def exprs_of(c, d):
    out = {'H': d['H'], 'z': list(d['z']), 'M': d['M']}
    if d['x']:
        out['dxH'] = [sp.diff(d['H'], x) for x in d['x']]
    n = len(d['M'].tolist())
    nx, nw, ny = len(d['x']), len(d['w']), len(d['y'])
    rng = {'x': (0, nx), 'w': (nx, nx + nw), 'y': (nx + nw, n)}
    for a in 'xwy':
        for b in 'xwy':
            if rng[a][0] < rng[a][1] and rng[b][0] < rng[b][1]:
                out['M' + a + b] = sp.Matrix(d['M'])[rng[a][0]:rng[a][1], rng[b][0]:rng[b][1]]
    J = (d['M'] - d['M'].T) / 2
    out['J'] = J
    out['R'] = -(d['M'] + d['M'].T) / 2
    return out


@obligation('C17', 'evaluation_values', '12 (60) random systems x energies, laws, gradients, matrices and blocks x 4 valuations: value of '
            'each evaluation, with stored parameters (also parameters defined from others)',
            ['Evaluation.build', 'Evaluation.expr_to_numeric', 'scalar_expr_to_numeric', 'vector_expr_to_numeric', 'lambdify'])
def evaluation_values(t):
    Ev = evaluator(t)
    for k in range(t.pick(12, 60)):
        c, d, full = model(t, k)
        refs = exprs_of(c, d)
        before = (str(c.H), [str(z) for z in c.z], dict(c.subs))
        vec = k % 3 != 0
        t.case(H=d['H'], z=d['z'], subs=dict(c.subs), vectorize=vec)
        e = Ev(c, names=set(refs), vectorize=vec)
        t.eq((str(c.H), [str(z) for z in c.z], dict(c.subs)), before, 'the system is not modified')
        order = d['x'] + [S('d' + str(x)) for x in d['x']] + d['w'] + d['u'] + d['p'] + list(c.observers.keys())
        t.eq(list(e.args()), order, 'argument order of the system')
        for n, ref in sorted(refs.items()):
            f, a, i = getattr(e, n), getattr(e, n + '_args'), getattr(e, n + '_inds')
            fs = set().union(*[sp.sympify(x).free_symbols for x in (ref if isinstance(ref, (list, sp.MatrixBase)) else [ref])])
            fs -= set(full)
            t.eq(list(a), [s for s in order if s in fs], 'arguments of %s' % n)
            t.eq(list(i), [q for q, s in enumerate(order) if s in fs], 'positions of the arguments of %s' % n)
            for rep in range(4):
                env = {s: t.rng.uniform(-1.5, 1.5) for s in order}
                env.update(full)
                got = f(*[env[s] for s in a])
                shape, vals = want(ref, env)
                t.eq(tuple(np.shape(got)), shape, 'shape of %s' % n)
                for p, q in zip(flat(got), vals):
                    t.check(abs(p - q) <= 1e-9 * (1 + abs(q)), 'value of %s' % n, got=flat(got), expected=vals, env=env)


@obligation('C17', 'sequences', '12 (60) random systems x sequences of 1..4 argument values (lists and arrays): row by row evaluation',
            ['pyphs_vectorize', 'scalar_expr_to_numeric', 'vector_expr_to_numeric'])
def sequences(t):
    Ev = evaluator(t)
    for k in range(t.pick(12, 60)):
        c, d, full = model(t, k)
        refs = exprs_of(c, d)
        refs['const'] = None
        refs.pop('const')
        t.case(H=d['H'], z=d['z'])
        e = Ev(c, names=set(refs), vectorize=True)
        for n, ref in sorted(refs.items()):
            f, a = getattr(e, n), getattr(e, n + '_args')
            m = t.rng.choice([1, 2, 3, 4])
            seq = {s: [t.rng.uniform(-1.5, 1.5) for _ in range(m)] for s in a}
            if not a:
                continue
            args = [seq[s] if t.rng.random() < .5 else np.array(seq[s]) for s in a]
            got = f(*args)
            got = list(got)
            t.eq(len(got), m, 'one value per element of the sequences', name=n)
            for r_ in range(m):
                env = {s: seq[s][r_] for s in a}
                env.update(full)
                shape, vals = want(ref, env)
                t.eq(tuple(np.shape(got[r_])), shape, 'shape of row %d of %s' % (r_, n))
                for p, q in zip(flat(got[r_]), vals):
                    t.check(abs(p - q) <= 1e-9 * (1 + abs(q)), 'value of row %d of %s' % (r_, n), got=flat(got[r_]), expected=vals)
            if len(a) > 1:
                bad = [list(range(m)) for _ in a]
                bad[-1] = list(range(m + 1))

                def call():
                    v = f(*bad)
                    return list(v)
                t.raises('sequences of different lengths are rejected', Exception, call)


@obligation('C17', 'slices', 'vector expressions restricted to a slice', ['Evaluation', 'vector_expr_to_numeric'])
def slices(t):
    Ev = evaluator(t)
    for k in range(t.pick(8, 30)):
        c, d, full = model(t, k)
        if len(d['z']) < 1:
            continue
        refs = exprs_of(c, d)
        for n in ('z', 'dxH'):
            if n not in refs:
                continue
            for sl in (slice(0, 1), slice(1, None), slice(None, None, 2), slice(None)):
                ref = refs[n][sl]
                if not ref:
                    continue
                t.case(name=n, slice=sl, expr=refs[n])
                e = Ev(c, names=[n], vslice=sl)
                f, a = getattr(e, n), getattr(e, n + '_args')
                env = {s: t.rng.uniform(-1, 1) for s in a}
                env.update(full)
                got = f(*[env[s] for s in a])
                shape, vals = want(ref, env)
                t.eq(tuple(np.shape(got)), shape, 'shape')
                for p, q in zip(flat(got), vals):
                    t.check(abs(p - q) <= 1e-9 * (1 + abs(q)), 'value', got=flat(got), expected=vals)


@obligation('C17', 'lambdify_values', '60 (300) random expressions (scalars, lists, matrices; powers, exponentials, logarithms, '
            'trigonometric and hyperbolic functions, piecewise) x argument orders x stored values',
            ['lambdify', 'numpy_lambdify', 'substitute', 'free_symbols'])
def lambdify_values(t):
    lam = t.imp('pyphs.numerics.tools._lambdify', 'lambdify')
    r = t.rng
    V = [S(n) for n in ('a', 'b', 'c', 'x1', 'dx1', 'w')]

    def rexp(depth):
        k = r.randrange(9) if depth else 0
        if k == 0:
            return r.choice(V + [sp.Rational(r.randint(1, 9), 4), sp.Float(.3)])
        p = rexp(depth - 1)
        if k == 1:
            return p + rexp(depth - 1)
        if k == 2:
            return p * rexp(depth - 1)
        if k == 3:
            return sp.exp(-p**2)
        if k == 4:
            return sp.log(1 + p**2)
        if k == 5:
            return r.choice([sp.sin, sp.cos, sp.tanh, sp.atan, sp.sinh])(p / 4)
        if k == 6:
            return sp.sqrt(1 + p**2) / (2 + rexp(depth - 1)**2)
        if k == 7:
            return sp.Piecewise((p, r.choice(V) <= 0), (rexp(depth - 1), True))
        return p**3 - sp.Abs(rexp(depth - 1))
    for k in range(t.pick(60, 300)):
        kind = r.choice(['s', 'l', 'm'])
        if kind == 's':
            e = rexp(3)
        elif kind == 'l':
            e = [rexp(2) for _ in range(r.randint(1, 3))]
        else:
            m, n = r.randint(1, 3), r.randint(1, 3)
            e = sp.SparseMatrix(m, n, lambda i, j: rexp(1) if r.random() < .7 else 0)
        args = list(V)
        r.shuffle(args)
        if k % 6 == 5:
            args = [S('q%d' % i) for i in range(10)] + args
            e = sum([rexp(1) * q for q in args[:10]], sp.Integer(0)) + rexp(2)
            kind = 's'
            r.shuffle(args)
        nsub = r.randint(0, 2) if k % 6 != 5 else r.choice([9, 12])
        sub = {a: r.uniform(.2, 1.4) for a in args[:nsub]}
        args = args[nsub:]
        t.case(expr=e, args=args, subs=sub)
        f = lam(tuple(args), e, subs=dict(sub) if sub or r.random() < .5 else None, theano=False)
        for rep in range(3):
            env = {a: r.uniform(-1.5, 1.5) for a in args}
            call = [env[a] for a in args]
            for a in list(sub)[::-1]:
                env[a] = fev(sp.sympify(sub[a]), env)
            got = f(*call)
            shape, vals = want(e, env)
            t.eq(tuple(np.shape(got)), shape, 'shape')
            for p, q in zip(flat(got), vals):
                t.check(abs(p - q) <= 1e-9 * (1 + abs(q)), 'value', got=flat(got), expected=vals, env=env)
        used = set().union(*[sp.sympify(x).subs(sub).free_symbols for x in (e if kind != 's' else [e])]) & set(args)
        if used:
            s = sorted(used, key=str)[0]
            t.raises('expressions with unassigned symbols are rejected', Exception, lam, tuple(a for a in args if a != s), e,
                     subs=dict(sub) if sub else None, theano=False)


@obligation('C17', 'argument_lists', '200 (1000) random symbol sets: ordered arguments and positions', ['find', 'free_symbols', 'geteval'])
def argument_lists(t):
    find, geteval = t.imp('pyphs.misc.tools', 'find', 'geteval')
    fsym = t.imp('pyphs.core.tools', 'free_symbols')
    for k in range(t.pick(200, 1000)):
        al = [S('s%d' % i) for i in range(t.rng.randint(0, 7))]
        t.rng.shuffle(al)
        sub = set(t.rng.sample(al, t.rng.randint(0, len(al))) + ([S('zz')] if t.rng.random() < .3 else []))
        t.case(symbols=sub, all=al)
        a, i = find(sub, al)
        t.eq(list(a), [s for s in al if s in sub], 'ordered arguments')
        t.eq(list(i), [n for n, s in enumerate(al) if s in sub], 'positions')
        L = sorted(sub, key=str)
        ex = sum([s**2 for s in L], sp.Integer(1))
        t.eq(set(fsym(ex)), set(L), 'symbols of an expression')
        t.eq(set(fsym([ex, sp.Integer(2)])), set(L), 'symbols of a list')
        t.eq(set(fsym(sp.SparseMatrix([[ex, 0], [1, 2]]))), set(L), 'symbols of a matrix')

    class O(object):
        a = 3

        def b(self):
            return 4
    O.c = S('qq')
    t.eq([geteval(O(), n) for n in 'abc'], [3, 4, S('qq')], 'values and evaluations of attributes')


@obligation('C17', 'method_evaluations', '4 (16) methods: numerical functions of the method (implicit function, Jacobian, outputs ...) '
            'against the symbolic expressions', ['Evaluation', 'Method', 'Numeric'], limit=200)
def method_evaluations(t):
    Ev = evaluator(t)
    pyphs = t.imp('pyphs', 'Method')
    for k in range(t.pick(4, 16)):
        nx, nw, ny = t.rng.choice([(1, 1, 1), (2, 1, 1), (2, 0, 1)])
        c, d = rand_core(t.rng, nx, nw, ny, state_dep=True, npar=t.rng.choice([0, 1]), obs=True, couple=True)
        m = c.to_method(config={'grad': t.rng.choice(['discret', 'theta', 'trapez'])})
        names = [n for n in ('y', 'dxH', 'z', 'ijactempFll', 'tempFll', 'Fll', 'jactempFll', 'ud_x', 'Gl', 'jacFnlvnl', 'Fnl', 'Gnl')
                 if hasattr(m, n)]
        t.case(names=names, H=d['H'])
        geteval = t.imp('pyphs.misc.tools', 'geteval')
        ok = []
        for n in names:
            try:
                v = geteval(m, n)
            except Exception:     # noqa
                continue
            if isinstance(v, (list, sp.MatrixBase, sp.Expr)):
                ok.append(n)
        if not ok:
            raise Skip('no expression')
        for n in ok:
            ref = geteval(m, n)
            sub = {s: float(v) for s, v in m.subs.items()}
            items = list(ref) if isinstance(ref, (list, sp.MatrixBase)) else [ref]
            fs = set().union(set(), *[sp.sympify(x).free_symbols for x in items])
            if not fs <= set(list(m.args()) + list(sub)):
                continue
            f, a, i = Ev.expr_to_numeric(m, n, m.args(), theano=False, vectorize=False)
            for rep in range(2):
                env = {s: t.rng.uniform(.2, 1.2) for s in m.args()}
                env.update(sub)
                if isinstance(ref, sp.MatrixBase) and 0 in ref.shape:
                    continue
                got = f(*[env[s] for s in a])
                shape, vals = want(ref, env)
                for p, q in zip(flat(got), vals):
                    t.check(abs(p - q) <= 1e-8 * (1 + abs(q)), 'value of %s' % n, got=flat(got), expected=vals)
                t.eq(len(flat(got)), len(vals), 'size of %s' % n)
