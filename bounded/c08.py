import math
import sympy as sp
from fw import obligation
from lib import *

FN = [lambda a, b: a * b, lambda a, b: a**2 + b, lambda a, b: sp.sin(a) * b, lambda a, b: sp.exp(a / 4) - b**3,
      lambda a, b: a / (1 + b**2), lambda a, b: sp.Rational(3, 2) * a - 2 * b]


def rexpr(rng, vs, n=3):
    e = sp.Integer(0)
    for _ in range(n):
        e += rng.choice(FN)(rng.choice(vs), rng.choice(vs)) * rng.randint(-3, 3)
    return e


def env_for(rng, ss, lo=-1.2, hi=1.2):
    return {s: rng.uniform(lo, hi) for s in ss}


def nderiv(f, env, s, h=1e-5):
    a, b = dict(env), dict(env)
    a[s] += h
    b[s] -= h
    return (fev(f, a) - fev(f, b)) / (2 * h)


@obligation('C08', 'calculus', 'gradient, hessian, jacobian of random expressions, up to 4 variables and 3 functions; '
            'oracle: central finite differences of an independent evaluator', ['gradient', 'hessian', 'jacobian'])
def calc(t):
    grad, hess, jac = t.imp('pyphs.core.maths', 'gradient', 'hessian', 'jacobian')
    for _ in range(t.pick(25, 150)):
        nv, nf = t.rng.randint(0, 4), t.rng.randint(0, 3)
        vs = syms('v', nv)
        par = syms('q', 2)
        fs = [sp.sympify(rexpr(t.rng, vs + par)) for _ in range(nf)]
        f = sp.sympify(rexpr(t.rng, vs + par))
        t.case(f=f, fs=fs, vars=vs)
        env = env_for(t.rng, vs + par)
        orig = (f, list(fs), list(vs))
        g = grad(f, vs)
        t.eq(len(g), nv, 'gradient length')
        for i, v in enumerate(vs):
            t.close(fev(sp.sympify(g[i]), env), nderiv(f, env, v), 'gradient entry i is the derivative w.r.t. variable i', 1e-5, i=i)
        H = hess(f, vs)
        t.eq(tuple(H.shape), (nv, nv), 'hessian shape')
        for i in range(nv):
            for j in range(nv):
                t.close(fev(H[i, j], env), nderiv(sp.diff(f, vs[i]), env, vs[j]), 'hessian entry', 1e-5, ij=(i, j))
        J = jac(fs, vs)
        t.eq(tuple(J.shape), (nf, nv), 'jacobian shape')
        for i in range(nf):
            for j in range(nv):
                t.close(fev(J[i, j], env), nderiv(fs[i], env, vs[j]), 'jacobian entry (row: function, column: variable)',
                        1e-5, ij=(i, j))
        t.eq((f, fs, vs), orig, 'arguments left unchanged')
        gs = grad(f, vs, simplify=True)
        for i, v in enumerate(vs):
            t.close(fev(sp.sympify(gs[i]), env), nderiv(f, env, v), 'simplified gradient has the same value', 1e-5)
    for _ in range(t.pick(12, 60)):
        vs = syms('v', 2)
        fs = [rexpr(t.rng, vs) + t.rng.randint(1, 3) * sp.Abs(vs[0])**t.rng.choice([1, 3]) - sp.Abs(vs[1] * vs[0] + 2),
              sp.Abs(vs[0]) * vs[1] + sp.Piecewise((vs[1]**2, vs[0] < 0), (vs[1], True))]
        t.case(fs=fs, vars=vs)
        env = {v: t.rng.choice([-1, 1]) * t.rng.uniform(.2, 1.2) for v in vs}
        J = jac(fs, vs)
        for i, f in enumerate(fs):
            g = grad(f, vs)
            for j, v in enumerate(vs):
                t.close(fev(sp.sympify(g[j]), env), nderiv(f, env, v), 'gradient of an energy with absolute values', 1e-5)
                t.close(fev(J[i, j], env), nderiv(f, env, v), 'jacobian of functions with absolute values', 1e-5)


@obligation('C08', 'linear_algebra', 'matvecprod, sumvecs, inverse on random matrices up to 4x4, symbolic and rational',
            ['matvecprod', 'sumvecs', 'inverse'])
def linalg(t):
    mvp, sv, inv = t.imp('pyphs.core.maths', 'matvecprod', 'sumvecs', 'inverse')
    for _ in range(t.pick(50, 300)):
        m, n = t.rng.randint(0, 4), t.rng.randint(0, 4)
        A = sp.Matrix(m, n, lambda i, j: rval(t.rng) + (S('q1') if t.rng.random() < .2 else 0))
        v = [rval(t.rng) for _ in range(n)]
        t.case(A=rows(A), v=v)
        if m and n or (m and not n):
            r = mvp(sp.SparseMatrix(A), v)
            t.eq(len(r), m, 'matrix-vector product length')
            for i in range(m):
                e = sum([A[i, j] * v[j] for j in range(n)], sp.Integer(0))
                t.check(sp.expand(r[i] - e) == 0, 'matrix-vector product entry', i=i)
            t.raises('a vector of the wrong length is rejected', Exception, mvp, sp.SparseMatrix(A), v + [sp.Integer(1)])
        k = t.rng.randint(1, 4)
        vs = [[rval(t.rng) for _ in range(n)] for _ in range(k)]
        keep = [list(a) for a in vs]
        s = sv(*vs)
        t.eq(list(s), [sum([a[i] for a in keep], sp.Integer(0)) for i in range(n)], 'sum of vectors')
        t.eq(vs, keep, 'arguments of sumvecs left unchanged')
        q = t.rng.randint(1, 4)
        kind = t.rng.choice(['any', 'sym', 'skew'])
        B = sp.Matrix(q, q, lambda i, j: sp.Integer(t.rng.randint(-2, 2)))
        if kind == 'sym':
            B = B + B.T
        elif kind == 'skew':
            B = B - B.T
        if B.det() != 0:
            iB = sp.Matrix(inv(sp.SparseMatrix(B)))
            t.eq(B * iB, sp.eye(q), 'inverse is an inverse', B=rows(B))
        else:
            t.raises('singular matrices are rejected', Exception, inv, sp.SparseMatrix(B))


def dH(H, x, dx, env):
    e = dict(env)
    for a, b in zip(x, dx):
        e[a] = env[a] + env[b]
    return fev(H, e) - fev(H, env)


def zero_of(env, dx, v=0.0):
    e = dict(env)
    for d in dx:
        e[d] = v
    return e


@obligation('C08', 'discrete_gradient_separable', 'random separable energies, up to 4 states, increments of both signs',
            ['discrete_gradient_monovar'])
def mono(t):
    f = t.imp('pyphs.numerics.numerical_method._discrete_calculus', 'discrete_gradient_monovar')
    for k in range(t.pick(40, 300)):
        n = t.rng.randint(1, 4)
        x, dx = syms('x', n), syms('dx', n)
        H = rand_H(t.rng, x, couple=False)
        tol = t.rng.choice([None, 1e-3, 1e-8])
        t.case(H=H, numtol=tol)
        g = f(H, x, dx) if tol is None else f(H, x, dx, tol)
        t.eq(len(g), n, 'one entry per state')
        for _ in range(4):
            env = env_for(t.rng, x)
            for d in dx:
                env[d] = t.rng.choice([-1, 1]) * t.rng.uniform(.01, .8)
            gv = [fev(e, env) for e in g]
            t.close(sum(a * env[d] for a, d in zip(gv, dx)), dH(H, x, dx, env), 'discrete gradient . increment = energy '
                    'difference', 1e-9, env=env)
            for i in range(n):
                t.close(gv[i] * env[dx[i]], dH(H, [x[i]], [dx[i]], env), 'component identity', 1e-9, env=env)
            if tol:      # just above the threshold, both signs
                for sg in (1, -1):
                    e2 = dict(env)
                    i = t.rng.randrange(n)
                    e2[dx[i]] = sg * tol * 1.5
                    if tol >= 1e-3:
                        t.close(fev(g[i], e2) * e2[dx[i]], dH(H, [x[i]], [dx[i]], e2), 'identity just above the threshold',
                                1e-12, env=e2)
            for v in (0.0, 1e-5, -1e-5):
                e0 = zero_of(env, dx, v)
                for i in range(n):
                    t.close(fev(g[i], e0), fev(sp.diff(H, x[i]), e0), 'tends to the gradient for vanishing increments',
                            2e-4, env=e0)


@obligation('C08', 'discrete_gradient_nonseparable', 'random coupled energies, up to 4 states',
            ['discrete_gradient_multivar', 'gradient_theta'])
def multi(t):
    f = t.imp('pyphs.numerics.numerical_method._discrete_calculus', 'discrete_gradient_multivar')
    for k in range(t.pick(40, 300)):
        n = t.rng.randint(1, 4)
        x, dx = syms('x', n), syms('dx', n)
        H = rand_H(t.rng, x, couple=True)
        if n > 1:
            H += x[0]**2 * x[-1]**2 / 3
        tol = t.rng.choice([None, 1e-3])
        t.case(H=H, numtol=tol)
        g = f(H, x, dx) if tol is None else f(H, x, dx, tol)
        t.eq(len(g), n, 'one entry per state')
        for _ in range(4):
            env = env_for(t.rng, x)
            for d in dx:
                env[d] = t.rng.choice([-1, 1]) * t.rng.uniform(.01, .8)
            if t.rng.random() < .3:
                env[t.rng.choice(dx)] = 0.0
            gv = [fev(e, env) for e in g]
            if any(env[d] for d in dx):
                t.close(sum(a * env[d] for a, d in zip(gv, dx)), dH(H, x, dx, env), 'discrete gradient . increment = '
                        'energy difference', 1e-9, env=env)
            if tol:
                e2 = zero_of(env, dx, 0.0)
                e2[dx[0]] = -2 * tol
                gv = [fev(e, e2) for e in g]
                t.close(sum(a * e2[d] for a, d in zip(gv, dx)), dH(H, x, dx, e2), 'identity just above the threshold',
                        1e-12, env=e2)
            for v in (0.0, 1e-5, -1e-5):
                e0 = zero_of(env, dx, v)
                for i in range(n):
                    t.close(fev(g[i], e0), fev(sp.diff(H, x[i]), e0), 'tends to the gradient', 2e-4, env=e0)


@obligation('C08', 'theta_trapez', 'random coupled energies, up to 4 states, theta in {0, .3, .5, 1}',
            ['gradient_theta', 'gradient_trapez'])
def theta(t):
    ft, fz = t.imp('pyphs.numerics.numerical_method._discrete_calculus', 'gradient_theta', 'gradient_trapez')
    for k in range(t.pick(40, 300)):
        n = t.rng.randint(1, 4)
        x, dx = syms('x', n), syms('dx', n)
        H = rand_H(t.rng, x, couple=True)
        th = t.rng.choice([0., .3, .5, 1.])
        t.case(H=H, theta=th)
        env = env_for(t.rng, x + dx)
        at = lambda a: {**env, **{s: env[s] + a * env[d] for s, d in zip(x, dx)}}
        g = ft(H, x, dx, th)
        g2 = fz(H, x, dx)
        for i in range(n):
            d = sp.diff(H, x[i])
            t.close(fev(sp.sympify(g[i]), env), fev(d, at(th)), 'gradient at the theta point', 1e-10)
            t.close(fev(sp.sympify(g2[i]), env), (fev(d, at(0)) + fev(d, at(1))) / 2, 'mean of the gradients at both '
                    'ends', 1e-10)


@obligation('C08', 'method_gradient', 'methods built from random cores (up to 4 states, linear/nonlinear, coupled or not, '
            'structure depending on the state or not), splitting on and off, theta in {0,.5}',
            ['Method', 'build_gradient_evaluation', 'Core.linear_nonlinear', 'Core.monovar_multivar'], limit=250)
def meth(t):
    Method = t.imp('pyphs', 'Method')
    for k in range(t.pick(26, 160)):
        nx, nw, ny = t.rng.randint(1, 4), t.rng.randint(0, 2), t.rng.randint(0, 2)
        if t.rng.random() < .15:
            nx, nw, ny = 1, 0, 1
        sd = t.rng.random() < .4
        c, d = rand_core(t.rng, nx, nw, ny, state_dep=sd, couple=t.rng.random() < .7)
        cfg = dict(split=t.rng.choice([True, True, False]), theta=t.rng.choice([0., .5]), grad='discret')
        t.case(H=d['H'], z=d['z'], M=rows(d['M']), config=cfg)
        m = Method(c, config=cfg)
        x, dx = list(m.x), list(m.dx())
        t.eq([str(s) for s in dx], ['d' + str(s) for s in x], 'increment symbols follow the states')
        g = m.dxH()
        t.eq(len(g), nx, 'one gradient entry per state')
        for _ in range(3):
            env = env_for(t.rng, x)
            for q in dx:
                env[q] = t.rng.choice([-1, 1]) * t.rng.uniform(.05, .8)
            t.close(sum(fev(e, env) * env[q] for e, q in zip(g, dx)), dH(d['H'], x, dx, env),
                    'the discrete gradient of the method closes the energy balance', 1e-8, env=env, x=x, dxH=g)
            for v in (0.0, 1e-5):
                e0 = zero_of(env, dx, v)
                for i in range(nx):
                    t.close(fev(g[i], e0), fev(sp.diff(d['H'], x[i]), e0), 'entry i tends to the derivative w.r.t. '
                            'state i', 2e-4, i=i, x=x)


@obligation('C08', 'method_theta_trapez', 'methods with theta and trapezoidal gradients from random cores',
            ['Method', 'build_gradient_evaluation'], limit=200)
def meth2(t):
    Method = t.imp('pyphs', 'Method')
    for k in range(t.pick(16, 90)):
        nx, nw, ny = t.rng.randint(1, 3), t.rng.randint(0, 1), t.rng.randint(0, 1)
        c, d = rand_core(t.rng, nx, nw, ny, couple=t.rng.random() < .7)
        gr = t.rng.choice(['theta', 'trapez'])
        cfg = dict(split=t.rng.choice([True, False]), theta=t.rng.choice([0., .5, 1.]), grad=gr)
        t.case(H=d['H'], config=cfg)
        m = Method(c, config=cfg)
        x, dx = list(m.x), list(m.dx())
        g = m.dxH()
        env = env_for(t.rng, x + dx)
        at = lambda a: {**env, **{s: env[s] + a * env[q] for s, q in zip(x, dx)}}
        for i in range(nx):
            q = sp.diff(d['H'], x[i])
            e = fev(q, at(cfg['theta'])) if gr == 'theta' else (fev(q, at(0)) + fev(q, at(1))) / 2
            t.close(fev(sp.sympify(g[i]), env), e, '%s gradient of the method' % gr, 1e-9)
    c, d = rand_core(t.rng, 1, 0, 0)
    t.raises('unknown gradient method rejected', Exception, Method, c, config={'grad': 'nope'})
    t.raises('unknown configuration key rejected', Exception, Method, c, config={'nope': 1})
