"""builders and oracles shared by the run-time contract suites (independent of pyphs' own algebra)"""
import itertools
import random
from fractions import Fraction

import sympy as sp


def S(name):
    return sp.Symbol(name, real=True)


def syms(pre, n, off=0):
    return [S('%s%d' % (pre, i + 1 + off)) for i in range(n)]


def new_core():
    import pyphs
    return pyphs.Core()


def mk_core(nx, nw, ny, ncy=0, M='code', rng=None, H=None, z=None, pre='', xl=0, wl=0):
    """core with nx storages ... and a structure matrix of the requested kind"""
    c = new_core()
    x, w = syms('x' + pre, nx), syms('w' + pre, nw)
    u, y = syms('u' + pre, ny), syms('y' + pre, ny)
    cu, cy = syms('cu' + pre, ncy), syms('cy' + pre, ncy)
    if H is None:
        H = sum([xi**2 * (i + 1) / sp.Integer(2) for i, xi in enumerate(x)], sp.Integer(0))
    else:
        H = H(x)
    if z is None:
        z = [wi * (i + 2) for i, wi in enumerate(w)]
    else:
        z = z(w)
    if nx:
        c.add_storages(list(x), sp.sympify(H))
    if nw:
        c.add_dissipations(list(w), list(z))
    if ny:
        c.add_ports(list(u), list(y))
    c.cu, c.cy = cu, cy
    n = nx + nw + ny + ncy
    c.M = sp.SparseMatrix(mat(n, M, rng))
    c.dims._xl = xl
    c.dims._wl = wl
    return c


def mat(n, kind, rng=None):
    if kind == 'code':
        return sp.Matrix(n, n, lambda i, j: sp.Integer(100 * (i + 1) + (j + 1)))
    if kind == 'sym':
        return sp.Matrix(n, n, lambda i, j: S('m_%d_%d' % (i, j)))
    if kind == 'zero':
        return sp.zeros(n)
    r = rng or random.Random(1)
    A = [[sp.Integer(r.randint(-3, 3)) for _ in range(n)] for _ in range(n)]
    if kind == 'skew':
        return sp.Matrix(n, n, lambda i, j: A[i][j] if i < j else (-A[j][i] if i > j else 0))
    if kind == 'int':
        return sp.Matrix(n, n, lambda i, j: A[i][j])
    if kind == 'skewR':        # skew + a resistive part
        return sp.Matrix(n, n, lambda i, j: A[i][j] if i < j else (-A[j][i] if i > j else -abs(A[i][i])))
    raise ValueError(kind)


BLK = ('x', 'w', 'y', 'cy')


def block_range(c, name):
    """row range of a named block, computed from the lists alone"""
    nx, nw, ny, ncy = len(c.x), len(c.w), len(c.y), len(c.cy)
    xl, wl = c.dims._xl, c.dims._wl
    tab = {'x': (0, nx), 'xl': (0, xl), 'xnl': (xl, nx),
           'w': (nx, nx + nw), 'wl': (nx, nx + wl), 'wnl': (nx + wl, nx + nw),
           'y': (nx + nw, nx + nw + ny), 'cy': (nx + nw + ny, nx + nw + ny + ncy)}
    return tab[name]


def rows(m):
    m = sp.Matrix(m)
    return [[m[i, j] for j in range(m.shape[1])] for i in range(m.shape[0])]


def sub_rows(R, a, b, c, d):
    return [r[c:d] for r in R[a:b]]


def all_dims(maxs):
    return itertools.product(*[range(m + 1) for m in maxs])


def rval(rng, lo=-5, hi=5, den=3):
    return sp.Rational(rng.randint(lo * den, hi * den), den)


def nz(rng):
    while True:
        v = rval(rng)
        if v != 0:
            return v


def ev(e, sub):
    """value of an expression (or number) at a valuation"""
    e = sp.sympify(e)
    r = e.subs(sub) if not isinstance(sub, list) else e.subs(sub)
    r = sp.sympify(r)
    if r.free_symbols:
        return r
    return r


def evn(e, sub):
    return complex(sp.N(sp.sympify(e).subs(sub), 25))


def same_value(a, b, rng, trials=3, tol=1e-8, positive=True, extra=None):
    """numeric identity test of two expressions at random valuations"""
    a, b = sp.sympify(a), sp.sympify(b)
    if a == b:
        return True
    fs = sorted(a.free_symbols | b.free_symbols, key=str)
    for _ in range(trials):
        sub = {s: sp.Float(rng.uniform(0.2, 2.0) if positive else rng.uniform(-2, 2), 30) for s in fs}
        if extra:
            sub.update(extra)
        try:
            va, vb = complex(sp.N(a.subs(sub), 20)), complex(sp.N(b.subs(sub), 20))
        except TypeError:
            return False
        if not abs(va - vb) <= tol * (1 + abs(va) + abs(vb)):
            return False
    return True


def relation_of(c):
    """dict row-symbol-name -> {col-symbol-name: M entry}, the structure as a labelled relation"""
    lab = [str(s) for s in list(c.x) + list(c.w) + list(c.y) + list(c.cy)]
    R = rows(c.M) if c.M.shape[0] else []
    out = {}
    for i, a in enumerate(lab):
        for j, b in enumerate(lab):
            out[(a, b)] = R[i][j] if R else sp.Integer(0)
    return out


def solve_lin(A, b):
    """exact solve with Fractions/sympy rationals; None if singular"""
    n = len(A)
    M = [list(map(sp.sympify, A[i])) + [sp.sympify(b[i])] for i in range(n)]
    for k in range(n):
        p = next((i for i in range(k, n) if M[i][k] != 0), None)
        if p is None:
            return None
        M[k], M[p] = M[p], M[k]
        for i in range(n):
            if i != k and M[i][k] != 0:
                f = M[i][k] / M[k][k]
                M[i] = [x - f * y for x, y in zip(M[i], M[k])]
    return [M[i][n] / M[i][i] for i in range(n)]


def matvec(R, v):
    return [sum([a * b for a, b in zip(r, v)], sp.Integer(0)) for r in R]


def is_skew(M):
    R = rows(M)
    return all(sp.nsimplify(R[i][j] + R[j][i]) == 0 for i in range(len(R)) for j in range(len(R)))


import math

_F = {'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'sinh': math.sinh,
      'cosh': math.cosh, 'tanh': math.tanh, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos,
      'asinh': math.asinh, 'Abs': abs, 'sign': lambda x: (x > 0) - (x < 0), 'Max': max, 'Min': min,
      'floor': math.floor, 'ceiling': math.ceil, 'atan2': math.atan2,
      'Heaviside': lambda x: 0.0 if x < 0 else (1.0 if x > 0 else 0.5)}


def fev(e, env):
    """independent float evaluator of a sympy expression; env: symbol -> number (missing symbol: KeyError)"""
    if isinstance(e, (int, float)):
        return float(e)
    if isinstance(e, sp.Symbol):
        return env[e]
    if e.is_Number:
        return float(e)
    if isinstance(e, sp.Add):
        return math.fsum([fev(a, env) for a in e.args])
    if isinstance(e, sp.Mul):
        r = 1.0
        for a in e.args:
            r *= fev(a, env)
        return r
    if isinstance(e, sp.Pow):
        b, x = fev(e.args[0], env), e.args[1]
        if x.is_Integer:
            return b ** int(x) if (b or int(x) >= 0) else float('inf')
        return b ** fev(x, env)
    if isinstance(e, sp.Piecewise):
        for v, c in e.args:
            if bev(c, env):
                return fev(v, env)
        raise ValueError('no branch')
    if e.is_NumberSymbol:
        return float(e)
    n = type(e).__name__
    if n in _F:
        return float(_F[n](*[fev(a, env) for a in e.args]))
    raise NotImplementedError(n)


def bev(c, env):
    if c == True or c == False:       # noqa
        return bool(c)
    if isinstance(c, sp.And):
        return all(bev(a, env) for a in c.args)
    if isinstance(c, sp.Or):
        return any(bev(a, env) for a in c.args)
    if isinstance(c, sp.Not):
        return not bev(c.args[0], env)
    a, b = fev(c.args[0], env), fev(c.args[1], env)
    return {'StrictLessThan': a < b, 'LessThan': a <= b, 'StrictGreaterThan': a > b, 'GreaterThan': a >= b,
            'Equality': a == b, 'Unequality': a != b}[type(c).__name__]


def fmat(m, env):
    return [[fev(sp.sympify(x), env) for x in r] for r in rows(m)]


def fsolve(A, b):
    """float Gaussian elimination with partial pivoting; None if (nearly) singular"""
    n = len(A)
    M = [list(map(float, A[i])) + [float(b[i])] for i in range(n)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(M[i][k]))
        if abs(M[p][k]) < 1e-12:
            return None
        M[k], M[p] = M[p], M[k]
        for i in range(n):
            if i != k and M[i][k] != 0:
                f = M[i][k] / M[k][k]
                M[i] = [x - f * y for x, y in zip(M[i], M[k])]
    return [M[i][n] / M[i][i] for i in range(n)]


# ---------------------------------------------------------------- random models

def rand_H(rng, x, kinds=None, couple=True):
    """energy, separable terms of mixed kinds plus optional couplings; returns expression"""
    H = sp.Integer(0)
    ks = []
    for i, xi in enumerate(x):
        k = (kinds or rng.choice)(['quad', 'quad', 'quart', 'cosh', 'soft', 'affine']) if kinds is None else kinds[i]
        ks.append(k)
        a = sp.Rational(rng.randint(1, 6), 4)
        if k == 'quad':
            H += a * xi**2 / 2
        elif k == 'affine':
            H += a * xi**2 / 2 + xi * sp.Rational(1, 3)
        elif k == 'quart':
            H += a * xi**4 / 4 + xi**2 / 2
        elif k == 'cosh':
            H += a * (sp.cosh(xi) - 1)
        elif k == 'soft':
            H += a * sp.log(1 + xi**2) + xi**2 / 2
    if couple:
        for i in range(len(x)):
            for j in range(i):
                r = rng.random()
                if r < .2:
                    H += x[i] * x[j] * sp.Rational(rng.randint(1, 3), 8)
                elif r < .3:
                    H += x[i]**2 * x[j]**2 / 4
    return H


def param_chain(t, c, d):
    """scale the energy and the first law by parameters stored as a chain of expressions; d keeps the plain meaning"""
    r = t.rng
    a, b, e = S('kap'), S('lam'), S('mul')
    c.subs.update({a: 2 * b + 1, b: e / 2, e: r.choice([1.5, 3., 1])})
    v = sp.Rational(c.subs[e])
    va, vb = v + 1, v / 2
    c.H, d['H'] = sp.sympify(c.H) * a, sp.sympify(d['H']) * va
    if d['z']:
        k = r.randrange(len(d['z']))
        c.z[k] = c.z[k] * b
        d['z'][k] = d['z'][k] * vb
    M = sp.Matrix(c.M)
    n = M.shape[0]
    if n > 1:
        M[0, n - 1], M[n - 1, 0] = M[0, n - 1] * e, M[n - 1, 0] * e
        D = sp.Matrix(d['M'])
        D[0, n - 1], D[n - 1, 0] = D[0, n - 1] * v, D[n - 1, 0] * v
        c.M, d['M'] = sp.SparseMatrix(M), D


def rand_core(rng, nx, nw, ny, state_dep=False, couple=True, kinds=None, nlz=True, npar=0, obs=False, gdep=False, res=False):
    """a random passive-looking core; returns (core, plain dict of its definition)"""
    c = new_core()
    x, w = syms('x', nx), syms('w', nw)
    u, y = syms('u', ny), syms('y', ny)
    H = rand_H(rng, x, couple=couple, kinds=kinds)
    z = []
    p = syms('p', npar)
    for i, wi in enumerate(w):
        a = sp.Rational(rng.randint(1, 6), 4)
        k = rng.choice(['lin', 'cub', 'tanh', 'xmod']) if nlz else 'lin'
        if k == 'xmod' and not (state_dep and nx):
            k = 'lin'
        z.append({'lin': a * wi, 'cub': a * wi + wi**3, 'tanh': a * wi + sp.tanh(wi),
                  'xmod': a * wi * (1 + x[0]**2 if nx else 1)}[k])
    if p and z:
        z[0] = z[0] + p[0] * w[0]
    if nx:
        c.add_storages(list(x), sp.sympify(H))
    if nw:
        c.add_dissipations(list(w), z)
    if ny:
        c.add_ports(list(u), list(y))
    if p:
        c.add_parameters(list(p))
    n = nx + nw + ny
    M = sp.zeros(n)
    g = list(c.g()) if gdep else []
    for i in range(n):
        for j in range(i):
            v = sp.Rational(rng.randint(-3, 3), rng.choice([1, 2]))
            if state_dep and nx and rng.random() < .3:
                v = v * (1 + x[rng.randrange(nx)] / 2)
            if g and rng.random() < .3:
                v = v + g[rng.randrange(nx)] / 4
            if p and rng.random() < .2:
                v = v * p[-1]
            M[i, j] = v
            M[j, i] = -v
        if rng.random() < .25 and i < nx:
            M[i, i] = -sp.Rational(rng.randint(0, 2), 4)
    if res and n:
        # a symmetric dissipative part over every variable: -L.L^T
        L = [[sp.Rational(rng.choice([0, 0, 1, -1, 2]), 4) for _ in range(2)] for _ in range(n)]
        for i in range(n):
            for j in range(n):
                M[i, j] -= sum([L[i][k] * L[j][k] for k in range(2)], sp.Integer(0))
    c.M = sp.SparseMatrix(M)
    if obs and nx:
        o = S('ob1')
        c.add_observer({o: x[0]**2 + (w[0] if nw else 0)})
    d = dict(x=list(x), w=list(w), u=list(u), y=list(y), p=list(p), H=H, z=list(z), M=sp.Matrix(M), g=g)
    return c, d


class TooLong(Exception):
    pass


def timed(fn, secs):
    """run fn() for at most secs seconds (nested in the obligation's own alarm); TooLong when exceeded"""
    import signal
    import time
    old = signal.getsignal(signal.SIGALRM)
    rem = signal.getitimer(signal.ITIMER_REAL)[0]
    t0 = time.time()

    def on(*a):
        raise TooLong()
    signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if rem:
            signal.setitimer(signal.ITIMER_REAL, max(.01, rem - (time.time() - t0)))
