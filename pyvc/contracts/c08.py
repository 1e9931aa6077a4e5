"""C08 - gradients and discrete gradients."""
from ..spec import *

CA = 'pyphs/core/maths/_calculus.py'
DC = 'pyphs/numerics/numerical_method/_discrete_calculus.py'


def energy(name='H'):
    """an arbitrary function of the valuation of all symbols"""
    Hf = z3.Const(ctx().name(name), D.FunSort)
    H = SExpr(lambda v: D.APP(Hf, v))
    H.fun = Hf
    return H


def dif(H, s):
    return H.diff(SSym(s))


@contract('C08.gradient', [CA + ':gradient'], note='gradient(H, x)[i] is the derivative of H with respect to x[i], any length')
def gradient(L):
    f = L.load('pyphs.core.maths._calculus').gradient
    n = fresh_int('n', 0)
    x, xf = fresh_symlist('x', n, distinct=False)
    H = energy()
    g = returns_normally('total', lambda: f(H, x))
    forall_elem('entries', g, n.e, lambda i: dif(H, xf(i)))
    cover('end')


def exprs(name, n):
    """list of n functions of the valuation, differentiable as objects"""
    F = z3.Function(ctx().name(name), z3.IntSort(), D.FunSort)

    def at(i):
        e = SExpr(lambda v: D.APP(F(i), v))
        e.fun = F(i)
        return e
    return VList.sym(zint(n), at), at


@contract('C08.jacobian', [CA + ':jacobian'], note='jacobian(f, x)[i, j] is the derivative of f[i] with respect to x[j], any shape')
def jacobian(L):
    f = L.load('pyphs.core.maths._calculus').jacobian
    n, m = fresh_int('n', 1), fresh_int('m', 1)
    x, xf = fresh_symlist('x', n, distinct=False)
    fs, at = exprs('f', m)
    J = returns_normally('total', lambda: f(fs, x))
    forall_entry('entries', J, m.e, n.e, lambda i, j: at(i).diff(SSym(xf(j))))
    cover('end')


@contract('C08.hessian', [CA + ':hessian', CA + ':gradient', CA + ':jacobian'])
def hessian(L):
    f = L.load('pyphs.core.maths._calculus').hessian
    n = fresh_int('n', 1)
    x, xf = fresh_symlist('x', n, distinct=False)
    H = energy()
    J = returns_normally('total', lambda: f(H, x))
    forall_entry('entries', J, n.e, n.e, lambda i, j: dif(H, xf(i)).diff(SSym(xf(j))))
    cover('end')


def states(n):
    x, xf = fresh_symlist('x', n, distinct=True)
    dx, df = fresh_symlist('dx', n, distinct=True)
    i, j = z3.Ints('pi pj')
    assume(z3.ForAll([i, j], xf(i) != df(j), patterns=[z3.MultiPattern(xf(i), df(j))]))
    return x, xf, dx, df


@contract('C08.discrete_gradient_monovar', [DC + ':discrete_gradient_monovar'],
          note='any energy, any number of states: discrete balance along each coordinate, second order expansion below the threshold')
def dg_mono(L):
    f = L.load('pyphs.numerics.numerical_method._discrete_calculus').discrete_gradient_monovar
    n = fresh_int('n', 1)
    x, xf, dx, df = states(n)
    H = energy()
    tol = SReal(z3.Const('numtol', z3.RealSort()))
    assume(tol.e > 0)
    g = returns_normally('total', lambda: f(H, x, dx, tol))
    v = valuation()
    prove('length', D.as_vlist(g).zlen() == n.e)
    i = skolem('i')
    assume(in_range(i, n.e))
    gi = zden(D.as_vlist(g).getter()(i))(v)
    d = z3.Select(v, df(i))
    vp = z3.Store(v, xf(i), z3.Select(v, xf(i)) + d)
    big = z3.Or(d >= tol.e, d < -tol.e)
    prove('balance', z3.Implies(big, gi * d == zden(H)(vp) - zden(H)(v)))
    h1 = dif(H, xf(i))
    prove('expansion', z3.Implies(z3.Not(big), gi == zden(h1)(v) + z3.Q(1, 2) * zden(h1.diff(SSym(xf(i))))(v) * d))
    prove('limit', z3.Implies(d == 0, gi == zden(h1)(v)))
    cover('end')


def at_point(H, x, xf, dx, df, n, theta):
    """H evaluated at x + theta*dx"""
    sub = VDict()
    sub.fam.append((n.e, lambda i: SSym(xf(i)), lambda i: SSym(xf(i)) + theta * SSym(df(i))))
    return H.subs(sub)


@contract('C08.gradient_theta', [DC + ':gradient_theta', CA + ':gradient'], note='gradient at x + theta*dx, any theta and length')
def g_theta(L):
    f = L.load('pyphs.numerics.numerical_method._discrete_calculus').gradient_theta
    n = fresh_int('n', 0)
    x, xf, dx, df = states(n)
    H = energy()
    th = SReal(z3.Const('theta', z3.RealSort()))
    g = returns_normally('total', lambda: f(H, x, dx, theta=th))
    forall_elem('entries', g, n.e, lambda i: at_point(dif(H, xf(i)), x, xf, dx, df, n, th))
    cover('end')


@contract('C08.gradient_trapez', [DC + ':gradient_trapez', CA + ':gradient'], note='mean of the gradients at both ends')
def g_trapez(L):
    f = L.load('pyphs.numerics.numerical_method._discrete_calculus').gradient_trapez
    n = fresh_int('n', 0)
    x, xf, dx, df = states(n)
    H = energy()
    g = returns_normally('total', lambda: f(H, x, dx))
    forall_elem('entries', g, n.e, lambda i: 0.5 * (dif(H, xf(i)) + at_point(dif(H, xf(i)), x, xf, dx, df, n, 1)))
    cover('end')


@contract('C08.discrete_gradient_multivar', [DC + ':discrete_gradient_multivar', DC + ':gradient_theta', CA + ':gradient'],
          note='any energy, any number of states: sum_i g_i dx_i = H(x + dx) - H(x) when |dx| exceeds the threshold')
def dg_multi(L):
    f = L.load('pyphs.numerics.numerical_method._discrete_calculus').discrete_gradient_multivar
    n = fresh_int('n', 1)
    x, xf, dx, df = states(n)
    H = energy()
    tol = SReal(z3.Const('numtol', z3.RealSort()))
    assume(tol.e > 0)
    g = returns_normally('total', lambda: f(H, x, dx, tol))
    v = valuation()
    gl = D.as_vlist(g)
    prove('length', gl.zlen() == n.e)
    get = gl.getter()
    sq = lambda k: SSym(df(k)) * SSym(df(k))
    mid = lambda k: at_point(dif(H, xf(k)), x, xf, dx, df, n, 0.5)
    nrm = zden(sym_sum(n.e, sq))(v)
    sum_nonneg('norm', n.e, sq)
    Hp = zden(at_point(H, x, xf, dx, df, n, 1))(v)
    base = zden(sym_sum(n.e, lambda k: mid(k) * SSym(df(k))))(v)
    corr = SExpr(lambda w: z3.If(nrm < tol.e * tol.e, z3.RealVal(0), (Hp - zden(H)(v) - base) / nrm))
    forall_elem('entries', g, n.e, lambda i: mid(i) + corr * SSym(df(i)))
    sum_linear('balance', n.e, lambda k: get(k) * SSym(df(k)),
               [(1, lambda k: mid(k) * SSym(df(k))), (corr, sq)])
    S = zden(sym_sum(n.e, lambda k: get(k) * SSym(df(k))))(v)
    prove('balance', z3.Implies(nrm >= tol.e * tol.e, S == Hp - zden(H)(v)))
    prove('midpoint_below_threshold', z3.Implies(nrm < tol.e * tol.e, zden(corr)(v) == 0))
    cover('end')
