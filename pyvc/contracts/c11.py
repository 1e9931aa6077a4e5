"""C11 - power balance."""
import types as pytypes
from ..spec import *
from .c12 import World, Arr, prove_arr, count, H5

CO = 'pyphs/core/core.py:Core'
ASSUMPTIONS = ['numpy.einsum("ti,ti->t") is the row by row scalar product, numpy.ediff1d the differences followed by to_end']


@contract('C11.sum_split', ['(lemma) splitting a sum'], note='induction on the number of terms of the second part; used by C11.balance')
def split(L):
    n, m = fresh_int('n', 0), fresh_int('m', 0)
    v = valuation()
    F = z3.Function('F', z3.IntSort(), z3.RealSort())
    f = lambda k: SExpr(lambda w: F(k))                                                                            # noqa
    W = lambda k: zden(D.sum_family(n.e + m.e, f)(k))(v)                                                           # noqa
    A = lambda k: zden(D.sum_family(n.e, f)(k))(v)                                                                 # noqa
    B = lambda k: zden(D.sum_family(m.e, lambda q: f(n.e + q))(k))(v)                                              # noqa
    k = generic('k')
    prove('first.base', W(z3.IntVal(0)) == A(z3.IntVal(0)))
    sv = z3.And(0 <= k, k < n.e)
    prove('first.step', z3.Implies(z3.And(sv, W(k) == A(k)), W(k + 1) == A(k + 1)))
    assume(W(n.e) == A(n.e))
    prove('second.base', W(n.e) == A(n.e) + B(z3.IntVal(0)))
    prove('second.step', z3.Implies(z3.And(0 <= k, k < m.e, W(n.e + k) == A(n.e) + B(k)), W(n.e + k + 1) == A(n.e) + B(k + 1)))
    cover('end')


def sum_split(n, m, f):
    """lemma C11.sum_split"""
    v = valuation()
    assume(zden(sym_sum(n + m, f))(v) == zden(sym_sum(n, f))(v) + zden(sym_sum(m, lambda k: f(n + k)))(v))


def efforts(s):
    """documented a = (gradient of the energy, laws, inputs)"""
    nx, nw = s.nx.e, s.nw.e
    return lambda i: ite(i < nx, s.dxH(i), ite(i < nx + nw, s.zf(i - nx), SSym(s.u(i - nx - nw))))


def R(s):
    return lambda i, j: (s.M(i, j) + s.M(j, i)) * -.5


def value(L):
    s = SymCore(L, linear=False, dxH=True, nc=0)
    return s, returns_normally('total', lambda: s.core.pd())


@contract('C11.pd', [CO + '.pd', CO + '.a', CO + '.R', CO + '.dxH', 'pyphs/core/maths/_matrices.py:matvecprod'], note='dissipated power: sum of w z plus the '
          'resistive quadratic form of the structure in (gradient, laws, inputs), any dimensions')
def pd(L):
    s, got = value(L)
    v = valuation()
    a, r, n = efforts(s), R(s), s.n
    wz = zden(sym_sum(s.nw.e, lambda i: SSym(s.w(i)) * s.zf(i)))(v)
    i = generic('i')
    q = zden(sym_sum(n, lambda i: a(i) * sym_sum(n, lambda j: r(i, j) * a(j))))(v)
    prove('value', zden(as_expr(got))(v) == wz + q)
    cover('end')


def sum_linear_all(name, n, i, f, parts):
    """sum_linear for every value of the arbitrary index i"""
    c = ctx()
    v = valuation()
    k = z3.Const(c.name('kl'), z3.IntSort())
    rhs, tot_ = z3.RealVal(0), z3.RealVal(0)
    for ci, gi in parts:
        ci = zden(as_expr(ci))(v)
        rhs = rhs + ci * zden(gi(k))(v)
        tot_ = tot_ + ci * zden(sym_sum(n, gi))(v)
    prove(name + '.step', z3.Implies(in_range(k, n), zden(f(k))(v) == rhs))
    eq = zden(sym_sum(n, f))(v) == tot_
    q = z3.Const(c.name('i'), z3.IntSort())
    assume(z3.ForAll([q], z3.substitute(eq, (i, q))))
    assume(eq)


@contract('C11.quadratic', ['(lemma) quadratic form of the resistive part'], note='a.(R a) = -a.(M a) with R = -(M + M^T)/2, any size (lemma C04.sum_swap)')
def quadratic_lemma(L):
    n = fresh_int('n', 0).e
    v = valuation()
    A = z3.Function('A', z3.IntSort(), z3.RealSort())
    F = z3.Function('M', z3.IntSort(), z3.IntSort(), z3.RealSort())
    a = lambda i: SExpr(lambda w: A(i))                         # noqa
    M = lambda i, j: SExpr(lambda w: F(i, j))                   # noqa
    R = lambda i, j: (M(i, j) + M(j, i)) * -.5                  # noqa
    G = lambda i, j: a(i) * M(i, j) * a(j)                      # noqa
    i = generic('i')
    S = lambda f: sym_sum(n, f)                                 # noqa
    z = lambda e: zden(e)(v)                                    # noqa
    # row by row
    sum_linear_all('rows', n, i, lambda j: G(i, j), [(a(i), lambda j: M(i, j) * a(j))])
    sum_linear_all('columns', n, i, lambda j: G(j, i), [(a(i), lambda j: M(j, i) * a(j))])
    sum_linear_all('resistive', n, i, lambda j: R(i, j) * a(j), [(-.5, lambda j: M(i, j) * a(j)), (-.5, lambda j: M(j, i) * a(j))])
    k = generic('k')
    prove('row', z(a(i) * S(lambda j: R(i, j) * a(j))) == -z(S(lambda j: G(i, j))) / 2 - z(S(lambda j: G(j, i))) / 2)
    # sums of rows (the equation of the row was proved for an arbitrary row)
    v0 = [z(S(lambda i: a(i) * S(lambda j: R(i, j) * a(j)))), z(S(lambda i: S(lambda j: G(i, j)))), z(S(lambda i: S(lambda j: G(j, i)))),
          z(S(lambda i: a(i) * S(lambda j: M(i, j) * a(j))))]
    assume(v0[0] == -v0[1] / 2 - v0[2] / 2)
    prove('row.structure', z(a(i) * S(lambda j: M(i, j) * a(j))) == z(S(lambda j: G(i, j))))
    assume(v0[3] == v0[1])
    l, r = sum_swap(n, n, lambda i, j: G(j, i))
    prove('swapped', z3.And(l == v0[2], r == v0[1]))
    prove('conclusion', v0[0] == -v0[3])
    cover('end')


def quadratic(n, a, M):
    """lemma C11.quadratic"""
    v = valuation()
    S = lambda f: sym_sum(n, f)                                 # noqa
    assume(zden(S(lambda i: a(i) * S(lambda j: (M(i, j) + M(j, i)) * -.5 * a(j))))(v) == -zden(S(lambda i: a(i) * S(lambda j: M(i, j) * a(j))))(v))


@contract('C11.balance', [CO + '.pd', CO + '.R'], note='power balance: when flows and efforts are related by the structure (the residual of the scheme is zero), '
          'gradient times state variation plus pd plus input times output is zero; any dimensions, any energy, laws and structure (lemmas C04.sum_swap, '
          'C11.sum_split, C11.quadratic)')
def balance(L):
    s = SymCore(L, linear=False, dxH=True, nc=0)
    v = valuation()
    a, M, n = efforts(s), s.M, s.n
    nx, nw, ny = s.nx.e, s.nw.e, s.ny.e
    dtx = z3.Function('dtx', z3.IntSort(), z3.RealSort())
    b = lambda i: ite(i < nx, SExpr(lambda w: dtx(i)), ite(i < nx + nw, SSym(s.w(i - nx)), SSym(s.y(i - nx - nw))))           # noqa
    Ma = lambda i: sym_sum(n, lambda j: M(i, j) * a(j))                                                                       # noqa
    z = lambda e: zden(as_expr(e))(v)                                                                                         # noqa
    S = lambda f: sym_sum(n, f)                                                                                               # noqa
    got = returns_normally('total', lambda: s.core.pd())
    i = generic('i')
    # flows and efforts related by the structure, for an arbitrary row
    assume(z3.Implies(in_range(i, n), z(b(i)) == z(Ma(i))))
    prove('row', z3.Implies(in_range(i, n), z(a(i) * b(i)) == z(a(i) * Ma(i))))
    assume(z(S(lambda i: a(i) * b(i))) == z(S(lambda i: a(i) * Ma(i))))
    quadratic(n, a, M)
    f = lambda i: a(i) * b(i)                                                                                                 # noqa
    sum_split(nx + nw, ny, f)
    sum_split(nx, nw, f)
    dtE = lambda i: s.dxH(i) * SExpr(lambda w: dtx(i))                                                                        # noqa
    wz = lambda i: SSym(s.w(i)) * s.zf(i)                                                                                     # noqa
    uy = lambda i: SSym(s.u(i)) * SSym(s.y(i))                                                                                # noqa
    sum_linear('storage', nx, f, [(1, dtE)])
    sum_linear('dissipation', nw, lambda i: f(nx + i), [(1, wz)])
    sum_linear('ports', ny, lambda i: f(nx + nw + i), [(1, uy)])
    prove('closes', z(sym_sum(nx, dtE)) + z(got) + z(sym_sum(ny, uy)) == 0)
    cover('end')


def einsum(spec, A, B):
    if spec != 'ti,ti->t' or not isinstance(A, Arr) or not isinstance(B, Arr) or len(A.dims) != 2 or len(B.dims) != 2:
        raise Unsupported('einsum %s' % spec)
    if not (ctx().branch(A.dims[0] == B.dims[0]) and ctx().branch(A.dims[1] == B.dims[1])):
        raise Unsupported('broadcasting in einsum')
    fa, fb = A.at, B.at
    v = valuation()
    return Arr([A.dims[0]], lambda t: zden(sym_sum(A.dims[1], lambda j: SExpr(lambda w: fa(t, j) * fb(t, j))))(v))


def ediff1d(x, to_end=None, to_begin=None):
    if not isinstance(x, Arr) or not isinstance(to_end, Arr) or to_begin is not None or len(x.dims) != 1 or len(to_end.dims) != 1:
        raise Unsupported('ediff1d')
    n, e, f, g = x.dims[0], to_end.dims[0], x.at, to_end.at
    m = z3.simplify(z3.If(n > 0, n - 1, 0))
    return Arr([m + e], lambda k: z3.If(k < m, f(k + 1) - f(k), g(k - m)))


def power(L, which):
    w = World(L)
    d = w.d
    a, b, s = w.window()
    w.m.numpy.einsum, w.m.numpy.ediff1d = einsum, ediff1d
    v = valuation()
    S = lambda n, p, q, r: zden(sym_sum(n, lambda j: SExpr(lambda _: p(r, j) * q(r, j))))(v)                                # noqa
    col = lambda nm: (lambda r, j: w.f(r, w.off(nm) + j))                                                                  # noqa
    E = z3.Function('energy', z3.IntSort(), z3.RealSort())

    def energy(tslice=None, vslice=None, postprocess=None):
        # value of the energy at each selected row (H5Data._expression by its contract)
        if tslice is None:
            x, y, t = a, b, s
        else:
            x, y, t = [zint(q) for q in (tslice.start, tslice.stop, tslice.step)]
        return Arr([count(x, y, t)], lambda k: E(x + k * t))
    d.E = energy
    given = ctx().branch(z3.Const('given_window', z3.BoolSort()))
    kw = {}
    if given:
        p, q = fresh_int('p', 0), fresh_int('q', 0)
        assume(z3.And(p.e < q.e, q.e <= w.nt.e))
        r = fresh_int('r', 1)
        kw['tslice'] = slice(p, q, r)
        a, b, s = p.e, q.e, r.e
    twice = ctx().branch(z3.Const('postprocess', z3.BoolSort()))
    if twice:
        kw['postprocess'] = lambda x: x * 2
    f = 2 if twice else 1
    N = count(a, b, s)
    k = generic('k')
    dtx = lambda r, j: w.f(r, w.off('dx') + j) * w.fs.e                                                                    # noqa
    if which == 'ps':
        got = returns_normally('total', lambda: d.ps(**kw))
        spec = lambda k: S(w.n['ny'].e, col('u'), col('y'), a + k * s)                                                     # noqa
    elif which == 'DxhDtx':
        default = ctx().branch(z3.Const('default', z3.BoolSort()))
        got = returns_normally('total', lambda: d.dtE(**(kw if default else dict(kw, DtE='DxhDtx'))))
        spec = lambda k: S(w.n['nx'].e, col('dxH'), dtx, a + k * s)                                                        # noqa
    else:
        got = returns_normally('total', lambda: d.dtE(DtE='deltaH', **kw))
        last = a + (N - 1) * s
        if not isinstance(got, Arr):
            raise Unsupported('value of dtE')
        prove('length', z3.And(z3.BoolVal(len(got.dims) == 1), got.dims[0] == N))
        prove('differences', z3.Implies(in_range(k, N - 1), got.at(k) * z3.ToReal(s) == f * (E(a + (k + 1) * s) - E(a + k * s)) * w.fs.e))
        prove('last', got.at(N - 1) == f * S(w.n['nx'].e, col('dxH'), dtx, last))
        spec = None
    if spec:
        if not isinstance(got, Arr):
            raise Unsupported('value of the power')
        prove('length', z3.And(z3.BoolVal(len(got.dims) == 1), got.dims[0] == N))
        prove('value', z3.Implies(in_range(k, N), got.at(k) == f * spec(k)))
    prove_arr('unchanged', w.S, [w.nt.e, w.dim], w.f)
    cover('end')


for _n, _t in (('ps', 'source power: input times output of each recorded row'), ('DxhDtx', 'energy variation: gradient times increment times sample rate'),
               ('deltaH', 'energy variation: differences of the recorded energy over the elapsed time, the last one from the recorded gradient')):
    contract('C11.' + _n, [H5 + ('.ps' if _n == 'ps' else '.dtE'), H5 + '.dtx', H5 + '.__getitem__', H5 + '._read_data', H5 + '._tslice'],
             note=_t + '; any dimensions, any window, any step')(lambda L, n=_n: power(L, n))
