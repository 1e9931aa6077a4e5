"""C04 - elimination of the linear dissipations."""
from ..spec import *

RZ = 'pyphs/core/structure/R.py:reduce_z'
CORE = 'pyphs/core/core.py'


@contract('C04.sum_swap', ['(lemma) exchange of finite double sums'], note='induction on the outer length; used by C04.reduce_z')
def swap(L):
    n, m = fresh_int('n', 0), fresh_int('m', 0)
    v = valuation()
    F = z3.Function('F', z3.IntSort(), z3.IntSort(), z3.RealSort())
    f = lambda k, l: SExpr(lambda w: F(k, l))
    k = z3.Const(ctx().name('k'), z3.IntSort())
    ctx().generics.add(k.decl().name())
    assume(z3.And(0 <= k, k < n.e))
    # T(q) = sum_{a<q} sum_{l<m} f(a, l);  U(q) = sum_{l<m} sum_{a<q} f(a, l)
    T = D.sum_family(n.e, lambda a: sym_sum(m.e, lambda l: f(a, l)))
    row = lambda a: sym_sum(m.e, lambda l: f(a, l))
    col = lambda q, l: D.sum_family(n.e, lambda a: f(a, l))(q)
    Uq = lambda q: zden(sym_sum(m.e, lambda l: col(q, l)))(v)
    prove('base', zden(T(z3.IntVal(0)))(v) == 0)
    z = skolem('l')
    prove('base.columns', zden(col(z3.IntVal(0), z))(v) == 0)
    sum_linear('columns', m.e, lambda l: col(k + 1, l), [(1, lambda l: col(k, l)), (1, lambda l: f(k, l))])
    assume(zden(T(k))(v) == Uq(k))                     # induction hypothesis
    prove('step', zden(T(k + 1))(v) == Uq(k + 1))
    cover('end')


def system(L, wl=None):
    """a core as linear_nonlinear leaves it (contract of linear_nonlinear: Zl is the matrix of the linear laws)"""
    s = SymCore(L, linear=True)
    core = s.core
    core.Zl = fresh_mat('Zl', s.wl, s.wl)
    return s


@contract('C04.reduce_z', [RZ, CORE + ':Core._build_get_mat', 'pyphs/core/maths/_matrices.py:inverse'], budget=400,
          note='any number of linear dissipations, nonlinear dissipations, storages, ports and connectors, nothing excluded; '
               'inverse() by its contract A X = X A = 1; linear_nonlinear() by its contract (C02)')
def reduce_z(L):
    s = system(L)
    core = s.core
    f = L.load('pyphs.core.structure.R').reduce_z
    assume(s.wl.e >= 1)
    Zl = core.Zl
    core.__dict__['linear_nonlinear'] = lambda *a, **k: None
    inv_args = []
    returns_normally('total', lambda: f(core))
    nn = s.n - s.wl.e
    M2 = core.M
    v = valuation()
    prove('shape', z3.And(M2.m == nn, M2.n == nn))
    forall_elem('w', core.w, s.nw.e - s.wl.e, lambda q: SSym(s.w(q + s.wl.e)))
    forall_elem('z', core.z, s.nw.e - s.wl.e, lambda q: s.zf(q + s.wl.e))
    for nm, fu, n in (('x', s.x, s.nx.e), ('u', s.u, s.ny.e), ('y', s.y, s.ny.e), ('cy', s.cy, s.nc.e), ('cu', s.cu, s.nc.e)):
        forall_elem(nm, getattr(core, nm), n, lambda q: SSym(fu(q)))
    prove('H_unchanged', z3.BoolVal(core.H is s.H))
    prove('wl', zint(core.dims._wl) == 0)
    pairs = ctx().__dict__.get('inv_pairs', [])
    if not pairs:
        raise Unsupported('the elimination is not resolved through one inverse')
    A, X = pairs[-1]
    # original index of the remaining variable i
    o = lambda i: z3.If(i < s.nx.e, i, i + s.wl.e)
    wl = s.wl.e
    i, j = skolem('i'), skolem('j')
    assume(z3.And(in_range(i, nn), in_range(j, nn)))
    oi, oj = o(i), o(j)
    d = lambda p: p + s.nx.e            # original index of the linear dissipation p
    d = lambda p: p + s.nx.e            # original index of the linear dissipation p
    spec = {'Zl': (wl, wl, lambda p, q: Zl.at(p, q)),
            'Mww': (wl, wl, lambda p, q: s.M(d(p), d(q))),
            'Mwr': (wl, nn, lambda p, q: s.M(d(p), o(q))),
            'Mrw': (nn, wl, lambda p, q: s.M(o(p), d(q))),
            'Mrr': (nn, nn, lambda p, q: s.M(o(p), o(q)))}
    if ctx().entails(nn == 0):
        cover('end')
        return
    got = roles([M2.term, A.term], spec, extra=[('X', X)])
    if got is None:
        # entry by entry there is no way to name the parts: compare against the specification matrix directly
        prove_matrix('elimination', False, 'parts of the new structure matrix not identified')
        return
    new, inv = got
    # X is the inverse of A: X A = A X = 1
    XA, AX = msub(mmul({('X',): 1}, inv), {(): 1}), msub(mmul(inv, {('X',): 1}), {(): 1})
    # unknown w for the excitation r of the remaining variables: w = Mww Zl w + Mwr r
    law = msub({('w',): 1}, {('Mww', 'Zl', 'w'): 1, ('Mwr', 'r'): 1})
    out = {('Mrw', 'Zl', 'w'): 1, ('Mrr', 'r'): 1}
    left = {('Mrw', 'Zl', 'X'): 1}
    hyps = [law, mmul(left, law), mmul({('Mrw', 'Zl'): 1}, XA, {('w',): 1})]
    # every solution of the imposed laws gives the new rows
    prove_matrix('elimination.unique', mlin(msub(mmul(new, {('r',): 1}), out), hyps), 'new rows = rows with the laws solved')
    # and the laws have the solution w = X Mwr r
    sol = {('X', 'Mwr', 'r'): 1}
    res = msub(sol, {('Mww', 'Zl') + k: q for k, q in sol.items()})
    res = msub(res, {('Mwr', 'r'): 1})
    prove_matrix('elimination.exists', mlin(res, [mmul(AX, {('Mwr', 'r'): 1})]), 'the linear laws are solved by X Mwr r')
    cover('end')
