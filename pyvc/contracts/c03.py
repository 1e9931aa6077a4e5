"""C03 - connections, juxtaposition, outputs."""
from ..spec import *

CORE = 'pyphs/core/core.py'
CN = 'pyphs/core/structure/connectors.py'


@contract('C03.add', [CORE + ':Core.__add__', CORE + ':Core._build_set_mat', CORE + ':Core._build_get_mat'],
          note='juxtaposition: lists concatenated, M block diagonal per pair of variable kinds, for all dimensions')
def add(L):
    a, b = SymCore(L, linear=False), SymCore(L, linear=False)
    c = returns_normally('total', lambda: a.core + b.core)
    for k in ('x', 'w', 'u', 'y', 'cu', 'cy', 'z'):
        la, lb = getattr(a.core, k), getattr(b.core, k)
        na, ga, gb = la.zlen(), la.getter(), lb.getter()
        forall_elem(k, getattr(c, k), na + lb.zlen(), lambda q: ite(q < na, ga(q), gb(q - na)))
    v = valuation()
    prove('H', zden(c.H)(v) == zden(a.H)(v) + zden(b.H)(v))
    # index map of the sum: kind by kind, first system then second
    n1 = [a.nx.e, a.nw.e, a.ny.e, a.nc.e]
    n2 = [b.nx.e, b.nw.e, b.ny.e, b.nc.e]

    def own(i):
        """(is in system 1, index in its system)"""
        off, o1, o2 = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)
        isone, loc = z3.BoolVal(False), z3.IntVal(0)
        for d1, d2 in zip(n1, n2):
            in1 = z3.And(i >= off, i < off + d1)
            in2 = z3.And(i >= off + d1, i < off + d1 + d2)
            isone = z3.Or(isone, in1)
            loc = z3.If(in1, i - off + o1, z3.If(in2, i - off - d1 + o2, loc))
            off, o1, o2 = off + d1 + d2, o1 + d1, o2 + d2
        return isone, loc
    n = a.n + b.n

    def spec(i, j):
        s1, p = own(i)
        t1, q = own(j)
        return ite(z3.And(s1, t1), a.M(p, q), ite(z3.And(z3.Not(s1), z3.Not(t1)), b.M(p, q), 0))
    M = c.M
    if ctx().entails(n == 0):
        prove('M.shape', z3.And(M.m == 0, M.n == 0))
    else:
        forall_entry('M', M, n, n, spec)
    prove('operands', z3.BoolVal(a.core.H is a.H and b.core.H is b.H))
    for s in (a, b):
        i, j = skolem(), skolem()
        prove('operand_M', z3.Implies(z3.And(in_range(i, s.n), in_range(j, s.n)),
                                      zden(s.core.M.at(i, j))(v) == zden(s.M(i, j))(v)))
    cover('end')


@contract('C03.port2connector', [CN + ':port2connector', 'pyphs/core/structure/moves.py:moveCoreMcolnrow',
                                 'pyphs/misc/tools.py:myrange'],
          note='a port becomes the last connector, rows and columns follow')
def p2c(L):
    s = SymCore(L, linear=False, distinct=True)
    core = s.core
    i = fresh_int('i', 0)
    assume(i.e < s.ny.e)
    f = L.load('pyphs.core.structure.connectors').port2connector
    returns_normally('total', lambda: f(core, i))
    for nm, fu in (('u', s.u), ('y', s.y)):
        forall_elem(nm, getattr(core, nm), s.ny.e - 1, lambda q: SSym(fu(z3.If(q < i.e, q, q + 1))))
    for nm, fu, fp in (('cu', s.cu, s.u), ('cy', s.cy, s.y)):
        forall_elem(nm, getattr(core, nm), s.nc.e + 1, lambda q: SSym(z3.If(q < s.nc.e, fu(q), fp(i.e))))
    for nm, fu, n in (('x', s.x, s.nx.e), ('w', s.w, s.nw.e)):
        forall_elem(nm, getattr(core, nm), n, lambda q: SSym(fu(q)))
    pos = s.nx.e + s.nw.e + i.e
    pi = lambda q: z3.If(q < pos, q, z3.If(q == s.n - 1, pos, q + 1))
    forall_entry('M', core.M, s.n, s.n, lambda p, q: s.M(pi(p), pi(q)))
    cover('end')


def _add_connector(order):
    def h(L):
        s = SymCore(L, linear=False, distinct=True)
        core = s.core
        i, j = fresh_int('i', 0), fresh_int('j', 0)
        assume(z3.And(i.e < s.ny.e, j.e < s.ny.e, (i.e < j.e) if order else (j.e < i.e)))
        al = fresh_exprlist('alpha', 1).getter()(z3.IntVal(0))
        returns_normally('total', lambda: core.add_connector((i, j), al))
        lo, hi = (i.e, j.e) if order else (j.e, i.e)
        # ports: both removed, the others in order
        skip = lambda q: z3.If(q < lo, q, z3.If(q < hi - 1, q + 1, q + 2))
        for nm, fu in (('u', s.u), ('y', s.y)):
            forall_elem(nm, getattr(core, nm), s.ny.e - 2, lambda q: SSym(fu(skip(q))))
        for nm, fu, fp in (('cu', s.cu, s.u), ('cy', s.cy, s.y)):
            prove(nm + '.length', getattr(core, nm).zlen() == s.nc.e + 2)
            g = getattr(core, nm).getter()
            q = skolem()
            prove(nm + '.old', z3.Implies(in_range(q, s.nc.e), g(q).s == fu(q)))
            e0, e1 = g(s.nc.e).s, g(s.nc.e + 1).s
            prove(nm + '.new', z3.Or(z3.And(e0 == fp(i.e), e1 == fp(j.e)), z3.And(e1 == fp(i.e), e0 == fp(j.e))))
        # rows and columns follow the variables
        base = s.nx.e + s.nw.e
        first = core.cy.getter()(s.nc.e).s == s.y(i.e)
        a0, a1 = z3.If(first, i.e, j.e), z3.If(first, j.e, i.e)

        def pi(q):
            r = q - base
            return z3.If(r < 0, q, z3.If(r < s.ny.e - 2, base + skip(r), z3.If(
                q == s.n - 2, base + a0, z3.If(q == s.n - 1, base + a1, q + 2))))
        forall_entry('M', core.M, s.n, s.n, lambda p, q: s.M(pi(p), pi(q)))
        con = core.connectors.c[-1] if core.connectors.c else None
        prove('connector', z3.BoolVal(con is not None and len(core.connectors.c) == 1))
        prove('connector.u', z3.And(con['u'][0].s == s.u(i.e), con['u'][1].s == s.u(j.e)))
        prove('connector.y', z3.And(con['y'][0].s == s.y(i.e), con['y'][1].s == s.y(j.e)))
        prove('connector.alpha', veq(con['alpha'], al))
        cover('end')
    return h


contract('C03.add_connector_ij', [CORE + ':Core.add_connector', CN + ':port2connector'])(_add_connector(True))
contract('C03.add_connector_ji', [CORE + ':Core.add_connector', CN + ':port2connector'])(_add_connector(False))


@contract('C03.output', ['pyphs/core/structure/output.py:output_function', CORE + ':Core.dxH'],
          note='y = Myx dxH + Myw z + Myy u for all dimensions')
def output(L):
    s = SymCore(L, linear=False, dxH=True)
    core = s.core
    y = returns_normally('total', core.output)
    v = valuation()
    base = s.nx.e + s.nw.e
    dx, z, u, M = s.dxH, s.zf, core.u.getter(), s.M

    def spec(i):
        return sym_sum(s.nx.e, lambda l: M(i + base, l) * dx(l)) + \
            sym_sum(s.nw.e, lambda l: M(i + base, l + s.nx.e) * z(l)) + \
            sym_sum(s.ny.e, lambda l: M(i + base, l + base) * u(l))
    forall_elem('y', y, s.ny.e, spec)
    cover('end')


def _connect(order):
    """one connector, any number of storages, dissipations and ports.

    ghost: for every column j of the remaining variables, c_j = iN O_j (outputs of the connected ports when the
    remaining variables are the j-th unit vector) and s_j = Sw c_j (their inputs).
    """
    def h(L):
        s = SymCore(L, linear=False, distinct=False, nc=2)
        core = s.core
        v = valuation()
        assume(s.cy(0) != s.cy(1))
        assume(s.cu(0) != s.cu(1))
        al = fresh_exprlist('alpha', 1).getter()(z3.IntVal(0))
        p, d = (0, 1) if order else (1, 0)
        core.connectors = VList([VDict([('u', VList([SSym(s.cu(p)), SSym(s.cu(d))])),
                                        ('y', VList([SSym(s.cy(p)), SSym(s.cy(d))])), ('alpha', al)])])
        nn = s.nx.e + s.nw.e + s.ny.e
        e = lambda i, j: zden(s.M(i, j))(v)
        j, i = skolem('j'), skolem('i')
        assume(z3.And(in_range(i, nn), in_range(j, nn)))
        Minv = []
        real = SMat.inv

        def spy(self, *a, **k):
            X = real(self, *a, **k)
            Minv.append(X)
            return X
        SMat.inv = spy
        try:
            returns_normally('total', core.connect)
        finally:
            SMat.inv = real
        M2 = core.M
        prove('shape', z3.And(M2.m == nn, M2.n == nn))
        for k in ('cy', 'cu', 'connectors'):
            prove(k + '.empty', getattr(core, k).zlen() == 0)
        for nm, fu, n in (('x', s.x, s.nx.e), ('w', s.w, s.nw.e), ('u', s.u, s.ny.e), ('y', s.y, s.ny.e)):
            forall_elem(nm, getattr(core, nm), n, lambda q: SSym(fu(q)))
        if not Minv:
            raise Unsupported('the connection is not resolved through an inverse')
        a = zden(al)(v)
        # the imposed system for unit excitation j, unknown (cP, cD): yP = O + Mcc (uP, uD), uP = -a yD, uD = a yP
        P, Dd = nn + p, nn + d
        yP, yD = z3.Real(ctx().name('yP')), z3.Real(ctx().name('yD'))
        uP, uD = -a * yD, a * yP
        eqs = z3.And(yP == e(P, j) + e(P, P) * uP + e(P, Dd) * uD,
                     yD == e(Dd, j) + e(Dd, P) * uP + e(Dd, Dd) * uD)
        want = e(i, j) + e(i, P) * uP + e(i, Dd) * uD
        # every solution of the imposed equations gives the new column (elimination is exact)
        X = Minv[-1]
        x = lambda r, c: zden(X.at(r, c))(v)
        # lemma: the solution is the ghost one  y = X O  (X is the inverse of 1 - Mcc Sw in the order of core.cy)
        y0, y1 = (yP, yD)
        O0, O1 = e(P, j), e(Dd, j)
        xs = [x(r, c) for r in (0, 1) for c in (0, 1)]
        eqn = [yP == e(P, j) + e(P, P) * uP + e(P, Dd) * uD, yD == e(Dd, j) + e(Dd, P) * uP + e(Dd, Dd) * uD]
        g0, g1 = x(0, 0) * O0 + x(0, 1) * O1, x(1, 0) * O0 + x(1, 1) * O1
        prove_with('elimination.unique', z3.And(y0 == g0, y1 == g1), hyps=eqn, mult=xs + [yP, yD])
        sub = lambda f: z3.substitute(f, (yP, g0), (yD, g1))
        prove_with('elimination.solves', z3.And(*[sub(q) for q in eqn]), mult=[O0, O1])
        prove_with('elimination.matrix', zden(M2.at(i, j))(v) == sub(want))
        cover('end')
    return h


contract('C03.connect_1', [CORE + ':Core.connect', 'pyphs/core/maths/_matrices.py:inverse', 'pyphs/core/structure/moves.py:move_connector'],
         note='one pending connector, any dimensions; inverse() by its contract A X = X A = 1')(_connect(True))
contract('C03.connect_1_swapped', [CORE + ':Core.connect', 'pyphs/core/structure/moves.py:move_connector'],
         note='one pending connector stored in the other order')(_connect(False))
