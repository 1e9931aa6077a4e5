import sympy as sp
from fw import obligation
from lib import *


def impose(t, c0, pairs, a, ny_rest):
    """outputs of the original structure with the connections imposed: returns rows of the kept variables.

    a: value of (dxH, z, u_kept) by label; solves u_i = -alpha*y_j, u_j = alpha*y_i."""
    R = rows(c0.M)
    nx, nw, ny = len(c0.x), len(c0.w), len(c0.y)
    off = nx + nw
    con = [i for p in pairs for i in p[:2]]
    n = len(con)
    # unknown u_con: u = S.y_con ; y_con = O.a + D.u
    known = list(range(off)) + [off + i for i in range(ny) if i not in con]
    K = {}
    for i, j, al in pairs:
        K[i] = (j, -al)
        K[j] = (i, al)
    A, b = [], []
    for r, i in enumerate(con):
        j, s = K[i]
        row = [sp.Integer(0)] * n
        row[r] = sp.Integer(1)
        for q, k in enumerate(con):
            row[q] -= s * R[off + j][off + k]
        A.append(row)
        b.append(s * sum([R[off + j][k] * a[k] for k in known], sp.Integer(0)))
    u = solve_lin(A, b)
    if u is None:
        return None, known
    out = [sum([R[r][k] * a[k] for k in known], sp.Integer(0)) +
           sum([R[r][off + k] * u[q] for q, k in enumerate(con)], sp.Integer(0)) for r in known]
    return out, known


@obligation('C03', 'connect', 'random integer structures up to 2 storages, 2 dissipations, 5 ports, 1 or 2 connectors',
            ['Core.add_connector', 'port2connector', 'Core.connect', 'move_connector', 'inverse'], limit=200)
def connect(t):
    for trial in range(t.pick(60, 400)):
        nx, nw = t.rng.randint(0, 2), t.rng.randint(0, 2)
        ncon = t.rng.choice([1, 1, 2])
        ny = 2 * ncon + t.rng.randint(0, 2)
        kind = t.rng.choice(['skew', 'int', 'skewR'])
        c = mk_core(nx, nw, ny, M=kind, rng=t.rng)
        c0 = mk_core(nx, nw, ny, M='zero')
        c0.M = sp.SparseMatrix(sp.Matrix(c.M))
        idx = list(range(ny))
        t.rng.shuffle(idx)
        pairs = []
        for k in range(ncon):
            al = t.rng.choice([None, sp.Integer(2), sp.Rational(1, 3), sp.Integer(-1)])
            pairs.append((idx[2 * k], idx[2 * k + 1], al))
        eff = [(i, j, sp.Integer(1) if al is None else al) for i, j, al in pairs]
        a = [rval(t.rng) for _ in range(nx + nw + ny)]
        exp, known = impose(t, c0, eff, a, ny)
        t.case(dims=(nx, nw, ny), M=rows(c0.M), connections=pairs)
        if exp is None:
            continue
        y0, u0 = list(c0.y), list(c0.u)
        names = [(y0[i], y0[j]) for i, j, _ in pairs]
        for (i, j, al), (yi, yj) in zip(pairs, names):
            ii = (list(c.y).index(yi), list(c.y).index(yj))
            if al is None:
                c.add_connector(ii)
            else:
                c.add_connector(ii, alpha=al)
        con = [i for p in pairs for i in p[:2]]
        t.eq(set(c.cy), {y0[i] for i in con}, 'connected outputs become connectors')
        t.eq(list(c.y), [y for k, y in enumerate(y0) if k not in con], 'remaining outputs in order')
        t.eq(list(c.u), [y for k, y in enumerate(u0) if k not in con], 'remaining inputs in order')
        r0, r1 = relation_of(c0), relation_of(c)
        t.check(all(r1[k] == r0[k] for k in r0), 'declaring a connector only permutes the structure')
        c.connect()
        t.eq((list(c.cy), list(c.cu), list(c.connectors)), ([], [], []), 'connectors are consumed')
        t.eq(list(c.y), [y for k, y in enumerate(y0) if k not in con], 'remaining outputs')
        t.eq(tuple(c.M.shape), (len(known), len(known)), 'structure size')
        got = matvec(rows(c.M), [a[k] for k in known]) if known else []
        for k, (g, e) in enumerate(zip(got, exp)):
            t.close(g, e, 'connected system = imposing u_i=-alpha*y_j, u_j=alpha*y_i', row=known[k])
        if kind == 'skew':
            t.check(all(abs(complex(a_ + b_)) < 1e-9 for r_a, r_b in zip(rows(c.M), rows(c.M.T))
                        for a_, b_ in zip(r_a, r_b)), 'lossless stays lossless', M=c.M)


@obligation('C03', 'connect_symbolic_alpha', 'symbolic coefficient and structure, 2 ports (+1)', ['Core.connect'])
def connect_sym(t):
    for ny, (i, j) in ((2, (0, 1)), (2, (1, 0)), (3, (0, 2)), (3, (2, 1))):
        c = mk_core(1, 1, ny, M='skew', rng=t.rng)
        c0 = mk_core(1, 1, ny, M='zero')
        c0.M = sp.SparseMatrix(sp.Matrix(c.M))
        al = S('alpha')
        t.case(ny=ny, pair=(i, j), M=rows(c.M))
        a = [rval(t.rng) for _ in range(2 + ny)]
        c.add_connector((i, j), alpha=al)
        c.connect()
        for v in (sp.Rational(1, 2), sp.Integer(3), sp.Integer(-2)):
            exp, known = impose(t, c0, [(i, j, v)], a, ny)
            if exp is None:
                continue
            got = matvec(rows(c.M.subs(al, v)), [a[k] for k in known])
            for g, e in zip(got, exp):
                t.close(g, e, 'symbolic coefficient')


@obligation('C03', 'add_cores', 'dims of both cores up to (2,2,2,1)', ['Core.__add__'], limit=200)
def add(t):
    import itertools
    ds = list(all_dims((2, 2, 2, 1)))
    pairs = [(d, e) for d in ds for e in ds]
    t.rng.shuffle(pairs)
    for d, e in pairs[:t.pick(50, 400)]:
        c1 = mk_core(*d, M='code', H=lambda x: sum([s**4 + s for s in x], sp.Integer(0)))
        c2 = mk_core(*e, M='int', rng=t.rng, pre='b', H=lambda x: sum([sp.cosh(s) for s in x], sp.Integer(0)),
                     z=lambda w: [s**3 for s in w])
        c1.subs[S('p1')] = 1.
        c2.subs[S('p2')] = 2.
        c1.add_observer({S('o1'): S('q')})
        c2.add_observer({S('o2'): S('q') * 2})
        c1.setsymb('p', [S('par1')])
        c2.setsymb('p', [S('par2')])
        c1.force_wnl = list(c1.w)[:1]
        c2.force_wnl = list(c2.w)[:1]
        NM = ('x', 'w', 'u', 'y', 'cu', 'cy', 'z', 'p', 'force_wnl')

        def content():
            return (relation_of(c1), relation_of(c2), dict(c1.subs), dict(c2.subs), dict(c1.observers), dict(c2.observers),
                    c1.H, c2.H, [list(getattr(q, n)) for q in (c1, c2) for n in NM])
        before = content()
        t.case(d1=d, d2=e)
        c = c1 + c2
        t.check(before == content(), 'operands are left unchanged')
        for k in ('x', 'w', 'u', 'y', 'cu', 'cy', 'z', 'p'):
            t.eq(list(getattr(c, k)), list(getattr(c1, k)) + list(getattr(c2, k)), 'concatenation of ' + k)
        t.check(sp.expand(c.H - c1.H - c2.H) == 0, 'energies add')
        t.eq(set(c.force_wnl), set(c1.force_wnl) | set(c2.force_wnl), 'components excluded from elimination, of both')
        t.eq(dict(c.subs), dict(list(c1.subs.items()) + list(c2.subs.items())), 'constants of both')
        t.eq(dict(c.observers), dict(list(c1.observers.items()) + list(c2.observers.items())), 'observers of both')
        r, r1, r2 = relation_of(c), relation_of(c1), relation_of(c2)
        for k in r:
            ex = r1.get(k, r2.get(k, 0))
            t.check(r[k] == ex, 'block structure', entry=k, got=r[k], expected=ex)


@obligation('C03', 'add_then_connect', 'two systems with 1-2 ports each, random integer structures',
            ['Core.__add__', 'Core.connect', 'Core.add_connector'])
def add_connect(t):
    for trial in range(t.pick(25, 150)):
        c1 = mk_core(t.rng.randint(0, 2), t.rng.randint(0, 1), t.rng.randint(1, 2), M='skew', rng=t.rng)
        c2 = mk_core(t.rng.randint(0, 2), t.rng.randint(0, 1), t.rng.randint(1, 2), M='skew', rng=t.rng, pre='b')
        c = c1 + c2
        i, j = t.rng.randrange(len(c1.y)), len(c1.y) + t.rng.randrange(len(c2.y))
        if t.rng.random() < .5:
            i, j = j, i
        c0 = c1 + c2
        al = t.rng.choice([sp.Integer(1), sp.Integer(3)])
        t.case(M1=rows(c1.M), M2=rows(c2.M), pair=(i, j), alpha=al)
        a = [rval(t.rng) for _ in range(len(c0.x) + len(c0.w) + len(c0.y))]
        exp, known = impose(t, c0, [(i, j, al)], a, len(c0.y))
        if exp is None:
            continue
        c.add_connector((i, j), alpha=al)
        c.connect()
        got = matvec(rows(c.M), [a[k] for k in known])
        for g, e in zip(got, exp):
            t.close(g, e, 'connection of two systems')


@obligation('C03', 'output_function', 'dims up to (2,2,2)', ['output_function'])
def output(t):
    for d in all_dims((2, 2, 2)):
        c = mk_core(*d, M='int', rng=t.rng, H=lambda x: sum([s**4 for s in x], sp.Integer(0)),
                    z=lambda w: [s**3 for s in w])
        t.case(dims=d, M=rows(c.M))
        out = list(c.output())
        t.eq(len(out), d[2], 'one output per port')
        R = rows(c.M)
        a = [sp.diff(c.H, s) for s in c.x] + list(c.z) + list(c.u)
        for k in range(d[2]):
            e = sum([R[d[0] + d[1] + k][q] * a[q] for q in range(len(a))], sp.Integer(0))
            t.check(sp.expand(out[k] - e) == 0, 'y = M_y.a', got=out[k], expected=e)
        # a stored gradient replaces the gradient
        if d[0] and d[2]:
            c._dxH = [S('G%d' % k) for k in range(d[0])]
            out = list(c.output())
            a[:d[0]] = c._dxH
            for k in range(d[2]):
                e = sum([R[d[0] + d[1] + k][q] * a[q] for q in range(len(a))], sp.Integer(0))
                t.check(sp.expand(out[k] - e) == 0, 'y uses the stored gradient', got=out[k], expected=e)


@obligation('C03', 'connect_guards', 'wrong port indices', ['Core.add_connector'])
def guards(t):
    c = mk_core(1, 0, 2, M='skew')
    t.raises('a port cannot be connected to itself', Exception, c.add_connector, (1, 1))
    c = mk_core(1, 0, 2, M='skew')
    t.raises('unknown port', Exception, c.add_connector, (0, 2))
