import itertools
import sympy as sp
from fw import obligation, Skip
from lib import *

NAMES = ('x', 'w', 'y', 'cy', 'xl', 'xnl', 'wl', 'wnl')
B = 'dims x,w,y,cy enumerated up to (2,2,2,1), generic (distinct) entries'


def cases(t, maxs=(2, 2, 2, 1)):
    for d in all_dims(maxs):
        nx, nw = d[0], d[1]
        for xl in range(nx + 1):
            for wl in range(nw + 1):
                if not t.thorough and (xl + wl + sum(d)) % 2:
                    continue
                yield d, xl, wl


@obligation('C01', 'J_skew_R_sym_split', B, ['Core.J', 'Core.R'])
def split(t):
    for d in all_dims((2, 2, 2, 1)):
        c = mk_core(*d, M='sym')
        t.case(dims=d, M=c.M)
        n = sum(d)
        J, R, M = rows(c.J()), rows(c.R()), rows(c.M)
        t.check(len(J) == n and len(R) == n, 'shape')
        for i in range(n):
            for j in range(n):
                t.check(sp.expand(J[i][j] + J[j][i]) == 0, 'J skew-symmetric', i=i, j=j)
                t.check(sp.expand(R[i][j] - R[j][i]) == 0, 'R symmetric', i=i, j=j)
                t.check(sp.expand(sp.nsimplify(M[i][j] - J[i][j] + R[i][j])) == 0, 'M = J - R', i=i, j=j)
    # numerical entries of any magnitude and precision
    for k in range(t.pick(30, 200)):
        n = t.rng.randint(1, 4)
        c = mk_core(n, 0, 0, M='zero')
        num = lambda: t.rng.choice([lambda: t.rng.uniform(-1, 1) * 10.**t.rng.randint(-12, 12), lambda: 0,      # noqa
                                    lambda: sp.Rational(t.rng.randint(-10**18, 10**18), t.rng.randint(1, 10**9)),
                                    lambda: sp.Float('%d.%d' % (t.rng.randint(1, 99), t.rng.randint(1, 10**28)), 30),
                                    lambda: sp.sqrt(t.rng.randint(2, 7)) * S('m%d' % t.rng.randint(1, 3)),
                                    lambda: t.rng.randint(-9, 9)])()
        c.M = sp.SparseMatrix(n, n, [sp.sympify(num()) for _ in range(n * n)])
        t.case(M=c.M)
        J, R, M = rows(c.J()), rows(c.R()), rows(c.M)
        v = {S('m%d' % i): sp.Rational(i, 3) for i in (1, 2, 3)}
        for i in range(n):
            for j in range(n):
                t.check(sp.expand(J[i][j] + J[j][i]) == 0, 'J skew-symmetric (numbers)', i=i, j=j)
                t.check(sp.expand(R[i][j] - R[j][i]) == 0, 'R symmetric (numbers)', i=i, j=j)
                sc = abs(sp.N(sp.sympify(M[i][j]).subs(v), 40)) + abs(sp.N(sp.sympify(M[j][i]).subs(v), 40))
                e = abs(sp.N((sp.sympify(M[i][j]) - J[i][j] + R[i][j]).subs(v), 40))
                t.check(e <= sc * sp.Float('1e-14'), 'M = J - R (numbers)', i=i, j=j, difference=e)


@obligation('C01', 'block_accessors', B, ['Core._build_get_mat', 'Indices', 'Dimensions'])
def accessors(t):
    for d, xl, wl in cases(t):
        c = mk_core(*d, M='code', xl=xl, wl=wl)
        t.case(dims=d, xl=xl, wl=wl)
        full = dict(M=rows(c.M), J=rows(c.J()), R=rows(c.R()))
        for a, b in itertools.product(NAMES, NAMES):
            ra, rb = block_range(c, a), block_range(c, b)
            for p in ('M', 'J', 'R'):
                got = getattr(c, p + a + b)()
                t.eq(tuple(got.shape), (ra[1] - ra[0], rb[1] - rb[0]), 'shape of block %s%s%s' % (p, a, b))
                if 0 in got.shape:
                    continue
                t.eq(rows(got), sub_rows(full[p], ra[0], ra[1], rb[0], rb[1]), 'block %s%s%s' % (p, a, b))


def disjoint(a, b):
    fam = {'x': ('x',), 'xl': ('x', 'xl'), 'xnl': ('x', 'xnl'), 'w': ('w',), 'wl': ('w', 'wl'),
           'wnl': ('w', 'wnl'), 'y': ('y',), 'cy': ('cy',)}
    if a == b:
        return True
    top = {k: v[0] for k, v in fam.items()}
    if top[a] != top[b]:
        return True
    return {a, b} in ({'xl', 'xnl'}, {'wl', 'wnl'})


@obligation('C01', 'block_mutators', 'dims up to (3,3,2,1), every disjoint or equal pair of blocks, generic entries',
            ['Core._build_set_mat'], limit=200)
def mutators(t):
    ds = [((2, 2, 2, 1), 1, 1), ((3, 2, 1, 1), 2, 1), ((1, 3, 2, 0), 0, 2), ((2, 0, 1, 0), 1, 0)]
    if t.thorough:
        ds = [(d, xl, wl) for d in all_dims((3, 3, 2, 1)) for xl in range(d[0] + 1) for wl in range(d[1] + 1)
              if sum(d) in (3, 5, 7)][:60]
    for d, xl, wl in ds:
        for a, b in itertools.product(NAMES, NAMES):
            if not disjoint(a, b):
                continue
            for p in ('M', 'J', 'R'):
                for kind in ('code', 'skewR'):
                    c = mk_core(*d, M=kind, rng=t.rng, xl=xl, wl=wl)
                    ra, rb = block_range(c, a), block_range(c, b)
                    m, n = ra[1] - ra[0], rb[1] - rb[0]
                    if m == 0 or n == 0:
                        continue
                    old = dict(M=rows(c.M), J=rows(c.J()), R=rows(c.R()))
                    blk = [[sp.Integer(7000 + 10 * i + j) for j in range(n)] for i in range(m)]
                    if a == b and p == 'J':
                        blk = [[blk[i][j] if i < j else (-blk[j][i] if j < i else sp.Integer(0))
                                for j in range(n)] for i in range(m)]
                    if a == b and p == 'R':
                        blk = [[blk[i][j] if i <= j else blk[j][i] for j in range(n)] for i in range(m)]
                    t.case(dims=d, xl=xl, wl=wl, block=p + a + b, old=kind)
                    getattr(c, 'set_%s%s%s' % (p, a, b))(blk)
                    new = dict(M=rows(c.M), J=rows(c.J()), R=rows(c.R()))
                    got = rows(getattr(c, p + a + b)())
                    t.eq([[sp.nsimplify(e) for e in r] for r in got], blk, 'block reads back as written')
                    N = len(new['M'])
                    for i in range(N):
                        for j in range(N):
                            inb = ra[0] <= i < ra[1] and rb[0] <= j < rb[1]
                            mir = ra[0] <= j < ra[1] and rb[0] <= i < rb[1]
                            if not inb and not mir:
                                t.check(sp.nsimplify(new['M'][i][j] - old['M'][i][j]) == 0,
                                        'entries outside of the block are unchanged', i=i, j=j)
                            elif p == 'J':
                                t.check(sp.nsimplify(new['J'][i][j] + new['J'][j][i]) == 0, 'mirror of J')
                                t.check(sp.nsimplify(new['R'][i][j] - old['R'][i][j]) == 0, 'R part untouched')
                            elif p == 'R':
                                t.check(sp.nsimplify(new['R'][i][j] - new['R'][j][i]) == 0, 'mirror of R')
                                t.check(sp.nsimplify(new['J'][i][j] - old['J'][i][j]) == 0, 'J part untouched')
                            elif not inb:
                                t.check(sp.nsimplify(new['M'][i][j] - old['M'][i][j]) == 0,
                                        'M mutator leaves the opposite block', i=i, j=j)


@obligation('C01', 'mutator_initialises', 'dims up to (2,2,2,1), structure not initialised', ['Core._build_set_mat'])
def mut_init(t):
    for d in all_dims((2, 2, 2, 1)):
        for a, b in (('x', 'w'), ('w', 'y'), ('x', 'x'), ('x', 'y'), ('w', 'cy')):
            c = mk_core(*d, M='zero')
            c.M = sp.SparseMatrix(sp.zeros(0))
            ra, rb = block_range(c, a), block_range(c, b)
            m, n = ra[1] - ra[0], rb[1] - rb[0]
            if 0 in (m, n):
                continue
            t.case(dims=d, block='J' + a + b)
            blk = [[sp.Integer(10 * i + j + 1) if a != b else sp.Integer(j - i) for j in range(n)] for i in range(m)]
            getattr(c, 'set_J%s%s' % (a, b))(blk)
            N = sum(d)
            t.eq(tuple(c.M.shape), (N, N), 'structure has full size')
            R = rows(c.M)
            for i in range(N):
                for j in range(N):
                    if ra[0] <= i < ra[1] and rb[0] <= j < rb[1]:
                        e = blk[i - ra[0]][j - rb[0]]
                    elif ra[0] <= j < ra[1] and rb[0] <= i < rb[1]:
                        e = -blk[j - ra[0]][i - rb[0]]
                    else:
                        e = 0
                    t.check(sp.nsimplify(R[i][j] - e) == 0, 'initialised entry', i=i, j=j)


@obligation('C01', 'vector_accessors', B, ['Core._gen_lnl_accessors', 'Dimensions', 'Indices', 'Core.labels'])
def vectors(t):
    for d, xl, wl in cases(t):
        c = mk_core(*d, M='code', xl=xl, wl=wl)
        t.case(dims=d, xl=xl, wl=wl)
        nx, nw, ny, ncy = d
        t.eq(list(c.xl()), list(c.x)[:xl], 'xl')
        t.eq(list(c.xnl()), list(c.x)[xl:], 'xnl')
        t.eq(list(c.wl()), list(c.w)[:wl], 'wl')
        t.eq(list(c.wnl()), list(c.w)[wl:], 'wnl')
        t.eq(list(c.zl()), list(c.z)[:wl], 'zl')
        t.eq(list(c.znl()), list(c.z)[wl:], 'znl')
        t.eq(list(c.dxl()), list(c.dx())[:xl], 'dxl')
        t.eq(list(c.dxnl()), list(c.dx())[xl:], 'dxnl')
        t.eq(list(c.dxHl()), list(c.dxH())[:xl], 'dxHl')
        t.eq(list(c.dxHnl()), list(c.dxH())[xl:], 'dxHnl')
        t.eq([str(s) for s in c.dx()], ['d' + str(s) for s in c.x], 'dx symbols')
        t.eq(c.labels(), [str(s) for s in list(c.x) + list(c.w) + list(c.y) + list(c.cy)], 'labels order')
        dm = c.dims
        t.eq((dm.x(), dm.w(), dm.y(), dm.cy(), dm.tot()), d + (sum(d),), 'dimensions')
        t.eq((dm.xl(), dm.xnl(), dm.wl(), dm.wnl()), (xl, nx - xl, wl, nw - wl), 'linear dimensions')
        t.eq((dm.l(), dm.nl()), (xl + wl, nx - xl + nw - wl), 'linear totals')
        for nm in NAMES:
            t.eq(tuple(getattr(c.inds, nm)()), block_range(c, nm), 'indices of ' + nm)
        c.init_M()
        t.eq(tuple(c.M.shape), (sum(d), sum(d)), 'init_M')
        t.check(all(e == 0 for r in rows(c.M) for e in r), 'init_M is zero')


@obligation('C01', 'adding_components', 'up to 3 successive additions of 0..3 elements, scalars and lists',
            ['Core.add_storages', 'Core.add_dissipations', 'Core.add_ports', 'Core.add_parameters',
             'Core.add_observer'])
def adding(t):
    for trial in range(t.pick(20, 100)):
        c = new_core()
        X, W, U, Y, P, Hs, Z = [], [], [], [], [], [], []
        for k in range(3):
            n = t.rng.randint(0, 3)
            x = syms('x', n, len(X))
            H = sum([s**2 * (k + 1) for s in x], sp.Integer(0))
            if n == 1 and t.rng.random() < .5:
                c.add_storages(x[0], H)
            else:
                c.add_storages(list(x), H)
            X += x
            Hs.append(H)
            n = t.rng.randint(0, 3)
            w = syms('w', n, len(W))
            z = [s**3 * (k + 2) for s in w]
            if n == 1 and t.rng.random() < .5:
                c.add_dissipations(w[0], z[0])
            else:
                c.add_dissipations(list(w), list(z))
            W += w
            Z += z
            n = t.rng.randint(0, 3)
            u, y = syms('u', n, len(U)), syms('y', n, len(U))
            if n == 1 and t.rng.random() < .5:
                c.add_ports(u[0], y[0])
            else:
                c.add_ports(list(u), list(y))
            U += u
            Y += y
            n = t.rng.randint(0, 2)
            p = syms('p', n, len(P))
            c.subs.update({q: 1.5 for q in p})
            keep = S('k%d' % k)
            c.subs[keep] = 2.5
            if n == 1 and t.rng.random() < .5:
                c.add_parameters(p[0])
            else:
                c.add_parameters(list(p))
            P += p
            t.case(x=X, w=W, u=U, p=P)
            t.eq(list(c.x), X, 'storages appended in order')
            t.eq(list(c.w), W, 'dissipations appended in order')
            t.eq(list(c.z), Z, 'laws appended in order')
            t.eq((list(c.u), list(c.y)), (U, Y), 'ports appended in order')
            t.eq(list(c.p), P, 'parameters appended in order')
            t.check(sp.expand(c.H - sum(Hs)) == 0, 'energy accumulates')
            t.check(not set(c.subs) & set(P), 'parameters are no longer constants')
            t.check(c.subs.get(keep) == 2.5, 'other constants survive')
        o = S('o1')
        c.add_observer({o: sp.Integer(3)})
        t.eq(list(c.o()), [o], 'observer recorded')
