import itertools
import sympy as sp
from fw import obligation
from lib import *


@obligation('C02', 'myrange', 'all N<=7, 0<=i,j<N', ['misc.tools.myrange'])
def c_myrange(t):
    myrange = t.imp('pyphs.misc.tools', 'myrange')
    for N in range(1, 8):
        for i in range(N):
            for j in range(N):
                t.case(N=N, i=i, j=j)
                exp = [k for k in range(N) if k != i]
                exp.insert(j, i)
                t.eq(list(myrange(N, i, j)), exp, 'index i at position j, others in order')


def snapshot(c):
    return dict(x=list(c.x), w=list(c.w), z=list(c.z), u=list(c.u), y=list(c.y), cu=list(c.cu), cy=list(c.cy),
                H=c.H, rel=relation_of(c), law=dict(zip(map(str, c.w), c.z)),
                port=dict(zip(map(str, c.y), c.u)), con=dict(zip(map(str, c.cy), c.cu)),
                grad=dict(zip(map(str, c.x), c.dxH())))


def same_system(t, c, old, **order):
    new = snapshot(c)
    for k in ('x', 'w', 'y', 'cy'):
        t.eq(sorted(map(str, new[k])), sorted(map(str, old[k])), 'same set of variables ' + k)
        if k in order:
            t.eq(new[k], order[k], 'order of ' + k)
    t.check(sp.expand(new['H'] - old['H']) == 0, 'same energy')
    for k in ('law', 'port', 'con'):
        t.eq(new[k], old[k], 'each variable keeps its ' + k)
    for k in old['grad']:
        t.check(sp.expand(new['grad'][k] - old['grad'][k]) == 0, 'gradient entry follows its state')
    t.check(new['rel'] == old['rel'], 'every structure entry follows its row and column',
            diff=[(k, new['rel'][k], old['rel'][k]) for k in old['rel'] if new['rel'].get(k) != old['rel'][k]][:4])


def moved(l, i, j):
    l = list(l)
    e = l.pop(i)
    l.insert(j, e)
    return l


@obligation('C02', 'moves', 'dims up to (3,3,3,3) in turn, every (i,j); generic and zero structures, stored gradient',
            ['move_stor', 'move_diss', 'move_port', 'move_connector', 'moveCoreMcolnrow'])
def moves(t):
    for kind in ('code', 'zero', 'sparse'):
        for what, key, pos in (('move_storage', 'x', 0), ('move_dissipative', 'w', 1), ('move_port', 'y', 2),
                               ('move_connector', 'cy', 3)):
            for n in (1, 2, 3, 4):
                d = [2, 1, 1, 1] if not t.thorough else [2, 2, 2, 1]
                d[pos] = n
                for i in range(n):
                    for j in range(n):
                        for stored in ((False, True) if key == 'x' else (False,)):
                            c = mk_core(*d, M='code' if kind == 'sparse' else kind)
                            if kind == 'sparse':
                                N = sum(d)
                                m = sp.zeros(N)
                                m[t.rng.randrange(N), t.rng.randrange(N)] = 5
                                c.M = sp.SparseMatrix(m)
                            if stored:
                                c._dxH = [S('G%s' % s) for s in c.x]
                            old = snapshot(c)
                            t.case(op=what, i=i, j=j, dims=d, M=kind)
                            getattr(c, what)(i, j)
                            same_system(t, c, old, **{key: moved(old[key], i, j)})


@obligation('C02', 'move_keeps_linear_coefficients', 'up to 4 linear dissipations', ['move_diss'])
def move_zl(t):
    for n in (2, 3, 4):
        for i in range(n):
            for j in range(n):
                c = mk_core(1, n, 1, M='code', z=lambda w: [(k + 2) * w[k] + (w[k - 1] if k else 0)
                                                              for k in range(len(w))])
                c.linear_nonlinear()
                t.case(n=n, i=i, j=j)
                if c.dims.wl() != n:
                    continue
                c.move_dissipative(i, j)
                zl, wl = list(c.zl()), list(c.wl())
                if c.Zl.shape == (n, n):
                    got = matvec(rows(c.Zl), wl)
                    t.check(all(sp.expand(a - b) == 0 for a, b in zip(got, zl)), 'Zl.wl = zl after the move', Zl=c.Zl)


def H_family(rng, x):
    """random separable/coupled energies with parameters"""
    H = sp.Integer(0)
    n = len(x)
    kinds = [rng.choice(['quad', 'par', 'quart', 'cosh', 'lin', 'sat']) for _ in x]
    for k, s in zip(kinds, x):
        a = S('a_%s' % s)
        H += {'quad': s**2 * sp.Rational(3, 2), 'par': s**2 / a / 2, 'quart': s**4 / 4 + s**2 / 2,
              'cosh': sp.cosh(s), 'lin': s**2 / 2 + a * s, 'sat': a * sp.log(sp.cosh(s))}[k]
    for i in range(n):
        for j in range(i):
            r = rng.random()
            if r < .15:
                H += x[i] * x[j] / 3
            elif r < .25:
                H += x[i] * x[j]**2 / 5
    return H


def z_family(rng, w, x, couple=True):
    out = []
    for i, s in enumerate(w):
        a = S('r_%s' % s)
        k = rng.choice(['lin', 'par', 'cub', 'exp', 'mod', 'coup'])
        if k == 'coup' and (not couple or len(w) < 2):
            k = 'lin'
        if k == 'coup':
            o = rng.choice([q for q in w if q is not s])
            e = rng.choice([s, s, s**3 + s]) + rng.choice([1, 2]) * o**rng.choice([1, 1, 3])
        else:
            e = {'lin': s * 2, 'par': a * s, 'cub': s**3 + s, 'exp': a * (sp.exp(s) - 1),
                 'mod': s * ((1 + x[0]**2) if x else 1)}[k]
        out.append(e)
    return out


def depends(e, ss):
    """semantic dependence (derivative not identically zero), decided numerically with fixed points"""
    return bool(sp.sympify(e).free_symbols & set(ss))


@obligation('C02', 'linear_nonlinear', 'random cores, up to 4 storages, 4 dissipations, coupled energies and laws',
            ['linear_nonlinear', 'hessian', 'jacobian'], limit=200)
def lnl(t):
    for trial in range(t.pick(60, 400)):
        nx, nw, ny = t.rng.randint(0, 4), t.rng.randint(0, 4), t.rng.randint(0, 1)
        xs = syms('x', nx)
        c = mk_core(nx, nw, ny, M='code', H=lambda x: H_family(t.rng, x),
                    z=lambda w: z_family(t.rng, w, xs))
        old = snapshot(c)
        x, w = list(c.x), list(c.w)
        t.case(H=c.H, z=c.z)
        c.linear_nonlinear()
        same_system(t, c, old)
        lin = [s for s in x if not any(depends(sp.diff(old['H'], s, q), x) for q in x)]
        xl, wl = list(c.xl()), list(c.wl())
        t.eq(set(xl), set(lin), 'announced linear storages are the linear ones')
        t.eq(list(c.x)[:len(xl)], xl, 'linear first')
        Q, bl = rows(c.Q), list(c.bl)
        for i, s in enumerate(xl):
            e = sum([Q[i][j] * q for j, q in enumerate(xl)], sp.Integer(0)) + bl[i]
            t.check(sp.expand(e - sp.diff(old['H'], s)) == 0, 'Q.xl + bl = gradient of the linear part', s=s)
            t.check(not any(depends(q, xl) for q in Q[i]) and not depends(bl[i], xl), 'Q, bl free of xl')
        law = old['law']
        J = {(a, b): sp.diff(law[str(a)], b) for a in w for b in w}
        for a in wl:
            t.check(not any(depends(J[(b, a)], w) for b in w), 'announced linear dissipation acts linearly', w=a)
            for b in w:
                if b not in wl:
                    t.check(J[(a, b)] == 0 and J[(b, a)] == 0, 'a dissipation announced linear is not coupled with a nonlinear one', w=a, nonlinear=b)
        Zl = rows(c.Zl)
        zl = list(c.zl())
        for i, a in enumerate(wl):
            e = sum([Zl[i][j] * q for j, q in enumerate(wl)], sp.Integer(0))
            t.check(sp.expand(e - zl[i]) == 0, 'Zl.wl = zl', w=a, Zl=c.Zl, zl=zl)
        # completeness: a dissipation whose law is linear and not coupled with others is announced linear
        for a in w:
            unc = all(J[(a, b)] == 0 and J[(b, a)] == 0 for b in w if b is not a)
            if unc and not depends(J[(a, a)], w):
                t.check(a in wl, 'an uncoupled linear law is announced linear', w=a)
        # idempotence of the partition
        o1 = (set(c.xl()), set(c.wl()))
        c.linear_nonlinear()
        t.eq((set(c.xl()), set(c.wl())), o1, 'splitting twice gives the same partition')


@obligation('C02', 'monovar_multivar', 'random cores, up to 4 nonlinear storages with random couplings',
            ['monovar_multivar'], limit=200)
def mono(t):
    for trial in range(t.pick(50, 300)):
        nx, nw = t.rng.randint(1, 5), t.rng.randint(0, 2)
        c = mk_core(nx, nw, 1, M='code', H=lambda x: H_family(t.rng, x))
        c.linear_nonlinear()
        old = snapshot(c)
        xl, xnl = list(c.xl()), list(c.xnl())
        t.case(H=c.H, xl=xl)
        c.monovar_multivar()
        same_system(t, c, old)
        t.eq(list(c.xl()), xl, 'linear part not touched')
        n1 = c.dims.xnl_mono()
        new = list(c.xnl())
        t.check(0 <= n1 <= len(new), 'count in range')
        t.eq(set(new), set(xnl), 'same nonlinear storages')
        mono, multi = new[:n1], new[n1:]
        t.eq(c.dims.xnl_multi(), len(multi), 'number of non separable')
        for s in mono:
            for q in mono:
                if q is not s:
                    t.check(sp.expand(sp.diff(old['H'], s, q)) == 0, 'separable states do not share an energy term',
                            s=s, q=q)
        for s in multi:
            t.check(any(sp.expand(sp.diff(old['H'], s, q)) != 0 for q in xnl if q is not s),
                    'a state announced non separable is coupled', s=s)


@obligation('C02', 'find_and_list_tools', 'random lists up to 8', ['misc.tools'])
def tools(t):
    interleave, decimate, remove_duplicates = t.imp('pyphs.misc.tools', 'interleave', 'decimate',
                                                    'remove_duplicates')
    for trial in range(60):
        n = t.rng.randint(0, 8)
        a = [t.rng.randint(0, 5) for _ in range(n)]
        b = [t.rng.randint(0, 5) for _ in range(n)]
        t.case(a=a, b=b)
        t.eq(list(interleave(a, b)), [v for p in zip(a, b) for v in p], 'interleave')
        nd = t.rng.randint(1, 4)
        t.eq(list(decimate(a, nd)), a[::nd], 'decimate')
        t.eq(list(remove_duplicates(a)), list(dict.fromkeys(a)), 'remove_duplicates')
