import sympy as sp
from fw import obligation
from lib import *


def law_list(rng, nw, kinds=None):
    k = kinds or [rng.choice(['lin', 'cub', 'lin']) for _ in range(nw)]
    g = [sp.Integer(rng.randint(1, 4)) for _ in range(nw)]
    return k, g


def check_elim(t, c0, c, gone, keep_w):
    """c must be c0 with the laws of `gone` (dict name->gain) solved for"""
    R0 = rows(c0.M)
    lab0 = [str(s) for s in list(c0.x) + list(c0.w) + list(c0.y) + list(c0.cy)]
    lab = [str(s) for s in list(c.x) + list(c.w) + list(c.y) + list(c.cy)]
    t.eq(sorted(lab), sorted(set(lab0) - set(gone)), 'remaining variables')
    t.eq(tuple(c.M.shape), (len(lab), len(lab)), 'structure size')
    law0 = dict(zip(map(str, c0.w), c0.z))
    t.eq(dict(zip(map(str, c.w), c.z)), {k: law0[k] for k in map(str, c.w)}, 'kept dissipations keep their law')
    for _ in range(3):
        val = {l: rval(t.rng) for l in lab}
        g = list(gone)
        A = [[(1 if i == j else 0) - gone[b] * R0[lab0.index(a)][lab0.index(b)] for j, b in enumerate(g)]
             for i, a in enumerate(g)]
        rhs = [sum([R0[lab0.index(a)][lab0.index(l)] * val[l] for l in lab], sp.Integer(0)) for a in g]
        wl = solve_lin(A, rhs) if g else []
        if wl is None:
            return
        zl = {a: gone[a] * v for a, v in zip(g, wl)}
        R = rows(c.M)
        for i, a in enumerate(lab):
            e = sum([R0[lab0.index(a)][lab0.index(l)] * (val[l] if l in val else zl[l]) for l in lab0], sp.Integer(0))
            got = sum([R[i][j] * val[l] for j, l in enumerate(lab)], sp.Integer(0))
            t.close(got, e, 'remaining equations of the eliminated system', row=a)


@obligation('C04', 'reduce_z', 'random integer structures, up to 2 storages, 4 dissipations (linear and cubic, shuffled), '
            '2 ports, 1 connector', ['reduce_z', 'linear_nonlinear', 'inverse'], limit=200)
def red(t):
    for trial in range(t.pick(60, 400)):
        nx, nw, ny, ncy = t.rng.randint(0, 2), t.rng.randint(0, 4), t.rng.randint(0, 2), t.rng.choice([0, 0, 1])
        ks, gs = law_list(t.rng, nw)
        z = lambda w: [g * s if k == 'lin' else s**3 + g * s for k, g, s in zip(ks, gs, w)]
        H = lambda x: sum([s**2 / 2 if i % 2 else s**4 / 4 + s**2 for i, s in enumerate(x)], sp.Integer(0))
        c = mk_core(nx, nw, ny, ncy, M=t.rng.choice(['skew', 'skewR']), rng=t.rng, z=z, H=H)
        c0 = mk_core(nx, nw, ny, ncy, M='zero', z=z, H=H)
        c0.M = sp.SparseMatrix(sp.Matrix(c.M))
        t.case(dims=(nx, nw, ny, ncy), z=c.z, M=rows(c.M))
        gone = {str(s): g for k, g, s in zip(ks, gs, c0.w) if k == 'lin'}
        try:
            c.reduce_z()
        except ValueError:
            continue        # (I - Mww.Zl) singular: nothing to solve
        check_elim(t, c0, c, gone, None)
        t.eq(c.dims.wl(), 0, 'no linear dissipation left')
        t.check(sp.expand(c.H - c0.H) == 0, 'energy unchanged')


@obligation('C04', 'reduce_z_excluded', 'as reduce_z, with 1 or 2 components excluded by the user (linear or not)',
            ['reduce_z'], limit=200)
def red_forced(t):
    for trial in range(t.pick(60, 400)):
        nx, nw, ny = t.rng.randint(0, 2), t.rng.randint(1, 4), t.rng.randint(0, 2)
        ks, gs = law_list(t.rng, nw)
        z = lambda w: [g * s if k == 'lin' else s**3 + g * s for k, g, s in zip(ks, gs, w)]
        c = mk_core(nx, nw, ny, 0, M='skew', rng=t.rng, z=z)
        c0 = mk_core(nx, nw, ny, 0, M='zero', z=z)
        c0.M = sp.SparseMatrix(sp.Matrix(c.M))
        forced = t.rng.sample(list(c.w), min(nw, t.rng.choice([1, 1, 2])))
        c.force_wnl = list(forced)
        t.case(dims=(nx, nw, ny), z=c.z, M=rows(c.M), excluded=forced)
        gone = {str(s): g for k, g, s in zip(ks, gs, c0.w) if k == 'lin' and s not in forced}
        try:
            c.reduce_z()
        except ValueError as e:
            if 'inv' in str(e).lower() or 'det' in str(e).lower():
                continue
            raise
        check_elim(t, c0, c, gone, forced)
        t.check(set(forced) <= set(c.w), 'excluded components are kept')


@obligation('C04', 'reduce_z_symbolic', 'symbolic resistances, coupled linear laws, 1-3 linear dissipations',
            ['reduce_z'], limit=200)
def red_sym(t):
    for trial in range(t.pick(12, 60)):
        nx, nw, ny = 1, t.rng.randint(1, 3), 1
        rs = syms('R', nw)
        coup = t.rng.random() < .5
        z = lambda w: [r * s + (w[i - 1] / 2 if coup and i else 0) for i, (r, s) in enumerate(zip(rs, w))]
        c = mk_core(nx, nw, ny, 0, M='skew', rng=t.rng, z=z)
        c0 = mk_core(nx, nw, ny, 0, M='zero', z=z)
        c0.M = sp.SparseMatrix(sp.Matrix(c.M))
        t.case(dims=(nx, nw, ny), z=c.z, M=rows(c.M))
        c.reduce_z()
        t.eq(list(c.w), [], 'all linear components eliminated')
        sub = {r: sp.Rational(t.rng.randint(1, 9), 4) for r in rs}
        R0 = rows(c0.M)
        W = list(c0.w)
        a = [rval(t.rng), rval(t.rng)]
        Zl = [[sp.diff(zz, w).subs(sub) for w in W] for zz in c0.z]
        off = nx
        # w = Mww.Z.w + Mwx a0 + Mwy a1
        A = [[(1 if i == j else 0) - sum([R0[off + i][off + k] * Zl[k][j] for k in range(nw)], sp.Integer(0))
              for j in range(nw)] for i in range(nw)]
        b = [R0[off + i][0] * a[0] + R0[off + i][-1] * a[1] for i in range(nw)]
        w = solve_lin(A, b)
        zz = [sum([Zl[k][j] * w[j] for j in range(nw)], sp.Integer(0)) for k in range(nw)]
        got = matvec(rows(c.M.subs(sub)), a)
        for g, r in zip(got, (0, -1)):
            e = R0[r][0] * a[0] + R0[r][-1] * a[1] + sum([R0[r][off + k] * zz[k] for k in range(nw)], sp.Integer(0))
            t.close(g, e, 'symbolic elimination')


@obligation('C04', 'reduce_z_coupled_nonlinear', 'laws coupling linear, nonlinear and user-excluded components in one or both directions, '
            'up to 4 dissipations', ['reduce_z', 'linear_nonlinear'], limit=200)
def red_coup(t):
    for trial in range(t.pick(40, 150)):
        nx, nw, ny = 1, t.rng.randint(2, 4), 1
        g = [sp.Integer(t.rng.randint(1, 3)) for _ in range(nw)]
        nl = t.rng.choice(list(range(nw)) + [-1] * 2)
        cz = [[sp.Integer(t.rng.choice([0, 0, 1, 2] if nw < 4 else [0, 0, 0, 0, 1])) if i != j else g[i] for j in range(nw)] for i in range(nw)]
        pw = t.rng.choice([1, 3])

        def z(w):
            out = []
            for i in range(nw):
                e = sum([cz[i][j] * (w[j]**pw if j == nl and j != i else w[j]) for j in range(nw)], sp.Integer(0))
                out.append(e + (w[i]**3 if i == nl else 0))
            return out
        c = mk_core(nx, nw, ny, 0, M='skew', rng=t.rng, z=z)
        c0 = mk_core(nx, nw, ny, 0, M='zero', z=z)
        c0.M = sp.SparseMatrix(sp.Matrix(c.M))
        forced = t.rng.sample(list(c.w), t.rng.choice([0, 1, 1, 2]))
        c.force_wnl = list(forced)
        t.case(dims=(nx, nw, ny), z=c.z, M=rows(c.M), excluded=forced)
        try:
            c.reduce_z()
        except ValueError as e:
            if 'inv' in str(e).lower() or 'det' in str(e).lower():
                continue
            raise
        kept = list(c.w)
        t.check(set(forced) <= set(kept), 'excluded components are kept')
        # any solution (w, z) of the original must solve the reduced system: pick w freely, deduce the
        # relation by elimination: sample w, a=(gx, u); require w = M_w a + M_ww z ; solve for gx,u is not
        # always possible, so compare by substitution of the kept law values
        W = list(c0.w)
        gone = [s for s in W if s not in kept]
        for s in kept:
            e = c.z[list(c.w).index(s)]
            t.check(not (set(gone) & sp.sympify(e).free_symbols), 'kept laws do not mention eliminated variables',
                    law=e, eliminated=gone)
            t.check(e == c0.z[W.index(s)], 'kept law unchanged')
        if not gone:
            continue
        R0 = rows(c0.M)
        lab = [('x', 0)] + [('w', s) for s in kept] + [('y', 0)]
        val = {s: rval(t.rng) for s in kept}
        gx, u = rval(t.rng), rval(t.rng)
        # value of the kept laws at chosen kept w and the eliminated w (which must not matter)
        lawv = {s: c0.z[W.index(s)].subs(val) for s in kept}
        eqs = []
        for s in gone:
            i = 1 + W.index(s)
            e = R0[i][0] * gx + R0[i][-1] * u - s
            for q in W:
                zq = lawv[q] if q in kept else c0.z[W.index(q)].subs(val)
                e += R0[i][1 + W.index(q)] * zq
            eqs.append(e)
        sol = sp.solve(eqs, gone, dict=True)
        if len(sol) != 1:
            continue
        sol = sol[0]
        zv = {q: (lawv[q] if q in kept else c0.z[W.index(q)].subs(val).subs(sol)) for q in W}
        got = matvec(rows(c.M), [gx] + [lawv[s] for s in c.w] + [u])
        full = [gx] + [zv[q] for q in W] + [u]
        rws = [0] + [1 + W.index(s) for s in c.w] + [1 + nw]
        for gq, r in zip(got, rws):
            t.close(gq, sum([a * b for a, b in zip(R0[r], full)], sp.Integer(0)), 'reduced equations', row=r)
