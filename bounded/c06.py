import sympy as sp
from fw import obligation, Skip
from lib import *
from netlib import *
from c05 import sweep, shuffled, build, compare, rnet

MF = ['SubGraph.merge_arc_storages', 'SubGraph.merge_rc_storages', 'SubGraph.merge_arc_dissipatives', 'SubGraph.merge_rc_dissipatives',
      'SubGraph.merge_ic_dissipatives', 'SubGraph.merge_all', 'SubGraphSerial.remove_edges_from_list', 'SubGraph*.orientations',
      'nonrealizable_merge_storages', 'realizable_merge_storages', 'nonrealizable_merge_dissipatives', 'realizable_merge_dissipatives']


def laws(rng, v, invertible):
    """odd increasing law of v with random positive coefficients"""
    a = sp.Rational(rng.randint(1, 9), rng.randint(1, 4))
    k = rng.random()
    if not invertible and k < .5:
        return a * v + sp.Rational(rng.randint(1, 5), 2) * v**3
    if k < .3:
        return S('p_%s' % v) * v
    return a * v


@obligation('C06', 'merge_functions', '1 to 4 merged components with random linear (and cubic, when no inversion is needed) laws, symbolic and numeric '
            'coefficients, 30/200 draws, exact evaluation at random points',
            ['nonrealizable_merge_storages', 'realizable_merge_storages', 'nonrealizable_merge_dissipatives', 'realizable_merge_dissipatives'],
            limit=150)
def mf(t):
    nrs, rs, nrd, rd = t.imp('pyphs.graphs.subgraph', 'nonrealizable_merge_storages', 'realizable_merge_storages',
                             'nonrealizable_merge_dissipatives', 'realizable_merge_dissipatives')
    P = lambda: sp.Rational(t.rng.randint(1, 12), t.rng.randint(1, 5))
    for i in range(t.pick(30, 200)):
        n = t.rng.randint(1, 4)
        x = [S('x%s' % l) for l in 'abcd'[:n]]
        w = [S('w%s' % l) for l in 'abcd'[:n]]
        inv = [laws(t.rng, v, True) for v in x]
        fwd = [laws(t.rng, v, False) for v in x]
        t.case(invertible_laws=inv, forward_laws=fwd)
        par = {S('p_%s' % v): P() for v in x + w}
        # forced common flow/effort: the merged energy is the energy stored, the common co-energy is its derivative, states add up
        X, H = nrs(list(x), list(inv))
        xv = [P() * t.rng.choice([1, -1])]
        q = [sp.diff(f, v).subs(par) for f, v in zip(inv, x)]      # linear: e = q x
        e0 = (q[0] * xv[0])
        xs = [e0 / qi for qi in q]
        tot = sum(xs)
        en = sum(qi * xi**2 / 2 for qi, xi in zip(q, xs))
        t.eq(sp.nsimplify(sp.simplify(sp.sympify(H).subs(par).subs(X, tot) - en)), 0, 'energy of the merged storages (common co-energy variable)', H=H)
        t.eq(sp.nsimplify(sp.simplify(sp.diff(H, X).subs(par).subs(X, tot) - e0)), 0, 'co-energy variable of the merged storages', H=H)
        # common state: laws add up
        X, H = rs(list(x), list(fwd))
        v0 = P() * t.rng.choice([1, -1])
        ref = sum(f.subs(par).subs(v, v0) for f, v in zip(fwd, x))
        t.eq(sp.nsimplify(sp.simplify(sp.diff(H, X).subs(par).subs(X, v0) - ref)), 0, 'gradient of the merged storages with common state', H=H)
        ref = sum(sp.integrate(f, v).subs(par).subs(v, v0) for f, v in zip(fwd, x))
        t.eq(sp.nsimplify(sp.simplify(sp.sympify(H).subs(par).subs(X, v0) - ref)), 0, 'energy of the merged storages with common state', H=H)
        # dissipatives
        iw = [f.subs(xx, ww) for f, xx, ww in zip(inv, x, w)]
        W, Z = nrd(list(w), list(iw))
        q = [sp.diff(f, v).subs(par) for f, v in zip(iw, w)]
        z0 = P()
        tot = sum(z0 / qi for qi in q)
        t.eq(sp.nsimplify(sp.simplify(sp.sympify(Z).subs(par).subs(W, tot) - z0)), 0, 'law of merged dissipations sharing their law value', Z=Z)
        fw_ = [f.subs(xx, ww) for f, xx, ww in zip(fwd, x, w)]
        W, Z = rd(list(w), list(fw_))
        t.eq(sp.nsimplify(sp.simplify(sp.sympify(Z).subs(par).subs(W, v0) - sum(f.subs(par).subs(v, v0) for f, v in zip(fw_, w)))), 0,
             'law of merged dissipations sharing their variable', Z=Z)


def merged_families(rng):
    v = lambda: round(rng.uniform(.3, 3), 3)
    d = DATUM
    for n in (2, 3):
        yield 'parallel C', [('I', 's', (d, 'a'), None)] + [('C', 'c%d' % i, ('a', d), v()) for i in range(n)] + [('R', 'r', ('a', d), v())]
        yield 'parallel C off datum', [('I', 's', (d, 'a'), None)] + [('C', 'c%d' % i, ('a', 'b'), v()) for i in range(n)] + [('R', 'r', ('b', d), v())]
        yield 'parallel L', [('V', 's', (d, 'a'), None), ('R', 'r', ('a', 'b'), v())] + [('L', 'l%d' % i, ('b', d), v()) for i in range(n)]
        yield 'series L', [('V', 's', (d, 'n0'), None)] + [('L', 'l%d' % i, ('n%d' % i, 'n%d' % (i + 1)), v()) for i in range(n)] + \
            [('R', 'r', ('n%d' % n, d), v())]
        yield 'series C', [('V', 's', (d, 'n0'), None)] + [('C', 'c%d' % i, ('n%d' % i, 'n%d' % (i + 1)), v()) for i in range(n)] + \
            [('R', 'r', ('n%d' % n, d), v())]
        yield 'parallel R', [('I', 's', (d, 'a'), None)] + [('R', 'r%d' % i, ('a', d), v()) for i in range(n)] + [('C', 'c', ('a', d), v())]
        yield 'series R', [('V', 's', (d, 'n0'), None)] + [('R', 'r%d' % i, ('n%d' % i, 'n%d' % (i + 1)), v()) for i in range(n)] + \
            [('C', 'c', ('n%d' % n, d), v())]
        # fixed control: E effort-controlled, F flux-controlled
        for q in 'EF':
            yield 'parallel ' + q, [('I' if q == 'F' else 'V', 's', (d, 'a'), None)] + ([('R', 'r', ('a', 'b'), v())] if q == 'E' else
                                                                                        [('C', 'c', ('a', 'b'), v())]) + \
                [(q, 'f%d' % i, ('b', d), v()) for i in range(n)]
            yield 'series ' + q, [('V', 's', (d, 'n0'), None)] + [(q, 'f%d' % i, ('n%d' % i, 'n%d' % (i + 1)), v()) for i in range(n)] + \
                [('C' if q == 'E' else 'L', 'c', ('n%d' % n, d), v())]
    yield 'mixed', [('V', 's', (d, 'a'), None), ('R', 'r', ('a', 'b'), v()), ('R', 'r2', ('b', 'c'), v()), ('C', 'c1', ('c', d), v()), ('C', 'c2', ('c', d), v()),
                    ('L', 'l1', ('c', 'e'), v()), ('L', 'l2', ('e', 'f'), v()), ('R', 'r3', ('f', d), v())]


for _m in (False, True):
    def _g(t, _m=_m):
        ok = {}
        for rep in range(t.pick(3, 16)):
            for name, els in merged_families(t.rng):
                net = Net(els) if rep == 0 else shuffled(t.rng, els)
                t.case(family=name, network=net.els, merge_all=_m)
                nst = sum(e[0] in 'LC' for e in els) + sum(e[0] in 'REF' for e in els)
                try:
                    c = build(net, t, merge_all=_m)
                except Skip:
                    raise
                except Exception as e:      # noqa      rejected networks are not merged
                    continue
                compare(t, net, c, t.rng)
                if len(c.x) + len(c.w) < nst:
                    ok[name] = ok.get(name, 0) + 1
        need = ['parallel C off datum', 'series L', 'parallel F', 'series E'] + (['series R', 'parallel L', 'series C', 'parallel E', 'series F'] if _m else [])
        for k in need:
            t.check(ok.get(k, 0) > 0, 'components of the family %r are merged' % k, merged=ok)
    obligation('C06', 'families' + ('_all' if _m else ''), 'parallel/series R, L, C (2 or 3 components) and a mixed circuit, 3/16 random orders '
               'and orientations each, merge_all=%s, response at one random complex-frequency point' % _m, MF, limit=170)(_g)


@obligation('C06', 'networks_all', '45/300 random networks with merge_all=True', MF, limit=170)
def nets(t):
    sweep(t, 'RLC', t.pick(45, 300), merge_all=True)


@obligation('C06', 'networks_RC_all', '45/300 random networks with merge_all=True', MF, limit=170)
def nets2(t):
    sweep(t, 'RRC', t.pick(45, 300), merge_all=True)


@obligation('C06', 'nonlinear_storages', 'parallel saturating/cubic storages with a common state merged, 6/30 random orientations: energy and gradient',
            ['SubGraph.merge_rc_storages', 'realizable_merge_storages'], limit=120)
def nls(t):
    SP, = [t.imp('pyphs.graphs.subgraph', 'SubGraphParallel')]
    Core = t.imp('pyphs', 'Core')
    for i in range(t.pick(6, 30)):
        n = t.rng.randint(2, 3)
        g = SP('p', ('a', 'b'))
        x = [S('x%s' % l) for l in 'abc'[:n]]
        ori = [1] + [t.rng.choice([1, -1]) for _ in x[1:]]
        Hs = [sp.Rational(t.rng.randint(1, 5), 2) * v**2 + sp.Rational(t.rng.randint(1, 5), 3) * v**3 + sp.Rational(t.rng.randint(1, 5), 4) * v**4 for v in x]
        g.core.add_storages(list(x), sum(Hs))
        other = S('xo')
        g.core.add_storages([other], other**2)
        for v, o in zip(x, ori):
            nd = ('a', 'b') if o == 1 else ('b', 'a')
            g.add_edges_from([(nd[0], nd[1], {'label': v, 'type': 'storage', 'ctrl': 'e', 'link': None})])
        t.case(energies=Hs, orientations=ori)
        t.check(g.merge_rc_storages(), 'storages are merged')
        t.eq(len(g.core.x), 2, 'one state replaces the merged ones')
        X = [v for v in g.core.x if v != other][0]
        v0 = sp.Rational(t.rng.randint(-6, 6), 3)
        ref = sum(h.subs(v, o * v0) for h, v, o in zip(Hs, x, ori))
        t.eq(sp.nsimplify(sp.simplify(g.core.H.subs({X: v0, other: 2}) - 4 - ref)), 0, 'energy of the merged storages', H=g.core.H)
        t.eq([tuple(e[:2]) for e in g.edges(data=True)], [('a', 'b')], 'one edge replaces the merged ones')


@obligation('C06', 'dissipative_merging', 'parallel dissipations of fixed or indeterminate control merged, 24/120 random orientations, '
            'affine (all controls) and non-odd polynomial (shared variable) laws, exact evaluation',
            ['SubGraph.merge_rc_dissipatives', 'SubGraph.merge_arc_dissipatives', 'SubGraph.merge_ic_dissipatives', 'SubGraphParallel.orientations',
             'SubGraphSerial.orientations'], limit=120)
def dissm(t):
    SPar, SSer = t.imp('pyphs.graphs.subgraph', 'SubGraphParallel', 'SubGraphSerial')
    done = {}
    for i in range(t.pick(24, 120)):
        serial, kind = False, ('rc', 'arc', 'ic')[i % 3]
        n = t.rng.randint(2, 3)
        rc = 'f' if serial else 'e'
        arc = 'e' if serial else 'f'
        ctrl = {'rc': rc, 'arc': arc, 'ic': '?'}[kind]
        w = [S('w%s' % l) for l in 'abc'[:n]]
        q = lambda: sp.Rational(t.rng.randint(1, 7), t.rng.randint(1, 3))
        zs = []
        for v in w:
            a, b = q(), (q() if kind != 'ic' else sp.Integer(0))
            e = a * v + b
            if kind == 'rc':
                e = a * v**3 + b * v**2 + v
            zs.append(e)
        nodes = ['a'] + ['m%d' % k for k in range(1, n)] + ['b'] if serial else None
        ori = [t.rng.choice([1, -1]) for _ in w]
        g = (SSer if serial else SPar)('d%d' % i, ('a', 'b'))
        other = S('wo')
        g.core.add_dissipations([other] + list(w), [other] + list(zs))
        for k, (v, e, o) in enumerate(zip(w, zs, ori)):
            nd = (nodes[k], nodes[k + 1]) if serial else ('a', 'b')
            z = {ctrl + '_ctrl': e} if kind != 'ic' else {rc + '_ctrl': e, arc + '_ctrl': sp.expand(v / sp.diff(e, v))}
            g.add_edges_from([(nd[0], nd[1]) [::o] + ({'label': v, 'type': 'dissipative', 'ctrl': ctrl, 'link': None, 'z': z},)])
        t.case(serial=serial, kind=kind, laws=zs, orientations=ori)
        change = getattr(g, 'merge_%s_dissipatives' % kind)()
        t.check(change, 'dissipations are merged')
        done[(serial, kind)] = done.get((serial, kind), 0) + 1
        ed = [e for e in g.edges(data=True) if e[-1].get('type') == 'dissipative']
        t.eq(len(ed), 1, 'one edge replaces the merged ones')
        t.check(set(ed[0][:2]) == {'a', 'b'}, 'the merged edge joins the terminals', edge=ed[0][:2])
        rel = 1 if tuple(ed[0][:2]) == ('a', 'b') else -1
        t.eq(len(g.core.w), 2, 'one variable replaces the merged ones')
        t.check(g.core.z[list(g.core.w).index(other)] == other, 'the other dissipations keep their law')
        W = ed[0][-1]['label']
        t.check(W in g.core.w, 'the label of the merged edge is the merged variable')
        Z = ed[0][-1]['z']
        forms = {'rc': [rc], 'arc': [arc], 'ic': [rc, arc]}[kind]
        # control of the law of the components: variable shared (rc) or law value shared (arc)
        for c in forms:
            for rep in range(3):
                v0 = sp.Rational(t.rng.randint(-7, 7), 2)
                if c == rc:
                    sub = [o * e.subs(v, o * v0) for v, e, o in zip(w, zs, ori)]
                    ref = sum(sub)
                    got = rel * Z[c + '_ctrl'].subs(W, rel * v0)
                else:
                    fw_ = zs if kind == 'arc' else [sp.expand(v / sp.diff(e, v)) for v, e in zip(w, zs)]
                    wv = [sp.solve(e - o * v0, v)[0] for v, e, o in zip(w, fw_, ori)]
                    tot = sum(o * x for o, x in zip(ori, wv))
                    ref = v0
                    got = rel * Z[c + '_ctrl'].subs(W, rel * tot)
                t.eq(sp.nsimplify(sp.simplify(got - ref)), 0, 'law of the merged dissipation (%s-controlled)' % c, law=Z[c + '_ctrl'], at=v0)
        if kind != 'ic':
            t.eq(sp.simplify(g.core.z[list(g.core.w).index(W)] - Z[forms[0] + '_ctrl']), 0, 'law of the core')
    for k in ('rc', 'arc', 'ic'):
        t.check(done.get((False, k), 0) > 0, 'parallel dissipations are merged', done=done)


@obligation('C06', 'detection', '60/400 random networks: serial and parallel groups against their definition', ['serial_edges', 'parallel_edges', 'serial_next',
            'getedges'], limit=100)
def det(t):
    se, pe = t.imp('pyphs.graphs.tools', 'serial_edges', 'parallel_edges')
    for i in range(t.pick(60, 400)):
        net = rnet(t.rng, 'RLC', ne=(2, 8), nn=(1, 5))
        g = net.graph(t)
        t.case(network=net.els)
        lab = lambda e: str(e[-1]['label'])
        pairs = {}
        for e in g.edges(data=True):
            pairs.setdefault(frozenset(e[:2]), set()).add(lab(e))
        got = pe(g)
        gs = set()
        for grp in got:
            names = [lab(e) for e in grp]
            t.eq(len(names), len(set(names)), 'no edge twice in a parallel group')
            t.check(len(names) > 1, 'a parallel group has several edges')
            t.eq(set(names), pairs[frozenset(grp[0][:2])], 'a parallel group is the set of edges between two nodes')
            gs.add(frozenset(names))
        deg = {n: len([p for p in pairs if n in p]) for n in {x for p in pairs for x in p}}
        for p, names in pairs.items():
            if len(names) > 1 and any(deg[n] > 1 and n != DATUM for n in p):
                t.check(frozenset(names) in gs, 'parallel edges are detected', edges=names)
        reach, grow = {DATUM}, True
        while grow:
            grow = False
            for p in pairs:
                if p & reach and not p <= reach:
                    reach |= p
                    grow = True
        if not all(p <= reach for p in pairs):
            continue            # floating parts: no potential reference, such networks are rejected
        try:
            got = timed(lambda: se(g), 5)
        except (TooLong, ValueError):
            continue
        for grp, a, b in got:
            t.check(a != b, 'a serial connection has two distinct ends', ends=(a, b))
            cur = a
            for k, e in enumerate(grp):
                t.check(cur in e[:2], 'consecutive edges of a serial connection share a node', edges=[lab(q) for q in grp])
                cur = e[1] if e[0] == cur else e[0]
                if k < len(grp) - 1:
                    t.check(cur != DATUM and deg[cur] == 2, 'inner nodes of a serial connection connect nothing else', node=cur,
                            edges=[lab(q) for q in grp])
            t.eq(cur, b, 'a serial connection ends at its announced terminal')
            t.eq(len({lab(e) for e in grp}), len(grp), 'no edge twice in a serial connection')


@obligation('C06', 'split_assemble', '40/300 random networks: splitting into serial/parallel subgraphs and assembling gives the same edges',
            ['Graph.sp_split', 'Graph.sp_assemble', 'Graph._split_serial', 'Graph._split_parallel'], limit=100)
def spa(t):
    n = t.pick(40, 300)
    done = 0
    for i in range(n):
        net = rnet(t.rng, 'RLC', ne=(2, 8), nn=(1, 5))
        t.case(network=net.els)
        key = lambda g: sorted((str(e[0]), str(e[1]), str(e[-1]['label']), e[-1]['type'], e[-1]['ctrl']) for e in g.edges(data=True))

        def f():
            g = net.graph(t)
            before = key(g), [str(x) for x in g.core.x], sp.sympify(g.core.H)
            g.sp_split()
            g.sp_assemble()
            return before, (key(g), [str(x) for x in g.core.x], sp.sympify(g.core.H))
        try:
            b, a = timed(f, 5)
        except Skip:
            raise
        except Exception:     # noqa
            continue
        done += 1
        t.eq(a[0], b[0], 'edges after split and assembly')
        t.eq(a[1:], b[1:], 'storages after split and assembly')
    t.check(done > n // 2, 'networks are split', done=done)
