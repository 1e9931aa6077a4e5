import sympy as sp
from fw import obligation, Skip
from lib import *
from netlib import *

FUNCS = ['Graph.to_core', 'Graph.perform_analysis', 'GraphAnalysis.*', 'buildCore', '_setCore', '_select_relations',
         'Graph.sp_split', 'Graph.sp_merge_arc', 'Graph.sp_assemble', 'SubGraph.merge_arc', 'Core.connect', 'Core.__add__']


def rnet(rng, kinds, nn=(1, 4), ne=(2, 7), src='VI'):
    nodes = [DATUM] + ['n%d' % i for i in range(rng.randint(*nn))]
    els = []
    for i in range(rng.randint(*ne)):
        kd = rng.choice(kinds)
        n = tuple(rng.sample(nodes, 2))
        if kd in 'TG':
            n += tuple(rng.sample(nodes, 2))
        els.append((kd, '%s%d' % (kd.lower(), i), n, round(rng.uniform(.3, 3), 3)))
    els.append((rng.choice(src), 'src', tuple(rng.sample(nodes, 2)), None))
    return Net(els)


def rejects(e):
    """exceptions are the documented way to reject a network"""
    return isinstance(e, Exception)


def build(net, t, times=1, **kw):
    def f():
        g = net.graph(t)
        for _ in range(times):
            c = g.to_core(**kw)
        return c
    return timed(f, 6)


def compare(t, net, c, rng):
    s = rng.uniform(.3, 3)
    u = {e[1]: rng.uniform(.5, 2) for e in net.els if e[0] in 'VI'}
    ref = net.solve(s, u)
    labels = sorted('y' + l for l in u)
    t.eq(sorted(str(y) for y in c.y), labels, 'each source appears exactly once as a port')
    if ref is None:
        if net.solve(s * 1.37 + .11, u) is None:
            t.check(False, 'a network without a unique solution was turned into a system', M=c.M)
        return False
    y = core_response(c, s, {str(q): u[str(q)[1:]] for q in c.u})
    t.check(y is not None, 'the system of a solvable network has no solution', M=c.M)
    for (kd, l, n, v) in net.els:
        if kd in 'VI':
            e, f = ref[l]
            t.close(y['y' + l], f if kd == 'V' else e, 'port %s: response of the system against the network equations' % l,
                    tol=1e-6, s=s, M=c.M)
    return True


def sweep(t, kinds, n, times=1, **kw):
    built = 0
    for i in range(n):
        net = rnet(t.rng, kinds)
        t.case(network=net.els, options=kw)
        try:
            c = build(net, t, times, **kw)
        except Skip:
            raise
        except TooLong:
            continue
        except Exception:      # noqa     rejected
            continue
        if compare(t, net, c, t.rng):
            built += 1
    t.check(built >= n // 10, 'networks are turned into systems', built=built, tried=n)


for _k, _kinds in enumerate(['RLC', 'RRC', 'RLCVI', 'RLLCC']):
    def _f(t, _kinds=_kinds):
        sweep(t, _kinds, t.pick(45, 400))
    obligation('C05', 'response_' + _kinds, '45 (quick) / 400 (thorough) random networks of %s with 1 to 4 nodes and up to 8 elements, one random '
               'complex-frequency point each' % _kinds, FUNCS, limit=170)(_f)


@obligation('C05', 'response_connectors', '60/400 random networks with transformers and gyrators', FUNCS + ['GraphAnalysis.link_connector'],
            limit=170)
def conn(t):
    sweep(t, 'RLCTGRLC', t.pick(60, 400))


@obligation('C05', 'response_rebuilt', '50/300 random networks whose system is built twice from the same graph', FUNCS, limit=170)
def twice(t):
    sweep(t, 'RLCTGR', t.pick(50, 300), times=2)


def shuffled(rng, els):
    els = list(els)
    rng.shuffle(els)
    out = []
    for k, l, n, v in els:
        if rng.random() < .5:
            n = (n[1], n[0]) + tuple(n[2:])
        out.append((k, l, n, v))
    return Net(out)


def families(rng):
    v = lambda: round(rng.uniform(.3, 3), 3)
    yield 'series RLC', [('V', 's', (DATUM, 'a'), None), ('R', 'r', ('a', 'b'), v()), ('L', 'l', ('b', 'c'), v()), ('C', 'c', ('c', DATUM), v())]
    yield 'parallel RLC', [('I', 's', (DATUM, 'a'), None), ('R', 'r', ('a', DATUM), v()), ('L', 'l', ('a', DATUM), v()),
                           ('C', 'c', ('a', DATUM), v())]
    for n in (1, 2, 3):
        els = [('V', 's', (DATUM, 'n0'), None)]
        for i in range(n):
            els += [('R', 'r%d' % i, ('n%d' % i, 'n%d' % (i + 1)), v()), ('C', 'c%d' % i, ('n%d' % (i + 1), DATUM), v())]
        yield 'RC ladder %d' % n, els
        els = [('V', 's', (DATUM, 'n0'), None)]
        for i in range(n):
            els += [('L', 'l%d' % i, ('n%d' % i, 'n%d' % (i + 1)), v()), ('C', 'c%d' % i, ('n%d' % (i + 1), DATUM), v())]
        els += [('R', 'rl', ('n%d' % n, DATUM), v())]
        yield 'LC ladder %d' % n, els
    yield 'bridge', [('V', 's', (DATUM, 'a'), None), ('R', 'r1', ('a', 'b'), v()), ('R', 'r2', ('a', 'c'), v()), ('C', 'c1', ('b', DATUM), v()),
                     ('C', 'c2', ('c', DATUM), v()), ('R', 'r3', ('b', 'c'), v())]
    yield 'two sources', [('V', 's', (DATUM, 'a'), None), ('R', 'r1', ('a', 'b'), v()), ('C', 'c1', ('b', DATUM), v()), ('I', 'i', (DATUM, 'b'), None)]
    yield 'gyrated capacitor', [('V', 's', (DATUM, 'a'), None), ('R', 'r', ('a', 'b'), v()), ('G', 'g', ('b', DATUM, 'c', DATUM), v()),
                                ('C', 'c', ('c', DATUM), v())]
    yield 'transformed load', [('V', 's', (DATUM, 'a'), None), ('T', 't', ('a', DATUM, 'b', DATUM), v()), ('L', 'l', ('b', 'c'), v()),
                               ('R', 'r', ('c', DATUM), v())]
    yield 'transformed load, current', [('I', 's', (DATUM, 'a'), None), ('T', 't', ('a', DATUM, 'b', DATUM), v()), ('C', 'c', ('b', DATUM), v()),
                                        ('R', 'r', ('b', DATUM), v())]


@obligation('C05', 'families', 'standard circuits (series/parallel RLC, RC and LC ladders, bridge, sources, gyrator, transformer), 2/12 '
            'random orders of insertion and orientations each: must be accepted and behave as the network', FUNCS, limit=170)
def fam(t):
    for rep in range(t.pick(2, 12)):
        for name, els in families(t.rng):
            net = Net(els) if rep == 0 else shuffled(t.rng, els)
            t.case(family=name, network=net.els)
            c = build(net, t)
            t.check(compare(t, net, c, t.rng), 'the oracle solves the family')


@obligation('C05', 'inconsistent', 'inconsistent networks in all orders of insertion of at most 4 elements: loops of voltage sources, '
            'cutsets of current sources, floating parts', FUNCS, limit=120)
def incons(t):
    V, I, R = 'V', 'I', 'R'
    d = DATUM
    nets = [[(V, 'v1', (d, 'a'), None), (V, 'v2', (d, 'a'), None), (R, 'r', ('a', d), 1.)],
            [(V, 'v1', (d, 'a'), None), (V, 'v2', ('a', 'b'), None), (V, 'v3', ('b', d), None)],
            [(I, 'i1', (d, 'a'), None), (I, 'i2', ('a', 'b'), None), (R, 'r', ('b', d), 1.)],
            [(I, 'i1', (d, 'a'), None), (R, 'r', ('b', d), 1.)],
            [(I, 'i1', (d, 'a'), None), ('L', 'l', ('a', d), 1.)][:1],
            [(V, 'v1', (d, 'a'), None), (R, 'r', ('b', 'c'), 1.), (R, 'r2', ('b', 'c'), 1.), (R, 'r3', ('a', d), 1.)]]
    for els in nets:
        for perm in itertools.permutations(els):
            net = Net(list(perm))
            t.case(network=net.els)
            t.n += 1
            try:
                c = build(net, t)
            except Skip:
                raise
            except Exception:       # noqa
                continue
            t.check(False, 'an inconsistent network was accepted', M=c.M, y=c.y)


@obligation('C05', 'kirchhoff', '60/300 random networks including diodes and bipolar transistors, and connectors before their resolution; one '
            'random value of the flow/effort variables each', FUNCS, limit=170)
def kirchhoff(t):
    el = t.imp('pyphs.dictionary', 'electronics')
    n = t.pick(60, 300)
    built = 0
    for i in range(n):
        net = rnet(t.rng, t.rng.choice(['RLC', 'RLCG', 'RCT', 'RC']), ne=(1, 5))
        nodes = sorted({q for e in net.els for q in e[2]} | {DATUM})
        extra = []
        if t.rng.random() < .7:
            extra.append(('D', 'd0', tuple(t.rng.sample(nodes, 2))))
        if t.rng.random() < .4 and len(nodes) > 2:
            extra.append(('Q', 'q0', tuple(t.rng.sample(nodes, 3))))
        t.case(network=net.els, nonlinear=extra)

        def f():
            g = net.graph(t)
            for k, l, nn in extra:
                g += el.Diode(l, nn) if k == 'D' else el.Bjt(l, nn)
            lab = sorted(str(e[-1]['label']) for e in g.edges(data=True))
            return g, lab, g.to_core(connect=False)
        try:
            g, lab, c = timed(f, 8)
        except Skip:
            raise
        except Exception:      # noqa
            continue
        built += 1
        ed = list(g.edges(data=True))
        var = [str(v) for v in list(c.x) + list(c.w) + list(c.y) + list(c.cy)]
        t.eq(sorted(var), sorted(str(e[-1]['label']) for e in ed), 'each edge appears exactly once in the system')
        if len(ed) == len(lab):
            t.eq(sorted(var), lab, 'each component edge appears exactly once in the system')
        M = fmat(c.M, {k: float(v) for k, v in c.subs.items()})
        N = len(M)
        t.eq(N, len(var), 'dimension of the structure')
        t.eq(len(c.cu), len(c.cy), 'one input per connector output')
        for cn in c.connectors:
            for uu, yy in zip(cn['u'], cn['y']):
                t.check(uu in c.cu and yy in c.cy and list(c.cu).index(uu) == list(c.cy).index(yy), 'input and output of a connector port have the '
                        'same position', cu=c.cu, cy=c.cy, connector=cn)
        t.check(all(abs(M[p][q] + M[q][p]) < 1e-9 for p in range(N) for q in range(N)), 'lossless interconnection', M=M)
        b = [t.rng.uniform(-2, 2) for _ in var]
        a = [sum(M[p][q] * b[q] for q in range(N)) for p in range(N)]
        an = getattr(g, 'analysis', None)
        ctrl = {}
        for e in ed:
            d = e[-1]
            l = str(d['label'])
            ctrl[l] = d['ctrl'] if d['ctrl'] in ('e', 'f') else None
        if any(v is None for v in ctrl.values()):
            if an is None or not hasattr(an, 'ec_edges'):
                raise Skip('no analysis object')
            for k in list(an.ec_edges) + list(an.fc_edges):
                l = str(an.edges[k][2]['label'])
                cc = 'e' if k in an.ec_edges else 'f'
                if ctrl.get(l) is None:
                    ctrl[l] = cc
                t.eq(ctrl[l], cc, 'the control of an edge is the one of its component', edge=l)
        E, F = {}, {}
        for p, l in enumerate(var):
            E[l], F[l] = (a[p], b[p]) if ctrl[l] == 'e' else (b[p], a[p])
        for nd in sorted({q for e in ed for q in e[:2]}):
            if nd == DATUM:
                continue
            s = sum(((e[1] == nd) - (e[0] == nd)) * F[str(e[-1]['label'])] for e in ed)
            t.close(s, 0, 'conservation of flows at node %s' % nd, M=M, variables=var, controls=ctrl)
        pot = {DATUM: 0.}
        todo = True
        while todo:
            todo = False
            for e in ed:
                v = E[str(e[-1]['label'])]
                if e[0] in pot and e[1] not in pot:
                    pot[e[1]] = pot[e[0]] - v
                    todo = True
                elif e[1] in pot and e[0] not in pot:
                    pot[e[0]] = pot[e[1]] + v
                    todo = True
        for e in ed:
            if e[0] in pot:
                t.close(pot[e[0]] - pot[e[1]], E[str(e[-1]['label'])], 'efforts around loops, edge %s' % e[-1]['label'], M=M, variables=var,
                        controls=ctrl)
        for w, z in zip(c.w, c.z):
            d = [e[-1] for e in ed if e[-1]['label'] == w][0]
            t.eq(sp.simplify(z - d['z'][ctrl[str(w)] + '_ctrl']), 0, 'dissipation law of the assigned control', w=w, z=z)
    t.check(built >= n // 8, 'networks are turned into systems', built=built, tried=n)


@obligation('C05', 'netlist', '12/60 random netlists: the graph of a netlist is the graph of its components', ['Graph._build_from_netlist',
            'Graph.__init__', 'Netlist.add_line'], limit=100)
def netl(t):
    Netlist, Graph = t.imp('pyphs', 'Netlist', 'Graph')
    comp = {'R': ('electronics.resistor', 'R'), 'C': ('electronics.capacitor', 'C'), 'L': ('electronics.inductor', 'L')}
    for i in range(t.pick(12, 60)):
        name, els = t.rng.choice([f for f in families(t.rng) if f[0].startswith(('series', 'par', 'RC', 'LC', 'bridge', 'two'))])
        net = shuffled(t.rng, els)
        t.case(family=name, network=net.els)
        nl = Netlist('./nl%d.net' % i, clear=True)
        for k, l, n, v in net.els:
            if k in comp:
                dic, cmp_ = comp[k][0].split('.')
                nl.add_line({'dictionary': dic, 'component': cmp_, 'label': l, 'nodes': n, 'arguments': {comp[k][1]: (l + '_p', v)}})
            else:
                nl.add_line({'dictionary': 'electronics', 'component': 'source', 'label': l, 'nodes': n,
                             'arguments': {'type': 'voltage' if k == 'V' else 'current'}})
        c = timed(lambda: Graph(netlist=nl).to_core(), 20)
        compare(t, net, c, t.rng)
