"""C07 - dictionary components: the constructors are executed from their source with the real sympy; parameters are given by the user
as a name, a (name, value) pair, a pair with the names of the other parameters, or a number (any real).  The laws obtained are
rational functions of the symbols and of applications of exp, log, cos and powers; each application is a real constrained by
instances of elementary facts (LEMMAS), equal applications being one real."""
import random
import sympy as sp
import types as pytypes
from .. import load
from ..spec import *

DIC = 'pyphs/dictionary/'
ASSUMPTIONS = [
    'C07: sympy arithmetic, diff, xreplace and subs are trusted; exp(t) > 0, (exp(s)-exp(t))(s-t) >= 0, (exp(s)-1)s >= 0, log(s)(s-1) >= 0 for '
    's > 0, log(exp(t)) = t, exp(log(s)) = s, b**e > 0 for b > 0, b**e < 1 for 0 < b < 1 and e > 0, log(cos(t)) <= -t**2/2 for |t| < pi/2',
    'C07: contract assumed of Graph: __init__ creates an empty core, add_edges_from records the edges',
]


# ------------------------------------------------------------------ real arithmetic of laws

class Abs:
    """rational function over atoms, atoms being symbols or applications of elementary functions"""

    def __init__(self):
        self.apps = {}          # (name, args) -> Dummy
        self.info = {}          # Dummy -> (name, args)

    def cancel(self, e):
        return sp.cancel(sp.together(e))

    def app(self, name, args):
        args = tuple(self.cancel(a) for a in args)
        if name == 'log' and args[0] in self.info and self.info[args[0]][0] == 'exp':
            return self.info[args[0]][1][0]
        if name == 'exp' and args[0] in self.info and self.info[args[0]][0] == 'log':
            return self.info[args[0]][1][0]
        if name == 'exp' and args[0] == 0:
            return sp.Integer(1)
        if (name, args) not in self.apps:
            d = sp.Symbol('%s_%d' % (name, len(self.apps)), real=True)
            self.apps[name, args] = d
            self.info[d] = (name, args)
        return self.apps[name, args]

    def __call__(self, e):
        e = sp.sympify(e)
        if isinstance(e, sp.Float):
            return sp.Rational(str(e)) if abs(e) < 1e-6 else sp.Rational(float(e)).limit_denominator(10**9)
        if e.is_Number or e.is_Symbol:
            return e
        if e is sp.pi:
            return self.app('pi', ())
        if isinstance(e, (sp.Add, sp.Mul)):
            return e.func(*[self(a) for a in e.args])
        if isinstance(e, sp.Pow):
            b, x = e.args
            if isinstance(x, sp.Float) and x == int(x):
                x = sp.Integer(int(x))
            if x.is_Integer:
                return self(b) ** x
            return self.app('pow', (self(b), self(x)))
        if isinstance(e, (sp.exp, sp.log, sp.cos, sp.tan, sp.sin)):
            if isinstance(e, sp.tan):
                return self(sp.sin(e.args[0])) / self(sp.cos(e.args[0]))
            return self.app(type(e).__name__, (self(e.args[0]),))
        raise Unsupported('law with %s' % type(e).__name__)


def zpoly(e):
    """polynomial over symbols -> z3"""
    if e.is_Rational:
        return z3.RealVal(str(e))
    if e.is_Symbol:
        return z3.Real(e.name)
    if isinstance(e, sp.Add):
        return z3.Sum([zpoly(a) for a in e.args])
    if isinstance(e, sp.Mul):
        r = zpoly(e.args[0])
        for a in e.args[1:]:
            r = r * zpoly(a)
        return r
    if isinstance(e, sp.Pow) and e.exp.is_Integer and e.exp > 0:
        r = b = zpoly(e.base)
        for _ in range(int(e.exp) - 1):
            r = r * b
        return r
    raise Unsupported('not a polynomial: %s' % e)


def sgn(e):
    """z3 term with the sign of the rational function e"""
    n, d = sp.fraction(sp.cancel(sp.together(e)))
    d = sp.factor_list(d)
    r = zpoly(sp.expand(n)) * zpoly(sp.sympify(d[0]))
    for b, k in d[1]:
        if k % 2:
            r = r * zpoly(b)
    return r


def facts(A, pairs=True):
    F = []
    for d, (name, args) in list(A.info.items()):
        z = z3.Real(d.name)
        if name == 'pi':
            F += [z > z3.RealVal('3.14159'), z < z3.RealVal('3.1416')]
        elif name == 'exp':
            F += [z > 0, (z - 1) * sgn(args[0]) >= 0, z3.Implies(sgn(args[0]) == 0, z == 1)]
        elif name == 'log':
            F += [z3.Implies(sgn(args[0]) > 0, z * sgn(args[0] - 1) >= 0)]
            i = A.info.get(args[0])
            if i and i[0] == 'cos':
                F += [sgn(d + i[1][0]**2 / 2) <= 0]
        elif name == 'pow':
            F += [z3.Implies(sgn(args[0]) > 0, z > 0),
                  z3.Implies(z3.And(sgn(args[0]) > 0, sgn(1 - args[0]) > 0, sgn(args[1]) > 0), z < 1)]
    ex = [(d, a[0]) for d, (n, a) in A.info.items() if n == 'exp']
    for i in range(len(ex)):
        for j in range(i):
            F.append((z3.Real(ex[i][0].name) - z3.Real(ex[j][0].name)) * sgn(ex[i][1] - ex[j][1]) >= 0)
    return F


def branches(e):
    """(hypotheses [expr > 0 or <= 0], expression) of a law defined by cases"""
    e = sp.piecewise_fold(sp.sympify(e))
    if not isinstance(e, sp.Piecewise):
        return [([], e)]
    out, neg = [], []
    for x, c in e.args:
        if c == True:       # noqa
            out.append((list(neg), x))
            break
        if not isinstance(c, sp.core.relational.Relational):
            raise Unsupported('case condition %s' % c)
        out.append((neg + [c], x))
        neg = neg + [sp.Not(c)]
    return out


def zrel(c, A):
    d = sgn(A(c.lhs - c.rhs))
    return {'>': d > 0, '>=': d >= 0, '<': d < 0, '<=': d <= 0, '==': d == 0, '!=': d != 0}[c.rel_op]


def decide(name, e, op, pos, cond=(), hyp=(), quick=None):
    """e op 0 for all positive values of `pos`, all values of the other symbols satisfying cond (sympy relations), and the
    inequalities `hyp` (expressions >= 0); a refutation needs numbers confirmed on the law itself"""
    c = ctx()
    ok = True
    import time
    for hs, b in branches(e):
        A = Abs()
        try:
            x = A(b)
            H = [zrel(h, A) for h in list(hs) + list(cond)]
            H += [sgn(A(h)) >= 0 for h in hyp]
            g = sgn(x)
            goal = g == 0 if op == '==' else g >= 0
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*[z3.Real(p.name) > 0 for p in pos], *H, *facts(A))
            s.add(z3.Not(goal))
            t0 = time.time()
            r = s.check()
            c.rep.solver_s += time.time() - t0
            c.rep.queries += 1
        except Unsupported as u:
            r = z3.unknown
        ok = ok and r == z3.unsat
    if ok:
        c.rep._rec(name, 'proved')
        return
    w = falsify(sp.sympify(e), op, pos, cond)
    if w:
        c.rep.fail(c, name, {'what': '%s %s 0 is false' % (e, op), 'values': w})
    else:
        c.rep._rec(name, 'unknown', {'goal': '%s %s 0' % (e, op), 'reason': 'not decided, no failing value found'})


def falsify(e, op, pos, cond):
    rng = random.Random(1)
    S = sorted(e.free_symbols | set().union(*[q.free_symbols for q in cond]), key=str)
    for k in range(400):
        env = {s: (sp.Rational(rng.randint(1, 4000), 1000) if s in pos else sp.Rational(rng.randint(-3000, 3000), 1000)) for s in S}
        try:
            if not all(bool(q.subs(env)) for q in cond):
                continue
            v = sp.N(e.subs(env), 40)
            sc = 1 + sum(abs(sp.N(a.subs(env), 40)) for a in sp.Add.make_args(e))
        except Exception:       # noqa
            continue
        if not v.is_real or not v.is_finite:
            continue
        if (op == '==' and abs(v) > 1e-9 * sc) or (op == '>=' and v < -1e-9 * sc):
            return {str(s): str(q) for s, q in env.items()}
    return None


# ------------------------------------------------------------------ components

class GraphContract:
    def __init__(self, label=None, **k):
        self.label, self.core, self.edges_ = label, GraphContract.Core(label=label), []
        self.datum = '#'

    def add_edges_from(self, l):
        self.edges_.extend(list(l))


def setup(L):
    K = load.Loader(L.repo, stubs={'sympy': sp, 'sympy.printing': sp.printing})
    G = type('Graph', (GraphContract,), {})
    K._top = lambda n: G if n == 'Graph' else load.placeholder('pyphs.' + n)
    C_ = K.load('pyphs.core.core').Core

    class Core(C_):
        def add_connector(self, indices, alpha=None):
            """contract of Core.add_connector (C03): declares the connection of the two ports"""
            self.declared = getattr(self, 'declared', []) + [(tuple(indices), alpha)]
    GraphContract.Core = Core
    return K


def S(n):
    return sp.Symbol(n, real=True)


def plain(l):
    return [l[i] for i in range(int(len(l)))]


def build(L, mod, cls, nodes, names, label='lab', **fixed):
    """component with its parameters given in one of the four styles; (component, {parameter: symbol of the law}, values)"""
    K = setup(L)
    c = getattr(K.load('pyphs.dictionary.' + mod), cls)
    st = choice('style', 4)
    names = names.split()
    kw, vals = {}, {}
    for i, n in enumerate(names):
        vals[n] = SReal(z3.Real('value_' + n))
        assume(vals[n].e > 0)
        kw[n] = ['my' + n, ('my' + n, vals[n]), (names[(i + 1) % len(names)], vals[n]), vals[n]][st]
    g = returns_normally('total', lambda: c(label, nodes, **dict(kw, **fixed)))
    subs = dict(g.core.subs)
    par = {}
    for i, n in enumerate(names):
        if st == 0:
            par[n] = S('my' + n)
            free = plain(g.core.p)
            check('named.free.' + n, free.count(par[n]) == 1, p=free)
            check('named.unset.' + n, par[n] not in subs, subs=subs)
        elif st < 3:
            par[n] = S(kw[n][0])
            check('pair.stored.' + n, par[n] in subs and same(subs[par[n]], vals[n]), subs=subs)
        else:
            k = [s for s in subs if same(subs[s], vals[n])]
            check('value.stored.' + n, len(k) == 1, subs=subs)
            par[n] = k[0]
    return g, par, subs


def choice(name, k):
    for q in range(k - 1):
        if ctx().branch(z3.Const('%s_%d' % (name, q), z3.BoolSort())):
            return q
    return k - 1


def same(a, b):
    return a is b or (isinstance(a, SReal) and isinstance(b, SReal) and ctx().entails(a.e == b.e))


def check(name, ok, **info):
    c = ctx()
    if ok:
        c.rep._rec(name, 'proved')
    else:
        c.rep.fail(c, name, dict(info, path=c.trail[-5:]))
        raise PathEnd()


def edges(g):
    return [(a, b, d) for a, b, d in g.edges_]


def one_storage(g, ctrl):
    x, E = plain(g.core.x), edges(g)
    check('one.state', len(x) == 1 and len(E) == 1 and not plain(g.core.w) and not plain(g.core.u), x=x, edges=E)
    d = E[0][2]
    check('edge', d['type'] == 'storage' and d['ctrl'] == ctrl and d['label'] == x[0], edge=d)
    return x[0]


def storage(name, mod, cls, nodes, names, H, ctrl, cond=lambda p, x: [], label='lab', also=''):
    @contract('C07.' + name, [DIC + mod.replace('.', '/') + '.py:%s.__init__' % cls, DIC + 'edges/storages.py', DIC + 'tools.py:form',
                              DIC + 'tools.py:mappars'],
              note='energy of the documented form in the given parameters, nonnegative for all positive parameters and all states%s; '
              'gradient of that energy; documented causality; four ways of giving the parameters, any value' % also)
    def harness(L):
        g, par, subs = build(L, mod, cls, nodes, names, label)
        x = one_storage(g, ctrl)
        e = sp.sympify(g.core.H)
        q = {k: v for k, v in par.items()}
        ref = H(q, x)
        dom = cond(q, x)
        check('symbols', e.free_symbols <= set(par.values()) | {x}, H=e)
        decide('energy.documented', e - ref, '==', par.values(), dom)
        decide('energy.nonnegative', e, '>=', par.values(), dom)
        gr = sp.sympify(plain(g.core.dxH())[0])
        decide('gradient.documented', gr - sp.diff(ref, x), '==', par.values(), dom)
        cover('end')
    return harness


def sat(q, k0, ks, qs):
    pi = sp.pi
    return k0 * (q**2 / 2 + ks * (-8 * qs / (pi * (4 - pi))) * (pi**2 * q**2 / (8 * qs**2) + sp.log(sp.cos(pi * q / (2 * qs)))))


def lin(n):
    return lambda p, x: x**2 / (2 * p[n])


cubic = lambda p, x: p['F1'] * x**2 / (2 * p['xref']) + p['F3'] * x**4 / (4 * p['xref']**3)      # noqa
below = lambda n: (lambda p, x: [x < p[n], x > -p[n]])      # noqa
for nm, a in {
        'capacitor': ('electronics._capacitor', 'Capacitor', ('A', 'B'), 'C', lin('C'), 'f'),
        'inductor': ('electronics._inductor', 'Inductor', ('A', 'B'), 'L', lin('L'), 'e'),
        'mass': ('mechanics._mass', 'Mass', ('A',), 'M', lin('M'), 'f'),
        'stiffness': ('mechanics._stiffness', 'Stiffness', ('A', 'B'), 'K', lambda p, x: p['K'] * x**2 / 2, 'e'),
        'springcubic': ('mechanics._springcubic', 'Springcubic', ('A', 'B'), 'F1 F3 xref', cubic, 'e'),
        'springsat': ('mechanics._springsat', 'Springsat', ('A', 'B'), 'K0 Ksat xsat',
                      lambda p, x: sat(x, p['K0'], p['Ksat'], p['xsat']), 'e', below('xsat')),
        'dual_mass': ('mechanics_dual._mass', 'Mass', ('A', 'B'), 'M', lin('M'), 'e'),
        'dual_stiffness': ('mechanics_dual._stiffness', 'Stiffness', ('A', 'B'), 'K', lambda p, x: p['K'] * x**2 / 2, 'f'),
        'dual_springcubic': ('mechanics_dual._springcubic', 'Springcubic', ('A', 'B'), 'F1 F3 xref', cubic, 'f'),
        'dual_springsat': ('mechanics_dual._springsat', 'Springsat', ('A', 'B'), 'K0 Ksat xsat',
                           lambda p, x: sat(x, p['K0'], p['Ksat'], p['xsat']), 'f', below('xsat')),
        'mag_capacitor': ('magnetics._capacitor', 'Capacitor', ('A', 'B'), 'C', lin('C'), 'f'),
        'mag_capacitorsat': ('magnetics._capacitorsat', 'Capacitorsat', ('A', 'B'), 'C0 Csat phisat',
                             lambda p, x: sat(x, 1 / p['C0'], p['Csat'], p['phisat']), 'f', below('phisat'))}.items():
    storage(nm, *a, also=' (below saturation)' if 'sat' in nm else '')
storage('heat', 'thermics._capacitor', 'Capacitor', ('T',), 'C T0', lambda p, x: p['C'] * p['T0'] * sp.exp(x / p['C']), 'f', label='T')


def laws(g, pos, ref, where, cond=()):
    """every dissipative edge: passive and mutually inverse laws, the documented one, and the core's law is one of the two"""
    w, z = plain(g.core.w), [sp.sympify(q) for q in plain(g.core.z)]
    E = edges(g)
    check('edges', sorted(str(d['label']) for _, _, d in E) == sorted(map(str, w)) and len(set(w)) == len(w), w=w, edges=E)
    for k, (a, b, d) in enumerate(E):
        v = d['label']
        key = where(a, b, d)
        ze, zf = sp.sympify(d['z']['e_ctrl']), sp.sympify(d['z']['f_ctrl'])
        check('dissipative.%s' % key, d['type'] == 'dissipative' and d['ctrl'] == '?', edge=d)
        r = ref(key, v)
        decide('law.documented.%s' % key, ze - r, '==', pos, cond)
        decide('passive.e.%s' % key, v * ze, '>=', pos, cond)
        if sp.sympify(zf).has(sp.log):
            arg = [q.args[0] for q in zf.atoms(sp.log)]
            decide('passive.f.%s' % key, v * zf, '>=', pos, list(cond) + [q > 0 for q in arg])
            decide('inverse.%s' % key, zf.subs(v, ze) - v, '==', pos, cond)
            decide('inverse.back.%s' % key, ze.subs(v, zf) - v, '==', pos, list(cond) + [q > 0 for q in arg])
        else:
            decide('passive.f.%s' % key, v * zf, '>=', pos, cond)
            decide('inverse.%s' % key, zf.subs(v, ze) - v, '==', pos, cond)
            decide('inverse.back.%s' % key, ze.subs(v, zf) - v, '==', pos, cond)
        i = w.index(v)
        check('core.law.%s' % key, z[i] in (ze, zf) or sp.simplify(z[i] - zf) == 0 or sp.simplify(z[i] - ze) == 0, z=z[i])


def linear(name, mod, cls, par, inv):
    @contract('C07.' + name, [DIC + mod.replace('.', '/') + '.py:%s.__init__' % cls, DIC + 'edges/dissipatives.py:DissipativeLinear.__init__',
                              DIC + 'tools.py:form'],
              note='effort = coefficient times flux (documented direction), both laws mutually inverse and passive, for every positive '
              'coefficient and every value of the variable; four ways of giving the coefficient')
    def harness(L):
        g, P, subs = build(L, mod, cls, ('A', 'B'), par)
        r = P[par]
        check('nodes', [e[:2] for e in edges(g)] == [('A', 'B')], edges=edges(g))
        laws(g, [r], lambda k, v: v * r if inv else v / r, lambda a, b, d: 'edge')
        cover('end')


for nm, a in {'resistor': ('electronics._resistor', 'Resistor', 'R', False), 'mag_resistor': ('magnetics._resistor', 'Resistor', 'R', False),
              'damper': ('mechanics._damper', 'Damper', 'A', True), 'dual_damper': ('mechanics_dual._damper', 'Damper', 'A', False)}.items():
    linear(nm, *a)


@contract('C07.diode', [DIC + 'electronics/_diode.py:Diode.__init__', DIC + 'edges/dissipatives.py:DissipativeNonLinear.__init__',
                        DIC + 'tools.py:mappars'],
          note='Shockley law with the given parameters, series resistance, leakage: laws passive and mutually inverse for all positive '
          'parameters and every voltage or admissible current')
def diode(L):
    g, P, subs = build(L, 'electronics._diode', 'Diode', ('A', 'B'), 'Is mu R v0')
    extra = [s for s in subs if s not in P.values()]
    E = edges(g)
    inner = {n for e in E for n in e[:2]} - {'A', 'B'}
    check('topology', len(inner) == 1 and sorted('B' in e[:2] for e in E) == [False, False, True] and
          sorted('A' in e[:2] for e in E) == [False, True, True], edges=E)

    def where(a, b, d):
        if 'B' in (a, b):
            return 'series'
        return 'junction' if sp.sympify(d['z']['e_ctrl']).has(sp.exp) else 'leak'
    check('one.junction', sorted(where(*e) for e in E) == ['junction', 'leak', 'series'], edges=E)
    check('leakage', all(0 < float(subs[s]) < 1e-6 for s in extra if not isinstance(subs[s], SReal)), subs=subs)
    for e in E:
        if where(*e) == 'junction':
            check('forward', e[0] == 'A', edge=e)
    lk = [sp.sympify(d['z']['e_ctrl']) for a, b, d in E if where(a, b, d) == 'leak'][0]

    def ref(k, v):
        return {'junction': P['Is'] * (sp.exp(v / (P['mu'] * P['v0'])) - 1), 'series': v / P['R'],
                'leak': lk}[k]
    laws(g, list(P.values()) + extra, ref, where)
    cover('end')


@contract('C07.potentiometer', [DIC + 'electronics/_potentiometer.py:Potentiometer.__init__', DIC + 'edges/dissipatives.py:DissipativeNonLinear.__init__'],
          note='resistances 1 + R A**E and 1 + R (1 - A**E), passive and mutually inverse laws, for all R, E > 0 and 0 < A < 1')
def potentiometer(L):
    g, P, subs = build(L, 'electronics._potentiometer', 'Potentiometer', ('A', 'B', 'C'), 'R A E')
    R, A, E = P['R'], P['A'], P['E']
    check('nodes', [e[:2] for e in edges(g)] == [('A', 'B'), ('B', 'C')], edges=edges(g))
    laws(g, P.values(), lambda k, v: v / (1 + R * (A**E if k == 'first' else 1 - A**E)),
         lambda a, b, d: 'first' if 'A' in (a, b) else 'second', [A < 1])
    cover('end')


@contract('C07.bjt', [DIC + 'electronics/_bjt.py:Bjt.__init__', DIC + 'edges/dissipatives.py:DissipativeNonLinear.__init__'], budget=240,
          note='Ebers-Moll currents with the given parameters, access resistances passive with mutually inverse laws; the power in the two '
          'coupled junctions is nonnegative for all positive parameters and every pair of voltages')
def bjt(L):
    g, P, subs = build(L, 'electronics._bjt', 'Bjt', ('b', 'c', 'e'), 'Is betaR betaF Vt mu Rb Rc Re')
    E = edges(g)
    acc = [e for e in E if set(e[:2]) & {'b', 'c', 'e'}]
    jun = [e for e in E if e not in acc]
    check('topology', len(acc) == 3 and len(jun) == 2, edges=E)
    inner = {}
    for a, b, d in acc:
        n = [q for q in (a, b) if q in ('b', 'c', 'e')][0]
        inner[[q for q in (a, b) if q != n][0]] = n
        v, r = d['label'], P['R' + n]
        decide('access.e.' + n, sp.sympify(d['z']['e_ctrl']) - v / r, '==', list(P.values()))
        decide('access.f.' + n, sp.sympify(d['z']['f_ctrl']) - v * r, '==', list(P.values()))
    J = {}
    for a, b, d in jun:
        check('junction', inner[a] == 'b' and inner[b] in ('c', 'e') and d['ctrl'] == 'e', edge=(a, b, d))
        J[inner[b]] = (d['label'], sp.sympify(d['z']['e_ctrl']))
    (vc, ic), (ve, ie) = J['c'], J['e']
    pos = list(P.values())
    f = lambda v: P['Is'] * (sp.exp(v / (P['mu'] * P['Vt'])) - 1)      # noqa
    gm = {k: [sp.diff(i, v).subs({vc: 0, ve: 0}) for v in (vc, ve)] for k, i in (('c', ic), ('e', ie))}
    G = sp.Rational(1, 10**12)
    F = lambda v: f(v) + G * v      # noqa
    decide('current.bc', ic - ((1 + 1 / P['betaR']) * F(vc) - F(ve)), '==', pos)
    decide('current.be', ie - ((1 + 1 / P['betaF']) * F(ve) - F(vc)), '==', pos)
    # nonnegative power: (F(vc)-F(ve))(vc-ve) + F(vc)vc/betaR + F(ve)ve/betaF, term by term
    t1, t2, t3 = (F(vc) - F(ve)) * (vc - ve), F(vc) * vc / P['betaR'], F(ve) * ve / P['betaF']
    decide('power.split', ic * vc + ie * ve - (t1 + t2 + t3), '==', pos)
    for k, t in (('coupling', t1), ('bc', t2), ('be', t3)):
        decide('power.' + k, t, '>=', pos)
    cover('end')


def felt(name, mod, ctrl):
    @contract('C07.' + name, [DIC + mod.replace('.', '/') + '.py:Felt.__init__'],
              note='documented elastic energy and damping, nonnegative energy and dissipated power for all positive parameters, '
              'contractions and velocities (exponent above one)')
    def harness(L):
        g, P, subs = build(L, mod, 'Felt', ('A', 'B'), 'L F A B')
        E = {d['type']: (a, b, d) for a, b, d in edges(g)}
        check('edges', sorted(E) == ['dissipative', 'storage'] and len(edges(g)) == 2, edges=edges(g))
        x, w = E['storage'][2]['label'], E['dissipative'][2]['label']
        check('variables', [x] == plain(g.core.x) and [w] == plain(g.core.w), x=plain(g.core.x))
        check('causality', E['storage'][2]['ctrl'] == ctrl, edge=E['storage'])
        Lh, F, A, B = (P[k] for k in 'LFAB')
        H = sp.sympify(g.core.H)
        decide('energy.nonnegative', H, '>=', P.values())
        decide('energy.rest', H, '==', P.values(), [x < 0])
        decide('energy.documented', H - Lh * F / (B + 1) * (x / Lh)**(B + 1), '==', P.values(), [x > 0])
        dc = E['dissipative'][2]
        k = '%s_ctrl' % dc['ctrl']
        z = sp.sympify(plain(g.core.z)[0])
        check('core.law', z == sp.sympify(dc['z'][k]), z=z, edge=dc)
        decide('passive', z * w, '>=', P.values())
        decide('law.rest', z, '==', P.values(), [x < 0])
        decide('law.documented', z - w * (A * Lh / B) * (x / Lh)**(B - 1), '==', P.values(), [x > 0])
        cover('end')


felt('felt', 'mechanics._felt', 'e')
felt('dual_felt', 'mechanics_dual._felt', 'f')


def source(name, mod, types):
    @contract('C07.' + name, [DIC + mod.replace('.', '/') + '.py:Source.__init__', DIC + 'edges/port.py:Port.__init__'],
              note='one lossless port with the documented causality for each type in any letter case, and the given constant input')
    def harness(L):
        K = setup(L)
        c = K.load('pyphs.dictionary.' + mod).Source
        for typ, ctrl in types.items():
            for t in (typ, typ.upper(), typ.capitalize()):
                for const in (None, SReal(z3.Real('const'))):
                    kw = {'type': t}
                    if const is not None:
                        kw['const'] = const
                    g = returns_normally('total', lambda: c('lab', ('A', 'B'), **kw))
                    E, u, y = edges(g), plain(g.core.u), plain(g.core.y)
                    check('port', len(u) == len(y) == 1 and u != y, u=u, y=y)
                    check('edge', len(E) == 1 and E[0][:2] == ('A', 'B') and E[0][2]['type'] == 'port' and
                          E[0][2]['label'] == y[0], edges=E)
                    check('causality.' + typ, E[0][2]['ctrl'] == ctrl, edges=E)
                    check('lossless', not plain(g.core.x) and not plain(g.core.w) and g.core.H == 0, x=plain(g.core.x))
                    check('const', (const is None or same(dict(g.core.subs).get(u[0]), const)) and len(dict(g.core.subs)) == (const is not None), subs=dict(g.core.subs))
        cover('end')


source('source', 'electronics._source', {'voltage': 'f', 'current': 'e'})
source('mec_source', 'mechanics._source', {'velocity': 'f', 'force': 'e'})
source('dual_source', 'mechanics_dual._source', {'force': 'f', 'velocity': 'e'})
source('mag_source', 'magnetics._source', {'mmf': 'f', 'fluxvar': 'e'})


@contract('C07.transfer', [DIC + 'thermics/_transfers.py:Transfer.__init__'],
          note='irreversible transfer: no power (energy) is created or lost and entropy production is nonnegative, for all positive '
          'temperatures and coefficients')
def transfer(L):
    g, P, subs = build(L, 'thermics._transfers', 'Transfer', ('T1', 'T2'), 'R')
    E = edges(g)
    check('edges', len(E) == 2 and all(d['type'] == 'dissipative' and d['ctrl'] == 'e' for _, _, d in E), edges=E)
    t = {'T1': S('gxT1'), 'T2': S('gxT2')}
    W, Z = {}, {}
    for a, b, d in E:
        check('node', b in t, edge=(a, b))
        W[b], Z[b] = d['label'], sp.sympify(d['z']['e_ctrl'])
    check('both', len(W) == 2, edges=E)
    s = {W[n]: t[n] for n in t}
    z = {n: Z[n].subs(s) for n in t}
    pos = list(P.values()) + list(t.values())
    decide('power', z['T1'] * t['T1'] + z['T2'] * t['T2'], '==', pos)
    # flows are counted as received from the two bodies
    decide('entropy', -(z['T1'] + z['T2']), '>=', pos)
    decide('flow.1', z['T1'] - P['R'] * (t['T1'] - t['T2']) / t['T1'], '==', pos)
    decide('flow.2', z['T2'] - P['R'] * (t['T2'] - t['T1']) / t['T2'], '==', pos)
    cover('end')


def connector(name, mod, cls, typ):
    @contract('C07.' + name, [DIC + mod.replace('.', '/') + '.py:%s.__init__' % cls, DIC + 'edges/connectors.py:Connector.__init__'],
              note='two ports connected by the given coefficient and nothing else (no storage, no dissipation, zero structure)')
    def harness(L):
        g, P, subs = build(L, mod, cls, ('A', 'B', 'C', 'D'), 'alpha')
        E = edges(g)
        check('nodes', [e[:2] for e in E] == [('A', 'B'), ('C', 'D')], edges=E)
        check('lossless', not plain(g.core.x) and not plain(g.core.w) and g.core.H == 0, x=plain(g.core.x))
        d1, d2 = E[0][2], E[1][2]
        check('type', all(d['type'] == 'connector' and d['connector_type'] == typ and d['ctrl'] == '?' for d in (d1, d2)), edges=E)
        check('link', d1['link'] == d2['label'] and d2['link'] == d1['label'] and d1['label'] != d2['label'], edges=E)
        check('alpha', sorted((d1['alpha'] == P['alpha'], d2['alpha'] is None)) == [True, True], edges=E)
        Y, dec = plain(g.core.y), getattr(g.core, 'declared', [])
        check('declared', len(Y) == 2 and len(dec) == 1 and [Y[i] for i in dec[0][0]] == [d1['label'], d2['label']] and
              dec[0][1] == P['alpha'], y=Y, connections=dec)
        cover('end')


connector('gyrator', 'connectors._gyrator', 'Gyrator', 'gyrator')
connector('transformer', 'connectors._transformer', 'Transformer', 'transformer')
