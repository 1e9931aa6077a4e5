"""C09 - one step solves the discretised system."""
from ..spec import *
from ..core import SBool

ME = 'pyphs/numerics/numerical_method/_method.py'


class SymMethod(SymCore):
    """a Method object over the real Core constructor, with symbolic dimensions and contents (the state in which
    Method.__init__ calls the builders below)"""

    def __init__(self, L, linear=True, **k):
        cm = L.load('pyphs.core.core')
        L.mods['pyphs'].Core = cm.Core
        self.mod = m = L.load('pyphs.numerics.numerical_method._method')
        me = track(m.Method.__new__(m.Method))
        cm.Core.__init__(me)
        SymCore.__init__(self, L, linear=linear, core=me, nc=0, **k)
        self.fs = z3.Const('fs', SymSort)
        me.fs = SSym(self.fs)
        if linear:
            self.dxH_ = VList.sym(self.nx.e, fresh_exprlist('dxH', self.nx).getter())
            me._dxH = self.dxH_
        me.funcs_names, me.ops_names, me.args_names, me.update_actions = VList([]), VList([]), VList([]), VList([])


@contract('C09.sum_single', ['(lemma) sum with one nonzero term'], note='induction on the number of terms; used by C09.structure')
def single(L):
    v = valuation()
    n, i = fresh_int('n', 0), fresh_int('i', 0)
    F = z3.Function('F', z3.IntSort(), z3.RealSort())
    f = lambda k: SExpr(lambda w: F(k))
    j = z3.Int('qj')
    assume(z3.ForAll([j], z3.Implies(j != i.e, F(j) == 0), patterns=[F(j)]))
    S = lambda k: zden(D.sum_family(n.e, f)(k))(v)
    k = generic('k')
    assume(z3.And(0 <= k, k < n.e))
    want = lambda k: z3.If(i.e < k, F(i.e), 0)
    prove('base', S(z3.IntVal(0)) == want(z3.IntVal(0)))
    assume(S(k) == want(k))
    prove('step', S(k + 1) == want(k + 1))
    cover('end')


class Parts:
    """the specification: variables and laws of each part, rows of each part in the whole"""

    def __init__(self, s):
        me = s.core
        nx, nw, ny, xl, wl = s.nx.e, s.nw.e, s.ny.e, s.xl.e, s.wl.e
        dxf = D.as_vlist(me.dx()).getter()
        self.f = lambda j: ite(j < nx, s.dxH_.getter()(j), s.zf(j - nx))
        self.v = lambda j: ite(j < nx, dxf(j), SSym(s.w(j - nx)))
        self.I = lambda j: ite(j < nx, SSym(s.fs), 1)
        self.n = {'': nx + nw, 'l': xl + wl, 'nl': nx - xl + nw - wl}
        # position in the whole of the k-th element of a part
        self.g = {'': lambda k: k, 'l': lambda k: z3.If(k < xl, k, nx + k - xl),
                  'nl': lambda k: z3.If(k < nx - xl, xl + k, nx + wl + k - (nx - xl))}
        self.M, self.u, self.ny, self.off = s.M, s.u, ny, nx + nw

    def residual(self, a, i, groups):
        """row i of the part a: I v - M f - M u, the sum over f taken group by group"""
        i = self.g[a](i)
        r = self.I(i) * self.v(i)
        for b in groups:
            r = r - sym_sum(self.n[b], lambda j, b=b: self.M(i, self.g[b](j)) * self.f(self.g[b](j)))
        return r - sym_sum(self.ny, lambda j: self.M(i, self.off + j) * SSym(self.u(j)))


def _residual(a):
    def h(L):
        s = SymMethod(L)
        me = s.core
        returns_normally('total', lambda: s.mod.set_structure(me))
        P = Parts(s)
        v = valuation()
        F = getattr(me, 'tempF' + a)
        F = D.as_vlist(returns_normally('total', lambda: F()) if callable(F) else F)
        prove('length', F.zlen() == P.n[a])
        if ctx().entails(P.n[a] == 0):
            cover('end')
            return
        i = generic('i')
        assume(in_range(i, P.n[a]))
        gi = P.g[a]
        sum_single('diagonal', P.n[a], lambda j: ite(i == j, P.I(gi(i)), 0) * P.v(gi(j)), i)
        prove('rows', zden(F.getter()(i))(v) == zden(P.residual(a, i, ('',) if a == '' else ('l', 'nl')))(v))
        cover('end')
    return h


for _a in ('', 'l', 'nl'):
    contract('C09.residual_' + (_a or 'all'), [ME + ':set_structure', ME + ':set_getters_tempF', ME + ':set_getters_I', ME + ':set_getters_v',
             ME + ':set_getters_f', ME + ':set_getters_blocks_M'],
             note='each row of the discretised system%s is (fs dx or w) - M (discrete gradient, z, u), any dimensions and any split'
                  % {'': '', 'l': ' (linear part)', 'nl': ' (nonlinear part)'}[_a])(_residual(_a))


def lst(x):
    return D.as_vlist(x() if callable(x) else x)


def _derivatives(a):
    def h(L):
        s = SymMethod(L)
        me = s.core
        returns_normally('total', lambda: s.mod.set_structure(me))
        P = Parts(s)
        v = valuation()
        F = returns_normally('total', lambda: lst(getattr(me, 'tempF' + a)))
        if ctx().entails(P.n[a] == 0):
            cover('end')
            return
        vb = lambda b: (lambda j: P.v(P.g[b](j)))
        i = generic('i')
        assume(in_range(i, P.n[a]))
        for b in (('',) if a == '' else ('l', 'nl')):
            if ctx().entails(P.n[b] == 0):
                continue
            Jb = getattr(me, 'jactempF' + a + b)
            Jb = returns_normally('jacobian.total', lambda: Jb() if callable(Jb) else Jb)
            prove('jacobian.shape', z3.And(Jb.m == P.n[a], Jb.n == P.n[b]))
            j = generic('j')
            prove('jacobian', z3.Implies(in_range(j, P.n[b]), zden(Jb.at(i, j))(v) == zden(F.getter()(i).diff(vb(b)(j)))(v)))
        G = returns_normally('G.total', lambda: lst(getattr(me, 'G' + a)))
        prove('G.length', G.zlen() == P.n[a])
        g = F.getter()(i) - sym_sum(P.n['l'], lambda k: F.getter()(i).diff(vb('l')(k)) * vb('l')(k))
        prove('G', zden(G.getter()(i))(v) == zden(g)(v))
        for b in (() if a == '' else ('l', 'nl')):
            if ctx().entails(P.n[b] == 0):
                continue
            Jb = returns_normally('G.jacobian.total', lambda: getattr(me, 'jacG' + a + b)())
            prove('G.jacobian.shape', z3.And(Jb.m == P.n[a], Jb.n == P.n[b]))
            j = generic('j')
            prove('G.jacobian', z3.Implies(in_range(j, P.n[b]), zden(Jb.at(i, j))(v) == zden(G.getter()(i).diff(vb(b)(j)))(v)))
        cover('end')
    return h


for _a in ('', 'l', 'nl'):
    contract('C09.derivatives_' + (_a or 'all'), [ME + ':set_getters_Jac_tempF', ME + ':set_getters_G', ME + ':set_getters_Jac_G',
             ME + ':set_structure'], note='jacobian blocks are the derivatives of the rows in the unknowns of each part; G = rows without their '
             'part in the linear unknowns, with its jacobians%s' % {'': '', 'l': ' (linear rows)', 'nl': ' (nonlinear rows)'}[_a])(_derivatives(_a))


def _evaluation(scheme):
    def h(L):
        s = SymMethod(L)
        me = s.core
        nx = s.nx.e
        theta = SReal(z3.Const('theta', z3.RealSort()))
        me.config = VDict([('grad', 'trapez' if scheme == 'trapez' else 'theta'), ('theta', theta)])
        x, dx, g, dxH = [lst(f).getter() for f in (me.x, me.dx(), me.g(), s.dxH_)]
        i, j = z3.Ints('qi qj')
        for a, b in ((x, g), (dx, g), (x, dx)):
            assume(z3.ForAll([i, j], a(i).s != b(j).s, patterns=[z3.MultiPattern(a(i).s, b(j).s)]))
        zf, M = me.z.getter(), me.M.at
        returns_normally('total', lambda: s.mod.build_structure_evaluation(me))
        at = lambda q: VDict(VList.sym(nx, lambda k: (g(k), dxH(k))))
        gr, full = at(0), at(0)
        full.update(VDict(VList.sym(nx, lambda k: (x(k), x(k) + (1 if scheme == 'trapez' else theta) * dx(k)))))
        if scheme == 'trapez':
            want = lambda e: (e.subs(gr) + e.subs(full)) / 2
        else:
            want = lambda e: e.subs(full)
        forall_entry('M', me.M, s.n, s.n, lambda p, q: want(M(p, q)))
        forall_elem('z', me.z, s.nw.e, lambda k: want(zf(k)))
        forall_elem('x', me.x, nx, lambda k: x(k))
        cover('end')
    return h


contract('C09.evaluation_theta', [ME + ':build_structure_evaluation'], note='laws and structure matrix at x + theta dx, the gradient symbols '
         'by the discrete gradient, all substitutions at once; any theta, any dimensions')(_evaluation('theta'))
contract('C09.evaluation_trapez', [ME + ':build_structure_evaluation'], note='mean of the values at both ends of the step')(
    _evaluation('trapez'))


class FreeSet:
    """contract of free_symbols: the expressions of the list do not depend on the other symbols"""

    def __init__(self, exprs, coupled):
        self.exprs, self.coupled = exprs, coupled

    def isdisjoint(self, symbs):
        return SBool(z3.Not(self.coupled))


def _gradient(scheme):
    def h(L):
        s = SymMethod(L)
        me, m = s.core, s.mod
        nx, xl = s.nx.e, s.xl.e
        mono = fresh_int('mono', 0)
        assume(mono.e <= nx - xl)
        me.dims._xnl_mono = mono
        theta, eps = SReal(z3.Const('theta', z3.RealSort())), SReal(z3.Const('epsdg', z3.RealSort()))
        me.config = VDict([('grad', scheme), ('theta', theta), ('epsdg', eps)])
        me.Q = fresh_mat('Q', s.xl, s.xl)
        me.bl = fresh_exprlist('bl', s.xl)
        Q, bl = me.Q.at, me.bl.getter()
        coupled = z3.Const('coupled', z3.BoolSort())
        m.free_symbols = lambda e: FreeSet(e, coupled)
        calls = {}

        def callee(nm):
            def f(H, x, dx, *a):
                if nm in calls:
                    raise Unsupported('called twice')
                r = fresh_exprlist(nm, SInt(lst(x).zlen()))
                calls[nm] = (H, lst(x), lst(dx), a, r.getter())
                return VList.sym(lst(x).zlen(), r.getter())
            return f
        names = {'discret': ('discrete_gradient_monovar', 'discrete_gradient_multivar'), 'theta': ('gradient_theta',),
                 'trapez': ('gradient_trapez',)}[scheme]
        for nm in names:
            setattr(m, nm, callee(nm))
        x, dx = lst(me.x).getter(), lst(me.dx()).getter()
        returns_normally('total', lambda: m.build_gradient_evaluation(me))
        if set(calls) != set(names):
            raise Unsupported('the gradient is not built from the documented functions')
        v = valuation()
        out = lst(me.dxH)
        prove('length', out.zlen() == nx)
        prove('stored', lst(me._dxH).zlen() == nx)

        def passed(nm, H, off, n, extra):
            h_, xs, dxs, a, r = calls[nm]
            prove(nm + '.energy', zden(h_)(v) == zden(H)(v))
            forall_elem(nm + '.states', xs, n, lambda k: x(k + off))
            forall_elem(nm + '.increments', dxs, n, lambda k: dx(k + off))
            prove(nm + '.parameter', z3.BoolVal(len(a) == len(extra) and all(p is q for p, q in zip(a, extra))))
            return r
        zero = z3.IntVal(0)
        i = generic('i')
        if scheme != 'discret':
            r = passed(names[0], s.H, zero, nx, (theta,) if scheme == 'theta' else ())
            prove('gradient', z3.Implies(in_range(i, nx), zden(out.getter()(i))(v) == zden(r(i))(v)))
            cover('end')
            return
        half = lambda off, n: VDict(VList.sym(n, lambda k: (x(k + off), x(k + off) + dx(k + off) / 2)))
        cpl = ctx().branch(coupled)
        H = s.H.subs(half(zero, xl)) if cpl else s.H
        b = (lambda k: bl(k).subs(half(xl, nx - xl))) if cpl else bl
        r1 = passed(names[0], H, xl, mono.e, (eps,))
        r2 = passed(names[1], H, xl + mono.e, nx - xl - mono.e, (eps,))
        assume(in_range(i, nx))
        o = zden(out.getter()(i))(v)
        lin = sym_sum(xl, lambda j: Q(i, j) * (x(j) + dx(j) / 2)) + b(i)
        prove('linear', z3.Implies(i < xl, o == zden(lin)(v)))
        prove('monovariate', z3.Implies(z3.And(i >= xl, i < xl + mono.e), o == zden(r1(i - xl))(v)))
        prove('multivariate', z3.Implies(i >= xl + mono.e, o == zden(r2(i - xl - mono.e))(v)))
        cover('end')
    return h


for _s, _n in (('discret', 'linear states: Q (x + dx/2) + bl, then the separable and the other nonlinear states by the discrete gradient '
                           'functions (their contract: C08) of the energy with the linear states at mid-step'),
               ('theta', 'theta rule (its contract: C08)'), ('trapez', 'trapezoidal rule (its contract: C08)')):
    contract('C09.gradient_' + _s, [ME + ':build_gradient_evaluation'], note='any dimensions and split: ' + _n)(_gradient(_s))


# --------------------------------------------------------------------------- #
# the update actions: execution of the action lists built by the real code, over noncommutative polynomials

def key(t):
    return tuple(sorted(((k, q) for k, q in t.items() if q), key=repr))


CONST = ('x', 'o', 'u', 'p')
# what each quantity may depend on (F affine in vl with coefficients of (x, o, u, p): the criterion of the split, C02)
DEPS = {'jactempFll': CONST, 'jactempFnll': CONST, 'Gl': CONST + ('vnl',), 'Gnl': CONST + ('vnl',),
        'jacGlnl': CONST + ('vnl',), 'jacGnlnl': CONST + ('vnl',)}
ARGS = CONST + ('vl', 'vnl')
KNOWN = ('ud_o', 'dxH', 'z', 'y')
UNKNOWN = set()         # quantities the specification does not know: nothing is refuted then


class Machine:
    """state of the numerical object: values of the arguments and stored quantities, as polynomials"""

    def __init__(self, me, args, stored=None, ops=None):
        self.me, self.args, self.stored = me, dict(args), dict(stored or {})
        self.ops = set(ops) if ops is not None else set(me.ops_names)
        self.log = []

    def quantity(self, name, args=None):
        """evaluation of an expression of the method at the current (or given) arguments"""
        a = self.args if args is None else args
        if name not in DEPS and name not in KNOWN:
            UNKNOWN.add(name)
        return {(('q', name) + tuple((d, key(a[d])) for d in DEPS.get(name, ARGS)),): 1}

    def current(self, name):
        if name in self.args:
            return self.args[name]
        if name == 'dx':
            if 'dx' in self.stored:
                return self.stored['dx']
        if name not in self.stored:
            return {(('undefined', name),): 1}
        return self.stored[name]

    def value(self, o):
        if isinstance(o, str):
            self.log.append(('read', o))
            return self.current(o)
        if isinstance(o, (int, float)):
            from fractions import Fraction
            return {(): Fraction(o)}
        a = [self.value(x) for x in o.args]
        if o.operation == 'add':
            return D._tadd(a[0], a[1], 1)
        if o.operation in ('dot', 'prod'):
            if o.operation == 'prod' and not (set(a[0]) <= {()} or set(a[1]) <= {()}):
                raise Unsupported('entrywise product of two arrays')
            return {k: q for k, q in D._tmul(a[0], a[1]).items() if q}
        if o.operation == 'copy':
            return a[0]
        if o.operation in ('inv', 'norm'):
            return {((o.operation, key(a[0])),): 1}
        raise Unsupported('operation %s' % o.operation)

    def evaluate(self, name):
        if name in self.ops:
            return self.value(getattr(self.me, name + '_op'))
        return self.quantity(name)

    def run(self, commands):
        for c in list(commands):
            name, expr = (c, c) if isinstance(c, str) else (c[0], c[1])
            t = self.evaluate(expr)
            self.log.append(('write', name, expr))
            if name in self.args:
                self.args[name] = t
            else:
                self.stored[name] = t
        return self


def atom(*n):
    return {(n,): 1}


def rename(t, old, new):
    """the polynomial with the value old of vnl replaced by new in the arguments of every quantity"""
    def k_(k):
        return tuple(sorted(((tuple(m_(m) for m in mono), q) for mono, q in k), key=repr))

    def m_(m):
        if m[0] == 'q':
            return m[:2] + tuple((d, k if d in CONST else new if d == 'vnl' and k == old else k_(k)) for d, k in m[2:])
        if m[0] in ('inv', 'norm'):
            return (m[0], k_(m[1]))
        return m
    r = {}
    for mono, q in t.items():
        mono = tuple(m_(m) for m in mono)
        r[mono] = r.get(mono, 0) + q
    return r


def same(a, b):
    return key(a) == key(b)


def neg(t):
    return {k: -q for k, q in t.items()}


@contract('C09.actions', [ME + ':set_execactions', ME + ':set_update_x', ME + ':set_update_observers', ME + ':set_update_vl', ME + ':set_update_vnl',
                          ME + ':Method.update_actions_deps', 'pyphs/numerics/tools/_operation.py:Operation'],
          note='execution of the real action lists (semantics: C10.execs, C10.iterexecs, C10.operations) over noncommutative polynomials, all sizes '
               'of both parts: states advance by the increments, observers follow, Newton step on the reduced system, residual and progress of '
               'the new iterate, linear part solved exactly at the last iterate, outputs at the final values')
def actions(L):
    s = SymMethod(L)
    me = s.core
    me.Operation = L.load('pyphs.numerics.tools._operation').Operation
    returns_normally('structure', lambda: s.mod.set_structure(me))
    returns_normally('total', lambda: s.mod.set_execactions(me))
    acts = [tuple(a) for a in me.update_actions]
    nl = ctx().branch(zint(me.dims.nl()) > 0)
    l = ctx().branch(zint(me.dims.l()) > 0)
    iters = [k for k, a in enumerate(acts) if a[0] == 'iter']
    UNKNOWN.clear()

    def ok(name, b):
        if b:
            prove_matrix(name, True)
        elif UNKNOWN:
            raise Unsupported('quantities %s' % sorted(UNKNOWN))
        else:
            prove(name, z3.BoolVal(False))
    ok('one_solver', len(iters) == (1 if nl else 0))
    split = iters[0] if iters else len(acts)
    a0 = {k: atom(k + '0') for k in ARGS}
    m = Machine(me, a0, {'dx': atom('dx0')})
    if not iters:
        for a in acts:
            m.run(a[1])
        V = a0['vnl']
    else:
        for a in acts[:split]:
            m.run(a[1])
        V = m.args['vnl']
    fixed = {k: m.args[k] for k in CONST}
    ok('states', same(m.args['x'], {(('x0',),): 1, (('dx0',),): 1}))
    ok('observers', same(m.args['o'], m.quantity('ud_o', dict(a0, x=m.args['x']))))
    ok('inputs', same(m.args['u'], a0['u']) and same(m.args['p'], a0['p']))
    at = lambda nm, v: m.quantity(nm, dict(fixed, vl=a0['vl'], vnl=v))
    Jll, Jnll = at('jactempFll', V), at('jactempFnll', V)
    iJ = {(('inv', key(Jll)),): 1}
    red = lambda q, g, v: (D._tadd(at(q, v), mmul(Jnll, iJ, at(g, v)), -1) if l else at(q, v))
    F, J = lambda v: red('Gnl', 'Gl', v), lambda v: red('jacGnlnl', 'jacGlnl', v)
    clean = lambda t: {k: q for k, q in t.items() if q}
    if nl:
        body, res, step = acts[split][1]
        # invariant: the stored quantities that are functions of the current iterate
        ok('increments_before', 'vl' not in [e[1] for e in m.log if e[0] == 'write'] and same(V, a0['vnl']))
        Vk = atom('v_k')
        inv = {q: t for q, t in m.stored.items() if q != 'dx'}
        while True:
            st = {q: rename(t, key(V), key(Vk)) for q, t in inv.items()}
            b = Machine(me, dict(m.args, vnl=Vk), st, m.ops).run(body)
            new = b.args['vnl']
            bad = [q for q, t in inv.items() if not same(b.stored[q], rename(t, key(V), key(new)))]
            if not bad:
                break
            for q in bad:
                del inv[q]
        ok('invariant', res in inv and same(inv[res], {(('norm', key(clean(F(V)))),): 1}))
        ok('frame', all(same(b.args[k], m.args[k]) for k in ARGS if k != 'vnl'))
        ok('newton', same(new, clean(D._tadd(Vk, mmul({(('inv', key(clean(J(Vk)))),): 1}, clean(F(Vk))), -1))))
        ok('residual', same(b.stored[res], {(('norm', key(clean(F(new)))),): 1}))
        ok('progress', same(b.stored[step], {(('norm', key(clean(D._tadd(F(new), F(Vk), -1)))),): 1}))
        p = Machine(me, dict(m.args, vnl=Vk), {q: rename(t, key(V), key(Vk)) for q, t in inv.items()}, m.ops)
        for a in acts[split + 1:]:
            p.run(a[1])
        V = Vk
    else:
        p = m
    ok('final.frame', all(same(p.args[k], fixed[k]) for k in CONST) and same(p.args['vnl'], V))
    want = clean(neg(mmul(iJ, at('Gl', V)))) if l else a0['vl']
    ok('linear_part', same(p.args['vl'], want))
    for q in ('dxH', 'z', 'y'):
        ok('outputs.' + q, q in p.stored and same(p.stored[q], p.quantity(q)))
    if l and nl:
        # a zero of the reduced function solves both parts: J v_l + G = 0
        ok('solves.linear', mlin(D._tadd(mmul(Jll, want), at('Gl', V), 1),
                                 [mmul(msub(mmul(Jll, iJ), {(): 1}), at('Gl', V))]))
        ok('solves.nonlinear', mlin(D._tadd(mmul(Jnll, want), at('Gnl', V), 1), [F(V)]))
    reads = {e[1] for mm in ((m, b, p) if nl else (m,)) for e in mm.log if e[0] == 'read'}
    writes = {e[1] for mm in ((m, b, p) if nl else (m,)) for e in mm.log if e[0] == 'write'}
    exprs = {e[2] for mm in ((m, b, p) if nl else (m,)) for e in mm.log if e[0] == 'write'}
    deps = set(returns_normally('dependencies.total', lambda: me.update_actions_deps()))
    ok('dependencies', reads | writes | exprs <= deps)
    ok('defined', not any('undefined' in repr(t) for t in list(p.args.values()) + list(p.stored.values())))
    cover('end')


def _named(setter, attr):
    def h(L):
        s = SymMethod(L)
        me = s.core
        expr = fresh_exprlist('e', fresh_int('ne', 1))
        symbs, allargs = object(), object()
        args, inds = object(), object()
        s.mod.free_symbols = lambda e: symbs if e is expr else None
        s.mod.find = lambda a, b: (args, inds) if (a is symbs and b is allargs) else (None, None)
        me.args = lambda: allargs
        me.quantity = (lambda: expr) if ctx().branch(z3.Const('is_getter', z3.BoolSort())) else expr
        returns_normally('total', lambda: getattr(me, setter)('quantity'))
        prove('expression', z3.BoolVal(me.quantity_expr is expr))
        prove('arguments', z3.BoolVal(me.quantity_args is args and me.quantity_inds is inds))
        prove('registered', z3.BoolVal(list(getattr(me, attr)) == ['quantity']))
        cover('end')
    return h


contract('C09.setarg', [ME + ':Method.setarg'], note='a variable is registered with its symbols and their positions among all the arguments '
         '(find: C17)')(_named('setarg', 'args_names'))
contract('C09.setfunc', [ME + ':Method.setfunc'], note='a quantity is registered with its expression, its symbols and their positions among '
         'all the arguments (find: C17)')(_named('setfunc', 'funcs_names'))


@contract('C09.arguments', [ME + ':Method.args', ME + ':Method.c', ME + ':Method.dtx'],
          note='all arguments in the documented order: x, dx, w, u, p, o; dtx = fs dx; any dimensions')
def arguments(L):
    s = SymMethod(L)
    me = s.core
    n_p, n_o = fresh_int('np', 0), fresh_int('no', 0)
    me.p, _ = fresh_symlist('p', n_p)
    o, _ = fresh_symlist('o', n_o)
    me.o = lambda: o
    x, dx, w, u, p = [lst(f) for f in (me.x, me.dx(), me.w, me.u, me.p)]
    for nm, parts in (('args', (x, dx, w, u, p, o)), ('c', (x, u, p, o))):
        a = lst(returns_normally('total', getattr(me, nm)))
        off = z3.IntVal(0)
        for q, part in enumerate(parts):
            i = generic('i')
            n, g = part.zlen(), part.getter()
            if not ctx().entails(n == 0):
                prove('%s.%d' % (nm, q), z3.Implies(in_range(i, n), a.getter()(off + i).s == g(i).s))
            off = off + n
        prove(nm + '.length', a.zlen() == off)
    fs = SSym(s.fs)
    forall_elem('dtx', lst(me.dtx()), s.nx.e, lambda k: dx.getter()(k) * fs)
    cover('end')
