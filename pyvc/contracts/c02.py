"""C02 - reordering permutes the system."""
from ..spec import *

MV = 'pyphs/core/structure/moves.py'
TL = 'pyphs/misc/tools.py'


def moved(q, a, b):
    """position, before the move of element a to position b, of the element now at position q"""
    return z3.If(q == b, a, z3.If(z3.And(a < b, q >= a, q < b), q + 1, z3.If(z3.And(b < a, q > b, q <= a), q - 1, q)))


@contract('C02.myrange', [TL + ':myrange'], note='myrange(N, i, j) is range(N) with i moved to position j: a permutation')
def myrange(L):
    f = L.load('pyphs.misc.tools').myrange
    N = fresh_int('N', 0)
    a, b = fresh_int('a', 0), fresh_int('b', 0)
    assume(a.e < N.e)
    assume(b.e < N.e)
    r = returns_normally('total', lambda: f(N, a, b))
    forall_elem('elements', r, N.e, lambda q: SInt(moved(q, a.e, b.e)))
    # moved is a bijection of [0, N)
    p, q = skolem(), skolem()
    rng = z3.And(in_range(p, N.e), in_range(q, N.e))
    prove('injective', z3.Implies(z3.And(rng, p != q), moved(p, a.e, b.e) != moved(q, a.e, b.e)))
    prove('range', z3.Implies(in_range(p, N.e), in_range(moved(p, a.e, b.e), N.e)))
    prove('surjective', z3.Implies(in_range(p, N.e), z3.And(in_range(moved(p, b.e, a.e), N.e),
                                                           moved(moved(p, b.e, a.e), a.e, b.e) == p)))
    cover('end')


@contract('C02.movesquarematrixcolnrow', [MV + ':movesquarematrixcolnrow', TL + ':myrange'])
def movesq(L):
    f = L.load('pyphs.core.structure.moves').movesquarematrixcolnrow
    N = fresh_int('N', 1)
    M = fresh_mat('M', N, N)
    at = M.at
    a, b = fresh_int('a', 0), fresh_int('b', 0)
    assume(z3.And(a.e < N.e, b.e < N.e))
    r = returns_normally('total', lambda: f(M, a, b))
    forall_entry('matrix', r, N.e, N.e, lambda i, j: at(moved(i, a.e, b.e), moved(j, a.e, b.e)))
    cover('end')


@contract('C02.movematrixcols', [MV + ':movematrixcols', TL + ':myrange'])
def movecols(L):
    f = L.load('pyphs.core.structure.moves').movematrixcols
    N, P = fresh_int('N', 1), fresh_int('P', 0)
    M = fresh_mat('M', P, N)
    at = M.at
    a, b = fresh_int('a', 0), fresh_int('b', 0)
    assume(z3.And(a.e < N.e, b.e < N.e))
    r = returns_normally('total', lambda: f(M, a, b))
    forall_entry('matrix', r, P.e, N.e, lambda i, j: at(i, moved(j, a.e, b.e)))
    cover('end')


def _move(fname, var, others, dx=False):
    def h(L):
        s = SymCore(L, dxH=dx)
        core = s.core
        mod = L.load('pyphs.core.structure.moves')
        n = {'x': s.nx, 'w': s.nw, 'y': s.ny, 'cy': s.nc}[var].e
        a, b = fresh_int('a', 0), fresh_int('b', 0)
        assume(z3.And(a.e < n, b.e < n))
        old = {k: getattr(core, k).getter() for k in ('x', 'w', 'u', 'y', 'cu', 'cy', 'z')}
        lens = {k: getattr(core, k).zlen() for k in old}
        if dx:
            old['_dxH'] = core._dxH.getter()
            lens['_dxH'] = core._dxH.zlen()
        if fname == 'move_diss':
            core.Zl = fresh_mat('Zl', s.wl, s.wl)
            Zl = core.Zl.at
        returns_normally('total', lambda: getattr(mod, fname)(core, a, b))
        perm = {'x': ('x', '_dxH'), 'w': ('w', 'z'), 'y': ('u', 'y'), 'cy': ('cu', 'cy')}[var]
        for k in old:
            g = old[k]
            if k in perm:
                forall_elem(k, getattr(core, k), lens[k], lambda q: g(moved(q, a.e, b.e)))
            else:
                forall_elem(k, getattr(core, k), lens[k], lambda q: g(q))
        off = s.block(var)[0]
        def pi(q):
            return z3.If(z3.And(q >= off, q < off + n), moved(q - off, a.e, b.e) + off, q)
        forall_entry('M', core.M, s.n, s.n, lambda i, j: s.M(pi(i), pi(j)))
        if fname == 'move_diss':
            i, j = skolem(), skolem()
            v = valuation()
            lin = z3.And(a.e < s.wl.e, b.e < s.wl.e)
            prove('Zl', z3.Or(z3.And(core.Zl.m == 0, core.Zl.n == 0), z3.And(
                core.Zl.m == s.wl.e, core.Zl.n == s.wl.e, z3.Implies(
                    z3.And(lin, in_range(i, s.wl.e), in_range(j, s.wl.e)),
                    zden(core.Zl.at(i, j))(v) == zden(Zl(moved(i, a.e, b.e), moved(j, a.e, b.e)))(v)))))
        prove('H_unchanged', z3.BoolVal(core.H is s.H))
        cover('end')
    return h


contract('C02.move_stor', [MV + ':move_stor', MV + ':moveCoreMcolnrow', MV + ':movesquarematrixcolnrow', TL + ':myrange'])(
    _move('move_stor', 'x', ()))
contract('C02.move_stor_dxH', [MV + ':move_stor', MV + ':moveCoreMcolnrow', TL + ':myrange'],
         note='the stored gradient follows the states')(_move('move_stor', 'x', (), dx=True))
contract('C02.move_diss', [MV + ':move_diss', MV + ':moveCoreMcolnrow', TL + ':myrange'])(_move('move_diss', 'w', ()))
contract('C02.move_port', [MV + ':move_port', MV + ':moveCoreMcolnrow', TL + ':myrange'])(_move('move_port', 'y', ()))
contract('C02.move_connector', [MV + ':move_connector', MV + ':moveCoreMcolnrow', TL + ':myrange'])(
    _move('move_connector', 'cy', ()))


# --------------------------------------------------------------------------- #
# splits: ghost permutation, loop invariants

SP = 'pyphs/core/structure/splits.py'
DEPX, DEPW = [z3.Function(n, D.FunSort, z3.BoolSort()) for n in ('DEPX', 'DEPW')]


def funmat(m, n, fun):
    def at(i, j):
        e = SExpr(lambda v: D.APP(fun(i, j), v))
        e.fun = fun(i, j)
        return e
    return SMat(zint(m), zint(n), at)


class Split:
    """ghost state of a split of one kind of variables.

    P: current position -> original index (a permutation of [0, n)), R its inverse.
    Pigeonhole: an injective map of [0, n) into itself is a bijection, so preservation asks for range + injectivity.
    """

    def __init__(self, s, var, n, mat, dep, colname, matfun, square=True):
        self.s, self.var, self.n, self.mat, self.fun, self.dep = s, var, n, mat, matfun, dep
        self.square = square
        self.off = s.block(var)[0]
        self.orig = {'x': s.x, 'w': s.w}[var]
        self.inv = {'x': s.xinv, 'w': s.winv}[var]
        c = ctx()
        # COL(c): column c of the criterion depends on the variables; W its witness row
        self.COL = z3.Function(c.name(colname), z3.IntSort(), z3.BoolSort())
        self.W = z3.Function(c.name('wit'), z3.IntSort(), z3.IntSort())
        r, q = z3.Ints('cr cq')
        assume(z3.ForAll([r, q], z3.Implies(z3.And(in_range(r, n), dep(matfun(r, q))), self.COL(q)),
                         patterns=[matfun(r, q)]))
        assume(z3.ForAll([q], z3.Implies(self.COL(q), z3.And(in_range(self.W(q), n), dep(matfun(self.W(q), q)))),
                         patterns=[self.COL(q)]))
        self.P = self.R = None
        self.M0 = None
        self.other = None

    def noise(self):
        o = self.other
        return [o.P, o.R, o.COL, o.W, o.EXCL] if o is not None else []
    EXCL = None

    def pos(self, i):
        """original index of the variable now at position i"""
        def strip(t):
            if z3.is_app(t) and t.decl().eq(self.orig):
                return t.arg(0)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                return z3.If(t.arg(0), strip(t.arg(1)), strip(t.arg(2)))
            return self.inv(t)
        return strip(getattr(self.s.core, self.var).getter()(i).s)

    def ext(self, P, i):
        return z3.If(z3.And(i >= self.off, i < self.off + self.n), P(i - self.off) + self.off, i)

    def check_perm(self, tag, st):
        s, core, v = self.s, self.s.core, valuation()
        l = getattr(core, self.var)
        n = self.n
        i, j = skolem('i'), skolem('j')
        rng = z3.And(in_range(i, n), in_range(j, n))
        prove('inv.%s.%s.length' % (self.var, tag), l.zlen() == n)
        prove('inv.%s.%s.range' % (self.var, tag), z3.Implies(in_range(i, n), z3.And(
            in_range(self.pos(i), n), l.getter()(i).s == self.orig(self.pos(i)))))
        prove('inv.%s.%s.injective' % (self.var, tag), z3.Implies(z3.And(rng, i != j), self.pos(i) != self.pos(j)))
        # rows and columns follow
        a, b = skolem('a'), skolem('b')
        prove('inv.%s.%s.M' % (self.var, tag), z3.And(core.M.m == s.n, core.M.n == s.n, z3.Implies(
            z3.And(in_range(a, s.n), in_range(b, s.n)),
            zden(core.M.at(a, b))(v) == zden(self.M0(self.ext(self.pos, a), self.ext(self.pos, b)))(v))))
        if self.var == 'w':
            prove('inv.w.%s.z' % tag, z3.And(core.z.zlen() == n, z3.Implies(
                in_range(i, n), zden(core.z.getter()(i))(v) == zden(s.zf(self.pos(i)))(v))))
        if self.var == 'x' and s.dxH is not None:
            prove('inv.x.%s.dxH' % tag, z3.And(core._dxH.zlen() == n, z3.Implies(
                in_range(i, n), zden(core._dxH.getter()(i))(v) == zden(s.dxH(self.pos(i)))(v))))
        # the criterion matrix is permuted alike
        m = st[self.mat]
        rows = self.pos if self.square else (lambda q: q)
        prove('inv.%s.%s.criterion' % (self.var, tag), z3.And(m.m == n, m.n == n, z3.Implies(
            rng, m.at(i, j).fun == self.fun(rows(i), self.pos(j)))))

    def havoc_perm(self, st):
        s, core, c = self.s, self.s.core, ctx()
        P = z3.Function(c.name('P'), z3.IntSort(), z3.IntSort())
        R = z3.Function(c.name('R'), z3.IntSort(), z3.IntSort())
        self.P, self.R = P, R
        i = z3.Const(c.name('i'), z3.IntSort())
        n = self.n
        assume(z3.ForAll([i], z3.Implies(in_range(i, n), z3.And(in_range(P(i), n), R(P(i)) == i)), patterns=[P(i)]))
        assume(z3.ForAll([i], z3.Implies(in_range(i, n), z3.And(in_range(R(i), n), P(R(i)) == i)), patterns=[R(i)]))
        setattr(core, self.var, VList.sym(n, lambda q: SSym(self.orig(P(q)))))
        M0 = self.M0
        core.M = SMat(s.n, s.n, lambda a, b: M0(self.ext(P, a), self.ext(P, b)), s.Mzero)
        if self.var == 'w':
            zf = s.zf
            core.z = VList.sym(n, lambda q: zf(P(q)))
        if self.var == 'x' and s.dxH is not None:
            dx = s.dxH
            core._dxH = VList.sym(n, lambda q: dx(P(q)))
        fun = self.fun
        st[self.mat] = funmat(n, n, (lambda a, b: fun(P(a), P(b))) if self.square else (lambda a, b: fun(a, P(b))))

    def hint(self, col):
        """the row of the current matrix where the witness of column `col` lies"""
        return self.R(self.W(col)) if self.R is not None and self.square else self.W(col)


class SplitLoop:
    """for loop sorting the columns: the first `cnt` are independent, those moved to the end are dependent"""

    def __init__(self, g, cnt):
        self.g, self.cnt = g, cnt
        self.started = False

    def check(self, st, k, tag):
        g = self.g
        if tag == 'established':
            g.M0 = g.s.core.M.at
        with hiding(*(g.noise() + [g.EXCL])):
            self.check_(st, k, tag)

    def check_(self, st, k, tag):
        g = self.g
        g.check_perm(tag, st)
        c = zint(st[self.cnt])
        i = skolem('i')
        nm = 'inv.%s.%s.' % (g.var, tag)
        prove(nm + 'count', z3.And(0 <= c, c <= k))
        prove(nm + 'linear', z3.Implies(in_range(i, c), z3.Not(g.COL(g.pos(i)))))
        prove(nm + 'nonlinear', z3.Implies(z3.And(i >= g.n - (k - c), i < g.n), g.COL(g.pos(i))))

    def havoc(self, st, k):
        g = self.g
        g.havoc_perm(st)
        c = fresh_int('cnt', 0)
        assume(c.e <= k)
        st[self.cnt] = c
        i = z3.Const(ctx().name('i'), z3.IntSort())
        assume(z3.ForAll([i], z3.Implies(in_range(i, c.e), z3.Not(g.COL(g.P(i)))), patterns=[g.P(i)]))
        assume(z3.ForAll([i], z3.Implies(z3.And(i >= g.n - (k - c.e), i < g.n), g.COL(g.P(i))), patterns=[g.P(i)]))
        g.cnt = c.e


class Coupling:
    """while loop removing from the linear part what is coupled with the rest"""

    def __init__(self, g, k, cnt, EXCL):
        self.g, self.k, self.cnt, self.EXCL = g, k, cnt, EXCL

    def zero(self, P, i, j):
        f = self.g.fun
        return z3.And(D.ISZERO(f(P(i), P(j))), D.ISZERO(f(P(j), P(i))))

    def check(self, st, k, tag):
        with hiding(*self.g.noise()):
            self.check_(st, k, tag)

    def check_(self, st, _, tag):
        g = self.g
        g.check_perm('coupling.' + tag, st)
        k, c = zint(st[self.k]), zint(st[self.cnt])
        i, j = skolem('i'), skolem('j')
        nm = 'inv.coupling.%s.' % tag
        prove(nm + 'count', z3.And(0 <= k, k <= c, c <= g.n))
        prove(nm + 'linear', z3.Implies(in_range(i, c), z3.Not(g.COL(g.pos(i)))))
        for f in instances(j - c, j - c + (g.n - c)):
            assume(f)
        prove(nm + 'uncoupled', z3.Implies(z3.And(in_range(i, k), j >= c, j < g.n), self.zero(g.pos, i, j)))
        prove(nm + 'excluded', z3.Implies(z3.And(i >= c, i < g.n), self.EXCL(g.pos(i))))

    def havoc(self, st, _):
        g = self.g
        g.havoc_perm(st)
        k, c = fresh_int('k', 0), fresh_int('cnt', 0)
        st[self.k], st[self.cnt] = k, c
        assume(z3.And(k.e <= c.e, c.e <= g.n))
        i, j = z3.Const(ctx().name('i'), z3.IntSort()), z3.Const(ctx().name('j'), z3.IntSort())
        P = g.P
        assume(z3.ForAll([i], z3.Implies(in_range(i, c.e), z3.Not(g.COL(P(i)))), patterns=[P(i)]))
        assume(z3.ForAll([i, j], z3.Implies(z3.And(in_range(i, k.e), j >= c.e, j < g.n), self.zero(P, i, j)),
                         patterns=[z3.MultiPattern(P(i), P(j))]))
        assume(z3.ForAll([i], z3.Implies(z3.And(i >= c.e, i < g.n), self.EXCL(P(i))), patterns=[P(i)]))
        g.cnt = c.e


def dsum(a, b):
    return D.DIFF(a, b)


def _linear_nonlinear(dx, part):
    def h(L):
        s = SymCore(L, linear=False, dxH=dx, distinct=True)
        core = s.core
        mod = L.load('pyphs.core.structure.splits')
        s.Mzero = core.M.zero_axiom
        s.xinv, s.winv = ctx().sym_inv[s.x.name()], ctx().sym_inv[s.w.name()]
        # laws as functions of the valuation
        Zf = z3.Function(ctx().name('Z'), z3.IntSort(), D.FunSort)

        def law(i):
            e = SExpr(lambda v: D.APP(Zf(i), v))
            e.fun = Zf(i)
            return e
        core.z = VList.sym(s.nw.e, law)
        s.zf = law
        Hf = core.H.fun
        hfun = lambda i, j: D.DIFF(D.DIFF(Hf, s.x(i)), s.x(j))
        zfun = lambda i, j: D.DIFF(Zf(i), s.w(j))
        gx = Split(s, 'x', s.nx.e, 'hess', DEPX, 'COLX', hfun)
        gw = Split(s, 'w', s.nw.e, 'jacz', DEPW, 'COLW', zfun)
        EXCL = z3.Function(ctx().name('EXCL'), z3.IntSort(), z3.BoolSort())
        a, b = z3.Ints('ea eb')
        assume(z3.ForAll([a], z3.Implies(gw.COL(a), EXCL(a)), patterns=[gw.COL(a)]))
        assume(z3.ForAll([a, b], z3.Implies(z3.And(EXCL(b), z3.Not(z3.And(D.ISZERO(zfun(a, b)), D.ISZERO(zfun(b, a))))),
                                            EXCL(a)), patterns=[z3.MultiPattern(EXCL(b), zfun(a, b))]))
        gx.other, gw.other, gw.EXCL = gw, gx, EXCL
        ctx().ground_branches = True
        key = 'pyphs.core.structure.splits:linear_nonlinear:'
        ctx().invs[key + '1'] = SplitLoop(gx, 'nxl')
        ctx().invs[key + '2'] = SplitLoop(gw, 'nwl')
        ctx().invs[key + '3'] = Coupling(gw, 'k', 'nwl', EXCL)
        x0, w0 = core.x.copy(), core.w.copy()
        argx = core.x + core.dx() + core.w
        argw = core.dx() + core.w

        class Free:
            """contract of free_symbols (C17/tools): the union of the symbols of the elements"""
            def __init__(self, l):
                self.l = D.as_vlist(l)

            def isdisjoint(self, arg):
                c = ctx()
                arg = D.as_vlist(arg)
                # which set of symbols? compared element by element with the documented ones
                for g, ref in ((gx, argx), (gw, argw)) if gw.P is None else ((gw, argw), (gx, argx)):
                    if c.entails(arg.zlen() == ref.zlen()) and self._same(arg, ref):
                        break
                else:
                    raise Unsupported('free symbols against an unknown set')
                dep = g.dep
                el = self.l.getter()
                n = self.l.zlen()
                i = z3.Const(c.name('i'), z3.IntSort())
                if c.choose(2) == 0:
                    assume(z3.ForAll([i], z3.Implies(in_range(i, n), z3.Not(dep(el(i).fun)))))
                    if g.P is not None:
                        q = g.hint(g.P(g.cnt))
                        assume(z3.Implies(in_range(q, n), z3.Not(dep(el(q).fun))))
                    return True
                assume(z3.And(in_range(i, n), dep(el(i).fun)))
                return False

            @staticmethod
            def _same(a, b):
                q = skolem('q')
                return ctx().entails(z3.Implies(in_range(q, a.zlen()), a.getter()(q).s == b.getter()(q).s))
        mod.free_symbols = lambda e: Free(e)
        # callee contracts (proved in C08)
        hess = lambda H, x: funmat(D.as_vlist(x).zlen(), D.as_vlist(x).zlen(), (lambda X: lambda i, j: D.DIFF(
            D.DIFF(H.fun, X(i).s), X(j).s))(D.as_vlist(x).getter()))
        jac = lambda f, x: funmat(D.as_vlist(f).zlen(), D.as_vlist(x).zlen(), (lambda Z, X: lambda i, j: D.DIFF(
            Z(i).fun, X(j).s))(D.as_vlist(f).getter(), D.as_vlist(x).getter()))
        mod.hessian, mod.jacobian = hess, jac
        returns_normally('total', lambda: mod.linear_nonlinear(core))
        # postconditions
        v = valuation()
        nxl, nwl = zint(core.dims._xl), zint(core.dims._wl)
        i, j = skolem('i'), skolem('j')
        prove('xl', z3.And(0 <= nxl, nxl <= s.nx.e))
        prove('wl', z3.And(0 <= nwl, nwl <= s.nw.e))
        for g, n in ((gx, s.nx.e), (gw, s.nw.e)):
            l = getattr(core, g.var)
            prove(g.var + '.permutation', z3.And(l.zlen() == n, z3.Implies(in_range(i, n), z3.And(
                in_range(g.pos(i), n), l.getter()(i).s == g.orig(g.pos(i)))), z3.Implies(
                    z3.And(in_range(i, n), in_range(j, n), i != j), g.pos(i) != g.pos(j))))
        colx, colw = [gx.COL, gx.W], [gw.COL, gw.W, EXCL]
        ctx().hide |= {f.name() for f in colx + colw}
        tot_pi = lambda q: gw.ext(gw.pos, gx.ext(gx.pos, q))
        forall_entry('M', core.M, s.n, s.n, lambda p, q: s.M(tot_pi(p), tot_pi(q)))
        forall_elem('z', core.z, s.nw.e, lambda q: law(gw.pos(q)))
        if dx:
            forall_elem('dxH', core._dxH, s.nx.e, lambda q: s.dxH(gx.pos(q)))
        ctx().hide = {f.name() for f in colw + [gw.P, gw.R]}
        prove('x.linear', z3.Implies(in_range(i, nxl), z3.Not(gx.COL(gx.pos(i)))))
        prove('x.nonlinear', z3.Implies(z3.And(i >= nxl, i < s.nx.e), gx.COL(gx.pos(i))))
        ctx().hide = {f.name() for f in colx + [gx.P, gx.R]}
        prove('w.linear', z3.Implies(in_range(i, nwl), z3.Not(gw.COL(gw.pos(i)))))
        prove('w.uncoupled', z3.Implies(z3.And(in_range(i, nwl), j >= nwl, j < s.nw.e), z3.And(
            D.ISZERO(zfun(gw.pos(i), gw.pos(j))), D.ISZERO(zfun(gw.pos(j), gw.pos(i))))))
        prove('w.excluded', z3.Implies(z3.And(i >= nwl, i < s.nw.e), EXCL(gw.pos(i))))
        ctx().hide = {f.name() for f in colx + colw}
        X = core.x.getter()
        forall_entry('Q', core.Q, nxl, nxl, lambda p, q: core.H.diff(X(p)).diff(X(q)))
        forall_entry('Zl', core.Zl, nwl, nwl, lambda p, q: law(gw.pos(p)).diff(core.w.getter()(q)))
        Q = core.Q
        forall_elem('bl', core.bl, nxl, lambda q: core.H.diff(X(q)) - sym_sum(nxl, lambda l: Q.at(q, l) * X(l)))
        for nm, fu, n in (('u', s.u, s.ny.e), ('y', s.y, s.ny.e), ('cu', s.cu, s.nc.e), ('cy', s.cy, s.nc.e)):
            forall_elem(nm, getattr(core, nm), n, lambda q: SSym(fu(q)))
        prove('H_unchanged', z3.BoolVal(core.H is s.H))
        cover('end')
    return h


contract('C02.linear_nonlinear', [SP + ':linear_nonlinear', MV + ':move_stor', MV + ':move_diss', MV + ':movesquarematrixcolnrow'],
         budget=500, note='any dimensions: loop invariants with a ghost permutation; free_symbols, hessian, jacobian by contract')(
    _linear_nonlinear(False, None))

contract('C02.linear_nonlinear_dxH', [SP + ':linear_nonlinear', MV + ':move_stor', MV + ':move_diss', MV + ':movesquarematrixcolnrow'],
         budget=800, tier='thorough', note='as C02.linear_nonlinear, on a core with a redefined gradient (_dxH)')(
    _linear_nonlinear(True, None))
