"""pyvc.spec - helpers to write contracts (symbolic inputs, postconditions)."""
import inspect
import os
import re
import z3
from . import core as C
from . import domain as D
from .core import Unsupported, PathEnd, SInt, SReal, SBool, SExpr, SSym, SRel, SStr, SOpaque, SymSort, Val, ctx, zint, zden, is_int
from .domain import (VList, VDict, SMat, VRange, VIter, ite, veq, in_range, valuation, fresh_int, fresh_symlist,
                     fresh_exprlist, fresh_mat, fresh_value, fresh_values, as_expr, sym_sum)

REG = {}


def contract(name, funcs, note='', tier='quick', budget=150):
    """register harness(L) as a contract of property name.split('.')[0]"""
    def deco(f):
        REG[name] = dict(name=name, fn=f, funcs=funcs, note=note, tier=tier, budget=budget)
        return f
    return deco


def prove(name, f):
    ctx().prove(name, f)


def assume(f):
    ctx().assume(f.e if isinstance(f, SBool) else f)


def skolem(name='i'):
    return z3.Const(ctx().name(name), z3.IntSort())


def generic(name='i'):
    """an arbitrary index, also allowed as a parameter of sums"""
    k = z3.Const(ctx().name(name), z3.IntSort())
    ctx().generics.add(k.decl().name())
    return k


def instances(*terms):
    """instances, at the given indices, of the universal facts known on this path (outcomes of any() and all())"""
    return [f(t) for sc, f in ctx().facts if sc in ctx().scopes for t in terms]


def _domain_names():
    """names of the classes of the symbolic domain"""
    out, seen, todo = set(), set(), [object]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        try:
            todo.extend(type.__subclasses__(k))
        except TypeError:
            pass
        if str(getattr(k, '__module__', '')).startswith('pyvc'):
            out.add(k.__name__)
    return out


def domain_gap(e):
    """the exception comes from a feature that the symbolic domain does not have, not from the code"""
    if not isinstance(e, (AttributeError, TypeError, NotImplementedError, z3.Z3Exception)):
        return False
    if isinstance(e, (NotImplementedError, z3.Z3Exception)):
        return True
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        if o is not None:
            k = o if isinstance(o, type) else type(o)
            if str(getattr(k, '__module__', '')).startswith('pyvc'):
                return True
            if str(getattr(o, '__name__', '')) in ('numpy', 'sympy', 'scipy', 'h5py', 'copy', 'shelve') :
                return True
    words = set(re.findall(r"\w+", str(e)))
    if words & _domain_names():
        return True
    tb, last = e.__traceback__, None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    here = os.path.dirname(os.path.abspath(__file__))
    return bool(last) and os.path.dirname(os.path.abspath(last)) == here


def returns_normally(name, fn):
    """the call must not raise on any admissible input; returns its value"""
    try:
        return fn()
    except (Unsupported,):
        raise
    except Exception as e:      # noqa
        if 'RecursionError' in type(e).__name__ + str(e)[:80] or isinstance(e, MemoryError):
            raise Unsupported('recursion limit of the symbolic execution')
        if domain_gap(e):
            raise Unsupported('the symbolic domain lacks: %s: %s' % (type(e).__name__, str(e)[:150]))
        ctx().rep.fail(ctx(), name, {'what': 'raises %s: %s' % (type(e).__name__, str(e)[:200]), 'path': ctx().trail[-10:]})
        raise PathEnd()


def helper(o, name):
    """an internal function: when the code no longer has it (or calls it otherwise) its contract is undecided, not violated"""
    f = getattr(o, name, None)
    if f is None:
        raise Unsupported('no internal function %s' % name)

    def call(*a, **k):
        try:
            inspect.signature(f).bind(*a, **k)
        except TypeError:
            raise Unsupported('signature of %s' % name)
        except ValueError:
            pass
        return f(*a, **k)
    return call


def track(o):
    ctx().tracked.append(o)
    return o


def tot(*xs):
    r = z3.IntVal(0)
    for x in xs:
        r = r + zint(x)
    return z3.simplify(r)


class SymCore:
    """a real Core object (real constructor) with symbolic dimensions and contents"""

    def __init__(self, L, linear=True, dxH=None, distinct=False, nc=None, core=None):
        cm = L.load('pyphs.core.core')
        self.core = core = track(cm.Core()) if core is None else core
        self.nx, self.nw, self.ny, self.nc = [fresh_int(n, 0) for n in ('nx', 'nw', 'ny', 'nc')]
        if nc is not None:
            self.nc = SInt(z3.IntVal(nc))
        core.x, self.x = fresh_symlist('x', self.nx, distinct)
        core.w, self.w = fresh_symlist('w', self.nw, distinct)
        core.u, self.u = fresh_symlist('u', self.ny, distinct)
        core.y, self.y = fresh_symlist('y', self.ny, distinct)
        core.cu, self.cu = fresh_symlist('cu', self.nc, distinct)
        core.cy, self.cy = fresh_symlist('cy', self.nc, distinct)
        core.z = fresh_exprlist('z', self.nw)
        self.zf = core.z.getter()
        c = ctx()
        Hf = z3.Const(c.name('H'), D.FunSort)
        H = SExpr(lambda v: D.APP(Hf, v))
        H.fun = Hf
        core.H = H
        self.H = H
        n = tot(self.nx, self.nw, self.ny, self.nc)
        self.n = n
        core.M = fresh_mat('M', SInt(n), SInt(n))
        self.M = core.M.at
        if linear:
            self.xl, self.wl = fresh_int('xl', 0), fresh_int('wl', 0)
            assume(self.xl.e <= self.nx.e)
            assume(self.wl.e <= self.nw.e)
            core.dims._xl, core.dims._wl = self.xl, self.wl
        self.dxH = None
        if dxH:
            core._dxH = fresh_exprlist('dxH', self.nx)
            self.dxH = core._dxH.getter()

    def block(self, name):
        """(first, last+1) of the variables of that name, from the documented order"""
        nx, nw, ny, nc = self.nx.e, self.nw.e, self.ny.e, self.nc.e
        xl, wl = getattr(self, 'xl', SInt(z3.IntVal(0))).e, getattr(self, 'wl', SInt(z3.IntVal(0))).e
        return {'x': (0, nx), 'xl': (0, xl), 'xnl': (xl, nx),
                'w': (nx, nx + nw), 'wl': (nx, nx + wl), 'wnl': (nx + wl, nx + nw),
                'y': (nx + nw, nx + nw + ny), 'cy': (nx + nw + ny, nx + nw + ny + nc)}[name]


def forall_entry(name, mat, m, n, spec, v=None):
    """postcondition: mat is m x n with entry (i, j) equal to spec(i, j)"""
    v = v if v is not None else valuation()
    prove(name + '.shape', z3.And(mat.m == m, mat.n == n))
    i, j = skolem('i'), skolem('j')
    prove(name + '.entries', z3.Implies(z3.And(in_range(i, m), in_range(j, n)),
                                        zden(mat.at(i, j))(v) == zden(spec(i, j))(v)))


def forall_elem(name, lst, n, spec, v=None):
    v = v if v is not None else valuation()
    l = D.as_vlist(lst)
    prove(name + '.length', l.zlen() == n)
    i = skolem('i')
    ctx().generics.add(i.decl().name())
    if l.c is not None:
        for q, x in enumerate(l.c):
            prove(name + '.elements', z3.Implies(q < n, veq(x, spec(z3.IntVal(q)), v)))
        return
    prove(name + '.elements', z3.Implies(in_range(i, n), veq(l.getter()(i), spec(i), v)))


def cover(name):
    """reachability of the end of the harness (vacuity guard)"""
    c = ctx()
    r, _ = c._check(z3.BoolVal(True), ms=2000)
    cov = c.rep.covers
    if r == z3.sat:
        cov[name] = 'reached'
    elif r == z3.unknown and cov.get(name) != 'reached':
        cov[name] = 'not refuted'       # assertion of False is not provable here
    else:
        cov.setdefault(name, str(r))


def times(eq, *factors):
    """hints for nonlinear goals: equalities multiplied by factors (valid consequences of eq)"""
    l, r = eq.children()
    return [l * f == r * f for f in factors]


def prove_with(name, goal, hyps=(), mult=()):
    """prove hyps => goal, with the consequences eq*f of the hypotheses and of the known inverse equations,
    for f in mult, added as hints (each is a consequence of an equality already assumed)"""
    c = ctx()
    memo = {}
    goal = resolve(goal, memo)
    hyps = [resolve(h, memo) for h in hyps]
    eqs = list(hyps) + [resolve(h, memo) for h in c.__dict__.get('inv_eqs', [])]
    hints = [h for q in eqs for h in times(q, *mult)]
    ante = z3.And(*(list(hyps) + hints)) if (hyps or hints) else z3.BoolVal(True)
    if polylin(goal, list(hyps) + hints + eqs):
        c.rep._rec(name, 'proved')
        c.rep.obl[name]['backend'] = 'linear algebra over monomials'
        return
    c.prove(name, z3.Implies(ante, goal))


def resolve(t, memo=None):
    """replace if-then-else terms whose condition is settled by the path condition"""
    c = ctx()
    memo = {} if memo is None else memo

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        elif t.decl().kind() == z3.Z3_OP_ITE:
            cd = go(t.arg(0))
            d = c.decide(cd)
            r = go(t.arg(1)) if d is True else go(t.arg(2)) if d is False else z3.If(cd, go(t.arg(1)), go(t.arg(2)))
        else:
            ch = [go(x) for x in t.children()]
            if all(a.eq(b) for a, b in zip(ch, t.children())):
                r = t
            elif t.sort() == z3.IntSort():
                r = z3.simplify(t.decl()(*ch)) if t.decl().arity() == len(ch) else z3.simplify(z3.Sum(ch) if z3.is_add(t) else z3.Product(ch))
            elif z3.is_add(t):
                r = z3.Sum(ch)
            elif z3.is_mul(t):
                r = z3.Product(ch)
            elif z3.is_and(t):
                r = z3.And(*ch)
            elif z3.is_or(t):
                r = z3.Or(*ch)
            else:
                r = t.decl()(*ch)
        memo[k] = (r, t)
        return r
    return go(t)


def polylin(goal, hyps):
    """goal (conjunction of equalities) follows linearly over monomials from the equalities hyps: decided by z3 with
    monomials abstracted (quantifier-free linear arithmetic)"""
    goals = goal.children() if z3.is_and(goal) else [goal]
    atoms = {}

    def poly(t):
        """dict monomial (sorted tuple of atom ids) -> Fraction"""
        from fractions import Fraction
        if z3.is_rational_value(t) or z3.is_int_value(t):
            fr = Fraction(t.as_fraction()) if z3.is_rational_value(t) else Fraction(t.as_long())
            return {(): fr} if fr else {}
        if z3.is_add(t):
            out = {}
            for ch in t.children():
                for m, q in poly(ch).items():
                    out[m] = out.get(m, 0) + q
            return {m: q for m, q in out.items() if q}
        if z3.is_sub(t):
            ch = t.children()
            out = dict(poly(ch[0]))
            for x in ch[1:]:
                for m, q in poly(x).items():
                    out[m] = out.get(m, 0) - q
            return {m: q for m, q in out.items() if q}
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            return {m: -q for m, q in poly(t.children()[0]).items()}
        if z3.is_mul(t):
            out = {(): Fraction(1)}
            for ch in t.children():
                p = poly(ch)
                new = {}
                for m1, q1 in out.items():
                    for m2, q2 in p.items():
                        m = tuple(sorted(m1 + m2))
                        new[m] = new.get(m, 0) + q1 * q2
                out = {m: q for m, q in new.items() if q}
            return out
        t = z3.simplify(t)
        if z3.is_add(t) or z3.is_mul(t) or z3.is_rational_value(t):
            return poly(t)
        k = t.get_id()
        atoms[k] = t
        return {(k,): Fraction(1)}

    def diff(eq):
        l, r = eq.children()
        p = dict(poly(l))
        for m, q in poly(r).items():
            p[m] = p.get(m, 0) - q
        return {m: q for m, q in p.items() if q}
    try:
        rows = [diff(h) for h in hyps if z3.is_eq(h)]
        # Gaussian elimination over the rationals
        piv = {}
        for r in rows:
            r = _reduce(r, piv)
            if r:
                m = max(r)
                q = r[m]
                piv[m] = {k: w / q for k, w in r.items()}
        for g in goals:
            if not z3.is_eq(g):
                return False
            if _reduce(diff(g), piv):
                return False
        return True
    except Exception:       # noqa
        return False


def _reduce(r, piv):
    r = dict(r)
    while True:
        hit = [m for m in r if m in piv]
        if not hit:
            return r
        m = max(hit)
        q = r[m]
        for k, w in piv[m].items():
            r[k] = r.get(k, 0) - q * w
            if not r[k]:
                del r[k]


def sum_linear(name, n, f, parts):
    """lemma (induction on the number of terms): sum_{k<n} f(k) = sum_i c_i * sum_{k<n} g_i(k), the c_i not depending on
    k; the induction step f(k) = sum_i c_i g_i(k) is the obligation, the conclusion is then available"""
    c = ctx()
    v = valuation()
    k = z3.Const(c.name('kl'), z3.IntSort())
    rhs = z3.RealVal(0)
    tot_ = z3.RealVal(0)
    for ci, gi in parts:
        ci = zden(ci)(v)
        rhs = rhs + ci * zden(gi(k))(v)
        tot_ = tot_ + ci * zden(sym_sum(n, gi))(v)
    prove(name + '.step', z3.Implies(in_range(k, n), zden(f(k))(v) == rhs))
    assume(zden(sym_sum(n, f))(v) == tot_)


def sum_nonneg(name, n, f):
    """lemma (induction): a sum of nonnegative terms is nonnegative; the step is the obligation"""
    v = valuation()
    k = z3.Const(ctx().name('kl'), z3.IntSort())
    prove(name + '.step', z3.Implies(in_range(k, n), zden(f(k))(v) >= 0))
    assume(zden(sym_sum(n, f))(v) >= 0)


def inverse_eq(A, X, i, j):
    """instance of the contract of inv(): entry (i, j) of A X (or X A) is the one of the identity"""
    v = valuation()
    n = A.m
    s = zden(sym_sum(n, lambda k: A.at(i, k) * X.at(k, j)))(v)
    assume(z3.Implies(z3.And(in_range(i, n), in_range(j, n)), s == z3.If(i == j, z3.RealVal(1), z3.RealVal(0))))
    return s


def sum_swap(n, m, f):
    """lemma: finite double sums may be exchanged (proved once, contract C04.sum_swap); returns both sides"""
    v = valuation()
    a = zden(sym_sum(n, lambda k: sym_sum(m, lambda l: f(k, l))))(v)
    b = zden(sym_sum(m, lambda l: sym_sum(n, lambda k: f(k, l))))(v)
    assume(a == b)
    return a, b


# --------------------------------------------------------------------------- #
# matrix algebra (associativity and distributivity of the product follow from C04.sum_swap and linearity of sums)

def same_matrix(name, A, m, n, spec):
    """obligation: leaf matrix A is m x n with the given entries; proved only (never recorded) when it fails"""
    c = ctx()
    v = valuation()
    i, j = skolem('i'), skolem('j')
    return c.entails(z3.And(A.m == m, A.n == n)) and c.entails(
        z3.Implies(z3.And(in_range(i, m), in_range(j, n)), zden(A.at(i, j))(v) == zden(spec(i, j))(v)))


def roles(mats, spec, extra=()):
    """identify the leaf matrices of the given terms with the matrices of the specification
    (spec: name -> (m, n, entry)); returns terms over names, or None"""
    c = ctx()
    leaves = c.__dict__.get('_leaves', {})
    names = {}
    out = []
    for t in mats:
        r = {}
        for mono, q in t.items():
            key = []
            for k in mono:
                if k not in names:
                    A = leaves[k][0]
                    hit = [nm for nm, (m, n, e) in spec.items() if same_matrix(nm, A, m, n, e)]
                    hit += [nm for nm, B in extra if A.at is B.at]
                    if not hit:
                        return None
                    names[k] = hit[0]
                key.append(names[k])
            r[tuple(key)] = r.get(tuple(key), 0) + q
        out.append({k: q for k, q in r.items() if q})
    return out


def mlin(goal, hyps):
    """goal (noncommutative polynomial) is a linear combination of the hyps (polynomials equal to zero)"""
    from fractions import Fraction
    piv = {}
    for r in hyps:
        r = _reduce({k: Fraction(q) for k, q in r.items() if q}, piv)
        if r:
            m = max(r)
            q = r[m]
            piv[m] = {k: w / q for k, w in r.items()}
    return not _reduce({k: Fraction(q) for k, q in goal.items() if q}, piv)


def mmul(*ts):
    r = {(): 1}
    for t in ts:
        r = D._tmul(r, t)
    return r


def msub(a, b):
    return {k: q for k, q in D._tadd(a, b, -1).items() if q}


def prove_matrix(name, ok, why=''):
    """an obligation decided by the matrix algebra; undecided when the algebra does not conclude"""
    c = ctx()
    if ok:
        c.rep._rec(name, 'proved')
        c.rep.obl[name]['backend'] = 'matrix algebra (linear algebra over noncommutative monomials)'
    else:
        c.rep._rec(name, 'unknown', {'goal': why, 'reason': 'matrix algebra does not conclude'})


class hiding:
    """set quantified assumptions mentioning these functions aside (fewer assumptions: sound)"""
    def __init__(self, *fs):
        self.names = {f.name() for f in fs if f is not None}

    def __enter__(self):
        self.sv = ctx().hide
        ctx().hide = self.sv | self.names

    def __exit__(self, *a):
        ctx().hide = self.sv


def sum_single(name, n, f, i):
    """lemma (induction on the number of terms, contract C09.sum_single): a sum whose terms vanish except the one at the
    position i (in range) is that term; the vanishing is the obligation"""
    c = ctx()
    v = valuation()
    k = z3.Const(c.name('kl'), z3.IntSort())
    prove(name + '.others', z3.Implies(z3.And(in_range(k, n), in_range(i, n), k != i), zden(f(k))(v) == 0))
    assume(z3.Implies(in_range(i, n), zden(sym_sum(n, f))(v) == zden(f(i))(v)))
