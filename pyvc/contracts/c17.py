"""C17 - numerical evaluation of expressions."""
import types as pytypes
from ..spec import *

MT = 'pyphs/misc/tools.py'


class SymSet:
    """a set of symbols: arbitrary membership"""

    def __init__(self, IN):
        self.IN = IN

    def __contains__(self, s):
        return ctx().branch(self.IN(s.s))


@contract('C17.find', [MT + ':find'], note='the symbols of the set in the order of the list, with their positions: complete, no other, increasing, '
          'any list and any set')
def find(L):
    f = L.load('pyphs.misc.tools').find
    n = fresh_int('n', 0)
    l, a = fresh_symlist('a', n, distinct=False)
    IN = z3.Function('in_set', SymSort, z3.BoolSort())
    args, inds = returns_normally('total', lambda: f(SymSet(IN), l))
    A, I = D.as_vlist(args), D.as_vlist(inds)
    prove('lengths', A.zlen() == I.zlen())
    q, r, j = skolem('q'), skolem('r'), skolem('j')
    m = I.zlen()
    if ctx().entails(m == 0):
        prove('complete.none', z3.Implies(in_range(j, n.e), z3.Not(IN(a(j)))))
        cover('end')
        return
    ind = lambda q: zint(I.getter()(q))
    prove('positions', z3.Implies(in_range(q, m), z3.And(in_range(ind(q), n.e), IN(a(ind(q))))))
    prove('symbols', z3.Implies(in_range(q, m), A.getter()(q).s == a(ind(q))))
    prove('increasing', z3.Implies(z3.And(0 <= q, q < r, r < m), ind(q) < ind(r)))
    w = z3.Int('w')
    assume(z3.And(in_range(j, n.e), IN(a(j))))
    prove('complete', z3.Exists([w], z3.And(in_range(w, m), ind(w) == j)))
    cover('end')


EV = 'pyphs/numerics/tools/_evaluation.py'
LB = 'pyphs/numerics/tools/_lambdify.py'


def reals(name, n):
    f = z3.Function(ctx().name(name), z3.IntSort(), z3.RealSort())
    return VList.sym(zint(n), lambda i: SReal(f(i))), f


def choice(name, k):
    """0 .. k-1, all of them explored"""
    for q in range(k - 1):
        if ctx().branch(z3.Const('%s_%d' % (name, q), z3.BoolSort())):
            return q
    return k - 1


class NP:
    """numpy: dimension of a value, arrays of numbers are the numbers themselves"""

    @staticmethod
    def ndim(a):
        return 1 if isinstance(a, (VList, list)) else 0

    @staticmethod
    def array(a, *k, **kw):
        return a


def mod(L):
    m = L.load('pyphs.numerics.tools._evaluation')
    m.numpy = NP
    return m


def numfun(k):
    F = z3.Function('value', *([z3.RealSort()] * (k + 1)))
    calls = []

    def func(*a):
        if len(a) != k:
            raise TypeError('%d arguments given, %d expected' % (len(a), k))
        return SReal(F(*[C.zreal(x) for x in a]))
    return F, func


@contract('C17.vectorize', [EV + ':pyphs_vectorize'], note='1 to 3 arguments, sequences of any length: one value per row, each from the arguments of '
          'that row; scalars evaluated directly; different lengths rejected (generators run eagerly)')
def vectorize(L):
    m = mod(L)
    k = 1 + choice('arity', 3)
    F, func = numfun(k)
    g = returns_normally('build', lambda: helper(m, 'pyphs_vectorize')(func))
    kind = choice('kind', 3)
    if kind == 0:
        a = [SReal(z3.Const('a%d' % q, z3.RealSort())) for q in range(k)]
        r = returns_normally('scalar.total', lambda: g(*a))
        prove('scalar', r.e == F(*[x.e for x in a]))
    elif kind == 1:
        n = fresh_int('n', 0)
        a = [reals('a%d' % q, n) for q in range(k)]
        r = D.as_vlist(returns_normally('rows.total', lambda: g(*[x for x, _ in a])))
        prove('rows.length', r.zlen() == n.e)
        i = skolem('i')
        if not ctx().entails(n.e == 0):
            prove('rows', z3.Implies(in_range(i, n.e), r.getter()(i).e == F(*[f(i) for _, f in a])))
    else:
        assume(z3.BoolVal(k > 1))
        n1, n2 = fresh_int('n', 0), fresh_int('n', 0)
        assume(n1.e != n2.e)
        a = [reals('a%d' % q, n2 if q == k - 1 else n1)[0] for q in range(k)]
        try:
            r = g(*a)
            list(r) if not isinstance(r, D.VIter) else None
            prove('lengths_checked', z3.BoolVal(False))
        except AttributeError:
            prove('lengths_checked', z3.BoolVal(True))
    cover('end')


@contract('C17.scalar', [EV + ':scalar_expr_to_numeric', EV + ':pyphs_vectorize'], note='0 to 3 arguments, sequences of any length; lambdify by its contract; '
          'the stored parameter values are passed on')
def scalar(L):
    m = mod(L)
    k = choice('arity', 4)
    F, f = numfun(k)
    args, _ = fresh_symlist('a', SInt(z3.IntVal(k)), distinct=False)
    args = tuple(args)
    e, subs, log = object(), object(), []

    def lambdify(a, ex, subs=None, **kw):
        log.append((a, ex, subs))
        return f
    m.lambdify = lambdify
    vec = ctx().branch(z3.Const('vectorize', z3.BoolSort()))
    g = returns_normally('build', lambda: m.scalar_expr_to_numeric(args, e, subs=subs, theano=False, vectorize=vec))
    prove('expression', z3.BoolVal(len(log) == 1 and tuple(log[0][0]) == args and log[0][1] is e and log[0][2] is subs))
    n = fresh_int('n', 1)
    rows = ctx().branch(z3.Const('rows', z3.BoolSort()))
    if rows and vec and k:
        a = [reals('a%d' % q, n) for q in range(k)]
        r = D.as_vlist(returns_normally('rows.total', lambda: g(*[x for x, _ in a])))
        prove('rows.length', r.zlen() == n.e)
        i = skolem('i')
        prove('rows', z3.Implies(in_range(i, n.e), r.getter()(i).e == F(*[fn(i) for _, fn in a])))
    elif rows and vec:
        r = D.as_vlist(returns_normally('constant.rows.total', lambda: g(reals('b', n)[0])))
        prove('constant.rows.length', r.zlen() == n.e)
        i = skolem('i')
        prove('constant.rows', z3.Implies(in_range(i, n.e), r.getter()(i).e == F()))
    else:
        a = [SReal(z3.Const('s%d' % q, z3.RealSort())) for q in range(k)]
        r = returns_normally('scalar.total', lambda: g(*a))
        prove('scalar', r.e == F(*[x.e for x in a]))
    cover('end')


class Transposed:
    def __init__(self, rows):
        self.rows = rows
        self.T = self
        self.flipped = True


@contract('C17.vector', [EV + ':vector_expr_to_numeric'], note='1 to 3 components, 0 to 2 arguments, sequences of any length: one row per row of the arguments, '
          'one column per component (scalar_expr_to_numeric by its contract)')
def vector(L):
    m = mod(L)
    k, w = choice('arity', 3), 1 + choice('components', 3)
    es = [object() for _ in range(w)]
    Fs = [z3.Function('value%d' % q, *([z3.RealSort()] * (k + 1))) for q in range(w)]
    args, subs, log = tuple(fresh_symlist('a', SInt(z3.IntVal(k)), distinct=False)[0]), object(), []
    gen = ctx().branch(z3.Const('rows', z3.BoolSort()))
    n = fresh_int('n', 1)

    def scalar(a, e, subs=None, theano=None, vectorize=True):
        q = [x is e for x in es].index(True)
        log.append((a is args or tuple(a) == args, subs, vectorize))

        def f(*a):
            if gen:
                # a generator of rows
                return D.VIter(n.e, lambda i: SReal(Fs[q](*[x.getter()(i).e for x in a])))
            return SReal(Fs[q](*[x.e for x in a]))
        return f
    m.scalar_expr_to_numeric = scalar
    m.numpy = pytypes.SimpleNamespace(array=lambda l: Transposed(l))
    vec = ctx().branch(z3.Const('vectorize', z3.BoolSort()))
    g = returns_normally('build', lambda: m.vector_expr_to_numeric(args, VList(es), subs=subs, theano=False, vectorize=vec))
    prove('components', z3.BoolVal(len(log) == w and all(o and s is subs and v == vec for o, s, v in log)))
    if gen:
        a = [reals('a%d' % q, n) for q in range(k)]
        r = returns_normally('total', lambda: g(*[x for x, _ in a]))
    else:
        a = [SReal(z3.Const('s%d' % q, z3.RealSort())) for q in range(k)]
        r = returns_normally('total', lambda: g(*a))
    if not isinstance(r, Transposed):
        raise Unsupported('assembled otherwise')
    prove('width', z3.BoolVal(len(list(r.rows)) == w))
    for q, row in enumerate(list(r.rows)):
        if gen:
            row = D.as_vlist(row)
            prove('rows.length', row.zlen() == n.e)
            i = skolem('i')
            prove('rows', z3.Implies(in_range(i, n.e), row.getter()(i).e == Fs[q](*[f(i) for _, f in a])))
        else:
            prove('values', row.e == Fs[q](*[x.e for x in a]))
    cover('end')


@contract('C17.arguments', [EV + ':Evaluation.args'], note='x, dx, w, u, p, o in the documented order; any dimensions')
def arguments(L):
    m = mod(L)
    s = SymCore(L, linear=False)
    d = m.Evaluation.__new__(m.Evaluation)
    d.core = s.core
    s.core.p, p = fresh_symlist('p', fresh_int('np', 0))
    o, _ = fresh_symlist('o', fresh_int('no', 0))
    s.core.observers = pytypes.SimpleNamespace(keys=lambda: o)
    a = D.as_vlist(returns_normally('total', lambda: d.args()))
    off = z3.IntVal(0)
    for nm, part in (('x', s.core.x), ('dx', s.core.dx()), ('w', s.core.w), ('u', s.core.u), ('p', s.core.p), ('o', o)):
        part = D.as_vlist(part)
        n, g = part.zlen(), part.getter()
        i = generic('i')
        if not ctx().entails(n == 0):
            prove(nm, z3.Implies(in_range(i, n), a.getter()(off + i).s == g(i).s))
        off = off + n
    prove('length', a.zlen() == off)
    cover('end')


@contract('C17.expr_to_numeric', [EV + ':Evaluation.expr_to_numeric'], note='the numerical function is built on the ordered variables of the expression '
          '(find by its contract) with the stored parameter values; scalar, vector and sliced vector; no expression gives none')
def expr_to_numeric(L):
    m = mod(L)
    kind = choice('kind', 4)
    n = fresh_int('n', 1)
    e = fresh_exprlist('e', n) if kind in (1, 2) else (None if kind == 3 else fresh_exprlist('e', SInt(z3.IntVal(1))).getter()(z3.IntVal(0)))
    vs = slice(SInt(z3.Const('lo', z3.IntSort())), SInt(z3.Const('hi', z3.IntSort()))) if kind == 2 else None
    symbs, allargs, subs, th = object(), object(), object(), object()
    args, inds, log = (), (), []
    free = []

    def free_symbols(x):
        free.append(x)
        return symbs
    m.free_symbols = free_symbols
    m.find = lambda a, b: (args, inds) if a is symbs and b is allargs else (None, None)

    class F:
        pass

    def made(tag):
        def f(a, ex, subs=None, theano=None, vectorize=True):
            r = F()
            log.append((tag, a, ex, subs, theano, vectorize, r))
            return r
        return f
    m.vector_expr_to_numeric, m.scalar_expr_to_numeric = made('vector'), made('scalar')
    core = pytypes.SimpleNamespace(name=(lambda: e) if ctx().branch(z3.Const('getter', z3.BoolSort())) else e, subs=subs)
    vec = ctx().branch(z3.Const('vectorize', z3.BoolSort()))
    r = returns_normally('total', lambda: m.Evaluation.expr_to_numeric(core, 'name', allargs, theano=th, vectorize=vec, vslice=vs))
    if kind == 3:
        prove('none', z3.BoolVal(tuple(r) == (None, None, None) and not log))
        cover('end')
        return
    if len(log) != 1:
        raise Unsupported('built otherwise')
    tag, a, ex, sb, theano, v, f = log[0]
    prove('kind', z3.BoolVal(tag == ('scalar' if kind == 0 else 'vector')))
    prove('result', z3.BoolVal(r[0] is f and r[1] is args and r[2] is inds and a is args))
    prove('values', z3.BoolVal(sb is subs and theano is th and v == vec))
    prove('variables', z3.BoolVal(all(x is e for x in free)))
    if kind == 2:
        want = e[vs]
        forall_elem('slice', ex, want.zlen(), lambda i: want.getter()(i))
    else:
        prove('expression', z3.BoolVal(ex is e))
    cover('end')
