"""C10 - a numerical step executes the scheme on the right variables."""
import types as pytypes
from ..spec import *
from ..core import SStr
from .c12 import Arr, fresh_arr, prove_arr, as_arr

NC = 'pyphs/numerics/numerical_core/_numerical_core.py'
NUM = NC + ':Numeric'


def numeric(L):
    m = L.load('pyphs.numerics.numerical_core._numerical_core')
    return m, track(m.Numeric.__new__(m.Numeric))


@contract('C10.iterexecs', [NUM + '._iterexecs'],
          note='the solver runs until residual or progress falls to the tolerance or maxit iterations, never more; any residual and '
               'progress sequences, tolerance, maxit (loop invariant, with termination)')
def iterexecs(L):
    m, d = numeric(L)
    eps = SReal(z3.Const('eps', z3.RealSort()))
    maxit = fresh_int('maxit', 0)
    R, S = z3.Function('res', z3.IntSort(), z3.RealSort()), z3.Function('step', z3.IntSort(), z3.RealSort())
    w = pytypes.SimpleNamespace(n=z3.IntVal(0), init=[])        # n: number of executions so far
    cmds = object()

    def execs(commands):
        prove('commands', z3.BoolVal(commands is cmds))
        w.n = w.n + 1

    def set_step(v):
        w.init.append(v)
        assume(z3.Implies(w.n == 0, S(z3.IntVal(0)) == C.zreal(v)))
    d.config = VDict([('eps', eps), ('maxit', maxit)])
    d.__dict__.update(_execs=execs, set_sname=set_step, rname=lambda: SReal(R(w.n)), sname=lambda: SReal(S(w.n)))
    j = z3.Int('qj')
    above = lambda k: z3.And(R(k) > eps.e, S(k) > eps.e)

    class Inv:
        def check(self, st, _, tag):
            if tag == 'preserved':
                prove('variant', z3.And(w.n == self.n + 1, w.n <= maxit.e))
            prove(tag + '.count', z3.And(zint(d.it) == w.n, 0 <= w.n, w.n <= maxit.e))
            i = skolem('i')
            prove(tag + '.not_stopped_before', z3.Implies(z3.And(0 <= i, i < w.n), above(i)))

        def havoc(self, st, _):
            k = fresh_int('k', 0)
            assume(k.e <= maxit.e)
            assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k.e), above(j)), patterns=[R(j)]))
            w.n = self.n = k.e
            d.it = k
    loc = 'pyphs.numerics.numerical_core._numerical_core:Numeric._iterexecs:1'
    ctx().invs[loc] = Inv()
    for alt in ('_iterexecs:1',):
        ctx().invs['pyphs.numerics.numerical_core._numerical_core:' + alt] = Inv()
    returns_normally('total', lambda: helper(d, '_iterexecs')(cmds, 'rname', 'sname'))
    prove('initialised', z3.BoolVal(len(w.init) == 1 and float(w.init[0]) == 1.))
    prove('at_most_maxit', z3.And(0 <= w.n, w.n <= maxit.e, zint(d.it) == w.n))
    i = skolem('i')
    prove('not_stopped_before', z3.Implies(z3.And(0 <= i, i < w.n), above(i)))
    prove('stopped_by_the_rule', z3.Or(R(w.n) <= eps.e, S(w.n) <= eps.e, w.n == maxit.e))
    cover('end')


E = lambda: z3.Function('stored', SymSort, D.Opq, D.Opq)       # the store of a value in a named quantity
V = lambda: z3.Function('value', SymSort, z3.IntSort(), D.Opq)  # evaluation of a named quantity after that many stores


@contract('C10.execs', [NUM + '._execs'],
          note='the k-th command evaluates its quantity after exactly k stores and stores the value in its own name (or the given '
               'target) before the next command; any number of commands')
def execs(L):
    m, d = numeric(L)
    n = fresh_int('n', 0)
    names, f = fresh_symlist('name', n, distinct=False)
    names2, g = fresh_symlist('target', n, distinct=False)
    pair = z3.Function('is_pair', z3.IntSort(), z3.BoolSort())
    cmds = VList.sym(n.e, lambda i: (SStr('', SSym(g(i))), SStr('', SSym(f(i)))) if ctx().branch(pair(i)) else SStr('', SSym(f(i))))
    trace = VList.sym(z3.IntVal(0), lambda i: None)
    d._trace = trace

    def get(o, name):
        if o is not d:
            raise Unsupported('attribute of another object')
        if (name.pre, name.suf) == ('set_', ''):
            return lambda v: d._trace.append(SOpaque(E()(name.sym.s, v.e)))
        if (name.pre, name.suf) == ('', '_eval'):
            return lambda: SOpaque(V()(name.sym.s, d._trace.zlen()))
        raise Unsupported('attribute %s*%s' % (name.pre, name.suf))
    ctx().symgetattr = get
    returns_normally('total', lambda: helper(d, '_execs')(cmds))
    forall_elem('trace', d._trace, n.e, lambda i: SOpaque(E()(z3.If(pair(i), g(i), f(i)), V()(f(i), i))))
    cover('end')


def _update(given):
    def h(L):
        m, d = numeric(L)
        n = fresh_int('n', 0)
        d._trace = VList.sym(z3.IntVal(0), lambda i: None)
        X = z3.Function('exec_', D.Opq, D.Opq)
        Y = z3.Function('iter_', D.Opq, D.Opq, D.Opq, D.Opq)
        A = [z3.Function('act%d' % q, z3.IntSort(), D.Opq) for q in range(4)]
        it = z3.Function('is_iter', z3.IntSort(), z3.BoolSort())
        acts = VList.sym(n.e, lambda i: ('iter', (SOpaque(A[1](i)), SOpaque(A[2](i)), SOpaque(A[3](i)))) if ctx().branch(it(i))
                         else ('exec', SOpaque(A[0](i))))
        ny, npar = fresh_int('ny', 0), fresh_int('np', 0)
        order = []
        np = pytypes.SimpleNamespace(zeros=lambda k: Arr([zint(k)], lambda i: z3.RealVal(0)))
        m.numpy = np
        d.method = pytypes.SimpleNamespace(dims=pytypes.SimpleNamespace(y=lambda: ny, p=lambda: npar), update_actions=acts)
        got = {}

        def setter(nm):
            def f(v):
                prove('inputs_first.' + nm, d._trace.zlen() == 0)
                order.append(nm)
                got[nm] = v
            return f
        d.__dict__.update(_execs=lambda c: d._trace.append(SOpaque(X(c.e))),
                          _iterexecs=lambda a, b, c: d._trace.append(SOpaque(Y(a.e, b.e, c.e))),
                          set_u=setter('u'), set_p=setter('p'))
        u, fu = fresh_arr('u', ny)
        p, fp = fresh_arr('p', npar)
        if given:
            returns_normally('total', lambda: d.update(u=u, p=p))
            prove('loaded', z3.BoolVal(got.get('u') is u and got.get('p') is p))
        else:
            returns_normally('total', lambda: d.update())
            prove_arr('zero_inputs', got.get('u'), [ny.e], lambda i: z3.RealVal(0))
            prove_arr('zero_parameters', got.get('p'), [npar.e], lambda i: z3.RealVal(0))
        forall_elem('actions', d._trace, n.e, lambda i: SOpaque(z3.If(it(i), Y(A[1](i), A[2](i), A[3](i)), X(A[0](i)))))
        prove('once', z3.BoolVal(sorted(order) == ['p', 'u']))
        cover('end')
    return h


contract('C10.update_given', [NUM + '.update'], note='loads the given inputs and parameters first, then runs the actions in order, '
         'any number of actions')(_update(True))
contract('C10.update_default', [NUM + '.update'], note='missing inputs and parameters are zero')(_update(False))


def getter(l):
    """positions of a list, by index (an empty list has no element in range)"""
    return (lambda k: z3.IntVal(0)) if l.c == [] else (lambda k: zint(l.getter()(k)))


class Args(Arr):
    """one-dimensional numpy array indexed by lists of positions"""

    def __getitem__(self, inds):
        l = D.as_vlist(inds)
        g, at = getter(l), self.at
        k = skolem('k')
        prove('positions.in_range', z3.Implies(in_range(k, l.zlen()), in_range(g(k), self.dims[0])))
        return Arr([l.zlen()], lambda i: at(g(i)))

    def __setitem__(self, inds, val):
        raise Unsupported('assignment')


class ArgsW(Args):
    """... with assignment, the positions being distinct (rank: inverse of the positions)"""

    def setup(self, inds, rank):
        self.inds_, self.rank = inds, rank
        return self

    def __setitem__(self, inds, val):
        l = D.as_vlist(inds)
        k = skolem('k')
        prove('positions.count', l.zlen() == self.inds_[0])
        prove('positions.written', z3.Implies(in_range(k, l.zlen()), getter(l)(k) == self.inds_[1](k)))
        val = as_arr(val)
        if not ctx().branch(val.dims[0] == l.zlen()):
            raise ValueError('shape mismatch')
        old, new, n = self.at, val.at, l.zlen()
        I, rank = self.inds_[1], self.rank
        self.at = lambda q: z3.If(z3.And(in_range(rank(q), n), I(rank(q)) == q), new(rank(q)), old(q))


def argument(L):
    """a numerical object with any number of arguments, and a variable at distinct positions among them"""
    m, d = numeric(L)
    N, n = fresh_int('N', 0), fresh_int('n', 0)
    I, rank = z3.Function('position', z3.IntSort(), z3.IntSort()), z3.Function('rank', z3.IntSort(), z3.IntSort())
    k = z3.Int('qk')
    assume(z3.ForAll([k], z3.Implies(in_range(k, n.e), z3.And(in_range(I(k), N.e), rank(I(k)) == k)), patterns=[I(k)]))
    f = z3.Function('args', z3.IntSort(), z3.RealSort())
    d.args = ArgsW([N.e], lambda q: f(q)).setup((n.e, I), rank)
    inds = VList.sym(n.e, lambda i: SInt(I(i)))
    syms, _ = fresh_symlist('arg', N)
    m.numpy = pytypes.SimpleNamespace(array=lambda l: l)
    d.method = pytypes.SimpleNamespace(args=lambda: syms)
    return m, d, N, n, I, f, inds


@contract('C10.accessors', [NC + ':getarg_generator', NC + ':setarg_generator'],
          note='reading a named variable gives exactly its entries; writing sets exactly its entries, any dimensions and positions')
def accessors(L):
    m, d, N, n, I, f, inds = argument(L)
    get = returns_normally('accessor', lambda: helper(m, 'getarg_generator')(d, 'x', inds))
    st = returns_normally('mutator', lambda: helper(m, 'setarg_generator')(d, 'x', inds))
    prove_arr('read', returns_normally('read.total', lambda: get()), [n.e], lambda i: f(I(i)))
    v, g = fresh_arr('v', n)
    returns_normally('write.total', lambda: st(v))
    i, q = skolem('i'), skolem('q')
    prove('written', z3.Implies(in_range(i, n.e), d.args.at(I(i)) == g(i)))
    k = z3.Int('qk')
    prove('others', z3.Implies(z3.And(in_range(q, N.e), z3.ForAll([k], z3.Implies(in_range(k, n.e), I(k) != q), patterns=[I(k)])),
                               d.args.at(q) == f(q)))
    prove_arr('reads_back', returns_normally('read2.total', lambda: get()), [n.e], lambda i: g(i))
    cover('end')


@contract('C10.quantities', [NC + ':getfunc_generator', NC + ':setfunc_generator'],
          note='a stored quantity reads back the last value stored under its name')
def quantities(L):
    m, d = numeric(L)
    a, b = fresh_arr('a', fresh_int('n', 0))[0], fresh_arr('b', fresh_int('n', 0))[0]
    d._one, d._two = a, b
    g1, s1 = helper(m, 'getfunc_generator')(d, 'one'), helper(m, 'setfunc_generator')(d, 'one')
    g2 = helper(m, 'getfunc_generator')(d, 'two')
    prove('read', z3.BoolVal(g1() is a and g2() is b))
    c = fresh_arr('c', fresh_int('n', 0))[0]
    s1(c)
    prove('written', z3.BoolVal(g1() is c and g2() is b))
    cover('end')


@contract('C10.evaluation', [NC + ':evalfunc_generator'],
          note='each evaluation calls the numerical function with the current values at the positions of its own arguments, any '
               'number of arguments (lambdify and find by their contracts, C17)')
def evaluation(L):
    m, d, N, n, I, f, inds = argument(L)
    expr = fresh_exprlist('e', fresh_int('ne', 1))
    args, _ = fresh_symlist('a', n)
    calls = []

    class Func:
        def symcall(self, vals):
            calls.append(vals)
            return Arr([zint(SInt(D.as_vlist(expr).zlen()))], lambda i: z3.RealVal(0))

        def __call__(self, *a):
            return self.symcall(Arr([z3.IntVal(len(a))], lambda i: z3.RealVal(0)))
    made = []

    def lambdify(a, e, subs=None, theano=None):
        made.append((a, e, subs))
        return Func()
    m.lambdify = lambdify

    def shape_test(nd):
        def f(o):
            if not isinstance(o, Arr) or len(o.dims) != nd:
                raise TypeError('not an array with %d axes' % nd)
        return f
    m.num_types = pytypes.SimpleNamespace(scalar_test=shape_test(0), vector_test=shape_test(1), matrix_test=shape_test(2))
    subs = object()
    d.config = VDict([('theano', False)])
    d.method.subs = subs
    d.method.fun_expr, d.method.fun_args, d.method.fun_inds = expr, args, inds
    ev = returns_normally('total', lambda: helper(m, 'evalfunc_generator')(d, 'fun'))
    prove('function', z3.BoolVal(len(made) == 1 and made[0][0] is args and made[0][1] is expr and made[0][2] is subs))
    f2 = z3.Function('args2', z3.IntSort(), z3.RealSort())
    d.args.at = lambda q: f2(q)
    del calls[:]
    returns_normally('evaluation.total', lambda: ev())
    prove('one_call', z3.BoolVal(len(calls) == 1))
    prove_arr('values', calls[0], [n.e], lambda i: f2(I(i)))
    cover('end')


def _init(kind):
    def h(L):
        m, d = numeric(L)
        nx, nw = fresh_int('nx', 0), fresh_int('nw', 0)
        m.numpy = pytypes.SimpleNamespace(zeros=lambda s: Arr([zint(k) for k in s], lambda *i: z3.RealVal(0)), asarray=as_arr)
        cur = {'x': fresh_arr('x', nx)[0], 'w': fresh_arr('w', nw)[0]}
        log = []
        for k in cur:
            d.__dict__[k] = (lambda k: lambda: cur[k])(k)
            d.__dict__['set_' + k] = (lambda k: lambda v: log.append((k, v)))(k)
        v, f = fresh_arr('v', fresh_int('nv', 0))
        d.inits = VDict([('x', v)] if kind == 'value' else [('w', None), ('x', v)])
        try:
            d.init()
            ok = True
        except TypeError:
            ok = False
        same = v.dims[0] == nx.e
        prove('accepted' if ok else 'rejected', same if ok else z3.Not(same))
        last = dict(log)
        if ok:
            prove('targets', z3.BoolVal(len(log) == len(last) and set(last) == set(d.inits)))
            prove_arr('value', as_arr(last['x']), [nx.e], lambda i: f(i))
            if kind != 'value':
                prove_arr('default', as_arr(last['w']), [nw.e], lambda i: z3.RealVal(0))
        else:
            prove('not_written', z3.BoolVal('x' not in last))
        cover('end')
    return h


for _k in ('value', 'default'):
    contract('C10.init_' + _k, [NUM + '.init'], note='initial values land in the variable of that name and nowhere else; a value of '
             'another shape is rejected; no value means zero; any dimensions')(_init(_k))


@contract('C10.operations', [NC + ':evalop_generator', 'pyphs/numerics/tools/_operation.py:Operation'],
          note='an operation applies its function to the current values of its arguments, in order (all kinds of arguments: named '
               'quantity, number, nested operation; one or two of them)')
def operations(L):
    m, d = numeric(L)
    om = L.load('pyphs.numerics.tools._operation')
    Fop = {q: z3.Function('op_%s' % q, *([D.Opq] * (q + 1))) for q in (1, 2)}
    G = z3.Function('nested', D.Opq, D.Opq)
    num = z3.Function('number', z3.RealSort(), D.Opq)

    def val(a):
        return a.e if isinstance(a, SOpaque) else num(C.zreal(a))

    class Res(SOpaque):
        shape = ()
    om.PARSER.update(f=lambda *a: Res(Fop[len(a)](*[val(x) for x in a])), g=lambda a: Res(G(val(a))))
    state = {'one': z3.Const('one0', D.Opq), 'two': z3.Const('two0', D.Opq)}
    for k in state:
        d.__dict__[k] = (lambda k: lambda: SOpaque(state[k]))(k)
    d.method = pytypes.SimpleNamespace()
    two = ctx().branch(z3.Const('two_arguments', z3.BoolSort()))
    real = z3.Const('number_', z3.RealSort())
    args, want = [], []
    for q in range(2 if two else 1):
        nm = ('one', 'two')[q]
        if ctx().branch(z3.Const('name%d' % q, z3.BoolSort())):
            args.append(nm)
            want.append(lambda nm=nm: state[nm])
        elif ctx().branch(z3.Const('nested%d' % q, z3.BoolSort())):
            args.append(om.Operation('g', [nm]))
            want.append(lambda nm=nm: G(state[nm]))
        else:
            args.append(2.5 + q)
            want.append(lambda q=q: num(z3.RealVal(2.5 + q)))
    m.numpy = pytypes.SimpleNamespace(array=lambda l: l)
    m.Operation = om.Operation
    ev = returns_normally('total', lambda: helper(m, 'evalop_generator')(d, 'quantity', om.Operation('f', args)))
    for k in state:
        state[k] = z3.Const(k + '1', D.Opq)
    got = returns_normally('evaluation.total', lambda: ev())
    prove('value', val(got) == Fop[len(args)](*[x() for x in want]))
    cover('end')
