"""pyvc.stubs - assumed contracts on the third-party packages (listed in the evidence as assumptions)."""
import builtins
import types as pytypes
import z3
from . import core as C
from . import domain as D
from .core import Unsupported, SInt, SReal, SBool, SExpr, SSym, SRel, SStr, SOpaque, SymSort, ctx, zint
from .domain import VList, VDict, SMat

_FUN = {}


def sym_fun(pre, suf):
    """injective renaming of symbols: str(s) -> pre + str(s) + suf"""
    c = ctx()
    tab = c.__dict__.setdefault('_symfun', {})
    if (pre, suf) not in tab:
        f = z3.Function('ren[%s|%s]' % (pre, suf), SymSort, SymSort)
        g = z3.Function('unren[%s|%s]' % (pre, suf), SymSort, SymSort)
        s = z3.Const('s', SymSort)
        c.assume(z3.ForAll([s], g(f(s)) == s, patterns=[f(s)]))
        tab[(pre, suf)] = f
    return tab[(pre, suf)]


def const_sym(name):
    c = ctx()
    tab = c.__dict__.setdefault('_symconst', {})
    if name not in tab:
        s = z3.Const('sym[%s]' % name, SymSort)
        for o in tab.values():
            c.assume(s != o)
        tab[name] = s
    return SSym(tab[name])


def symbols(names, **kw):
    if isinstance(names, SSym):
        return names
    if isinstance(names, SStr):
        if not names.pre and not names.suf:
            return names.sym
        return SSym(sym_fun(names.pre, names.suf)(names.sym.s))
    if isinstance(names, VList):
        if names.symbolic():
            g = names.getter()
            return VList.sym(names.n, lambda i: symbols(g(i), **kw))
        return VList([symbols(x, **kw) for x in names.c])
    if isinstance(names, (builtins.list, builtins.tuple)):
        return type(names)(symbols(x, **kw) for x in names)
    if isinstance(names, str):
        if ',' in names or ' ' in names or ':' in names:
            raise Unsupported('symbols(%r)' % names)
        return const_sym(names)
    raise Unsupported('symbols of %r' % type(names))


def sympify(x, **kw):
    if isinstance(x, (SExpr, SMat, SInt, SReal)):
        return x
    if isinstance(x, (int, float)):
        return D.as_expr(x)
    raise Unsupported('sympify of %r' % type(x))


def is_expr(o):
    return isinstance(o, SExpr)


def is_mat(o):
    return isinstance(o, SMat)


def make():
    from .load import accept_class, StubModule, _MATCLS, placeholder
    sp = StubModule('sympy')
    sp.Matrix = accept_class('Matrix', is_mat, D.mat_from, hstack=D.hstack, vstack=D.vstack, diag=D.diag)
    sp.SparseMatrix = accept_class('SparseMatrix', is_mat, D.mat_from, hstack=D.hstack, vstack=D.vstack, diag=D.diag)
    _MATCLS[0] = sp.SparseMatrix
    sp.zeros, sp.eye, sp.diag = D.zeros, D.eye, D.diag
    sp.Symbol = accept_class('Symbol', lambda o: isinstance(o, SSym), symbols)
    sp.Expr = accept_class('Expr', is_expr)
    sp.Float = accept_class('Float', lambda o: False, sympify)
    sp.Integer = accept_class('Integer', lambda o: False, sympify)
    sp.Number = accept_class('Number', lambda o: False, sympify)
    sp.symbols, sp.sympify = symbols, sympify
    sp.S = sympify
    sp.simplify = lambda e, **k: e
    sp.Piecewise = D.piecewise
    sp.diff = lambda e, s: e.diff(s)
    sp.Abs = lambda e: abs_expr(e)
    sp.And = lambda *a: SRel(lambda v: z3.And(*[x.den(v) for x in a]))
    sp.Or = lambda *a: SRel(lambda v: z3.Or(*[x.den(v) for x in a]))
    sp.init_printing = lambda *a, **k: None
    sp.nan, sp.oo, sp.zoo = Special('nan'), Special('oo'), Special('zoo')
    np = StubModule('numpy')
    class finfo:
        def __init__(self, t):
            self.eps = 2.220446049250313e-16
            self.dtype = pytypes.SimpleNamespace(type=accept_class('float64', lambda o: False))
    np.finfo = finfo
    cp = pytypes.ModuleType('copy')
    cp.copy, cp.deepcopy = _copy, _deepcopy
    col = pytypes.ModuleType('collections')
    import collections
    col.OrderedDict = VDict
    col.defaultdict, col.namedtuple, col.Counter = collections.defaultdict, collections.namedtuple, collections.Counter
    return {'sympy': sp, 'numpy': np, 'copy': cp, 'collections': col}


class Special:
    def __init__(self, n):
        self.n = n

    def __neg__(self):
        return Special('-' + self.n)


def abs_expr(e):
    d = C.zden(e)
    return SExpr(lambda v: z3.If(d(v) >= 0, d(v), -d(v)))


def _copy(o):
    import copy
    if isinstance(o, (SExpr, SInt, SReal, SBool, SRel, SStr, SOpaque, type(None), str, int, float, tuple)):
        return o
    if isinstance(o, set):
        return set(o)
    r = copy.copy(o)
    if C.Ctx.cur is not None and r is not o and str(type(o).__module__).startswith('pyphs'):
        ctx().tracked.append(r)
    return r


def _deepcopy(o):
    import copy
    if isinstance(o, (SExpr, SInt, SReal, SBool, SRel, SStr, SOpaque, type(None), str, int, float)):
        return o
    if isinstance(o, tuple):
        return tuple(_deepcopy(x) for x in o)
    return copy.deepcopy(o)
