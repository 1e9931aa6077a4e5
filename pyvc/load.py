"""pyvc.load - mechanical loading of the real modules of /repo for symbolic execution.

Every run parses the *current* source text of the repository, applies the syntactic
rewriting below and executes the module with stubs for the third-party packages:

  list display / list comprehension  ->  VList (python list, possibly of symbolic length)
  dict display                       ->  VDict
  set / dict comprehension           ->  unchanged when iterating over concrete values
  for T in E: B                      ->  for T in rt.Loop(E, ...): B   (loop rule, pyvc.loops)
  len, range, isinstance, zip, ...   ->  versions aware of the proxies
  import of sympy/numpy/...          ->  stub modules (assumed contracts on the dependency)

Nothing else is dropped, renamed or re-ordered; a construct the proxies do not support
raises Unsupported, which makes the obligation undecided and never a violation.
"""
import ast
import builtins
import collections
import copy as _copy
import os
import sys
import types as pytypes

import z3
from . import core as C
from . import domain as D
from .core import Unsupported, SInt, SReal, SBool, SExpr, SSym, SRel, SStr, SOpaque, ctx, zint, is_int
from .domain import VList, VRange, VIter, VDict, SMat, is_sym_iter, generic_eval
from . import loops

# --------------------------------------------------------------------------- #
# placeholders for whatever is not modelled


class PhMeta(type):
    def __getattr__(cls, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return placeholder(cls.__name__ + '.' + name)

    def __call__(cls, *a, **k):
        if '_ph' in cls.__dict__:
            raise Unsupported('call of %s (not modelled)' % cls.__name__)
        return type.__call__(cls, *a, **k)

    def __iter__(cls):
        return iter(())

    def _no(cls, *a):
        return placeholder(cls.__name__ + '?')
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __neg__ = __or__ = _no
    __getitem__ = __mod__ = __pow__ = __rtruediv__ = _no

    def __instancecheck__(cls, obj):
        if '_ph' in cls.__dict__:
            return False
        return type.__instancecheck__(cls, obj)


def placeholder(name):
    return PhMeta(name, (), {'_ph': True})


class StubModule(pytypes.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        p = placeholder(self.__name__ + '.' + name)
        setattr(self, name, p)
        return p


class Accept(type):
    """stub class: isinstance by predicate, call by constructor"""
    def __instancecheck__(cls, obj):
        return cls.accept(obj)

    def __call__(cls, *a, **k):
        return cls.make(*a, **k)


def accept_class(name, accept, make=None, **attrs):
    def no(*a, **k):
        raise Unsupported('constructor %s' % name)
    ns = dict(accept=staticmethod(accept), make=staticmethod(make or no))
    ns.update({k: staticmethod(v) for k, v in attrs.items()})
    return Accept(name, (), ns)


# --------------------------------------------------------------------------- #
# builtins

def _len(o):
    if isinstance(o, (VList, VRange)):
        return o.vlen()
    if isinstance(o, VIter):
        raise TypeError('object of type zip has no len()')
    if isinstance(o, SMat):
        e = z3.simplify(o.m * o.n)
        return e.as_long() if z3.is_int_value(e) else SInt(e)
    if hasattr(o, 'vlen'):
        return o.vlen()
    return builtins.len(o)


class _ListMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.list, VList))

    def __call__(cls, *a):
        if not a:
            return VList()
        o = a[0]
        if isinstance(o, (VList, VRange, VIter, SMat)):
            r = VList()
            r.become(D.as_vlist(o))
            return r
        return VList(builtins.list(o))

    def __eq__(cls, o):
        return o is cls or o is builtins.list or o is VList

    def __hash__(cls):
        return hash(builtins.list)


class vlist(metaclass=_ListMeta):
    pass


class _DictMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.dict)

    def __call__(cls, *a, **k):
        return VDict(*a, **k)


class vdict(metaclass=_DictMeta):
    @staticmethod
    def fromkeys(keys, value=None):
        return VDict([(k, value) for k in keys])


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SInt))

    def __call__(cls, *a):
        if a and isinstance(a[0], SInt):
            return a[0]
        if a and isinstance(a[0], SReal):
            e = a[0].e
            # truncation toward zero
            return SInt(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
        return builtins.int(*a)


class vint(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, SReal))

    def __call__(cls, *a):
        if a and isinstance(a[0], (SInt, SReal)):
            return SReal(C.zreal(a[0]))
        if a and isinstance(a[0], SExpr):
            raise Unsupported('float of an expression')
        return builtins.float(*a)


class vfloat(metaclass=_FloatMeta):
    pass


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.str, SStr))

    def __call__(cls, *a):
        if a and isinstance(a[0], SSym):
            return SStr('', a[0])
        if a and isinstance(a[0], SStr):
            return a[0]
        return builtins.str(*a)


class vstr(metaclass=_StrMeta):
    join = staticmethod(lambda s, it: s.join(it))


_MAP = None


def _unmap(t):
    if isinstance(t, builtins.tuple):
        return builtins.tuple(_unmap(x) for x in t)
    if t is _tuple:
        return builtins.tuple
    if t is _range:
        return (builtins.range, VRange)
    m = {builtins.list: vlist, builtins.dict: vdict, builtins.int: vint, builtins.float: vfloat, builtins.str: vstr}
    try:
        return m.get(t, t)
    except TypeError:
        return t


def _isinstance(o, t):
    if isinstance(t, VList):
        t = builtins.tuple(t)
    return builtins.isinstance(o, _unmap(t))


def _range(*a):
    if all(isinstance(x, builtins.int) for x in a):
        return builtins.range(*a)
    if builtins.len(a) == 1:
        return VRange(0, a[0])
    return VRange(*a)


def _annotated(o):
    """length announced by the contract for an object following the sequence protocol (__getitem__ without __iter__)"""
    if C.Ctx.cur is None or isinstance(o, builtins.type) or not isinstance(getattr(type(o), '__module__', None), builtins.str):
        return None
    if type(o).__module__.startswith('pyphs') and not builtins.hasattr(type(o), '__iter__'):
        for x, n in ctx().__dict__.get('seqlen', ()):
            if x is o:
                return n
    return None


def _seq(o):
    """(z3 length, getter) of an indexable iterable"""
    n = _annotated(o)
    if n is not None:
        # sequence protocol: o[0], o[1], ... until IndexError; the announced length is an obligation
        try:
            o[D._concrete(SInt(z3.simplify(n)))]
        except IndexError:
            return n, lambda k: o[SInt(k)]
        raise Unsupported('sequence longer than announced')
    if isinstance(o, (VList, VRange, VIter)):
        return o.zlen(), o.getter()
    if isinstance(o, SMat):
        l = o.to_list()
        return l.zlen(), l.getter()
    l = VList(builtins.list(o))
    return l.zlen(), l.getter()


def _issym(o):
    if _annotated(o) is not None:
        return True
    if isinstance(o, SMat):
        return is_sym_iter(o.to_list())
    return is_sym_iter(o)


def _enumerate(o, start=0):
    if not _issym(o):
        return builtins.enumerate(o, start)
    n, g = _seq(o)
    return VIter(n, lambda i: (D._concrete(SInt(z3.simplify(i + zint(start)))), g(i)))


def _zip(*os_):
    if not any(_issym(o) for o in os_):
        return builtins.zip(*os_)
    seqs = [_seq(o) for o in os_]
    c = ctx()
    n = seqs[0][0]
    for m, _ in seqs[1:]:
        if c.branch(m < n):
            n = m
    return VIter(n, lambda i: builtins.tuple(g(i) for _, g in seqs))


def _map(f, *os_):
    if not any(_issym(o) for o in os_):
        return builtins.map(f, *os_)
    z = _zip(*os_) if builtins.len(os_) > 1 else None
    if z is None:
        n, g = _seq(os_[0])
        return VIter(n, generic_eval(lambda k: f(g(k)), n))
    return VIter(z.n, generic_eval(lambda k: f(*z.get(k)), z.n))


def _sum(o, start=0):
    if _issym(o):
        n, g = _seq(o)
        return start + D.sym_sum(n, g)
    r = start
    for x in o:
        r = r + x
    return r


def _sorted(o, key=None, reverse=False):
    if _issym(o):
        raise Unsupported('sorted of a symbolic sequence')
    return VList(D._sorted(builtins.list(o), key, reverse))


def _minmax(lt):
    def f(*a, **k):
        if k:
            raise Unsupported('min/max with keywords')
        if builtins.len(a) == 1:
            if _issym(a[0]):
                raise Unsupported('min/max of a symbolic sequence')
            a = builtins.list(a[0])
            if not a:
                raise ValueError('empty sequence')
        r = a[0]
        for x in a[1:]:
            if lt(x, r):
                r = x
        return r
    return f


def _all(o):
    if _issym(o):
        n, g = _seq(o)
        k = z3.Const(ctx().name('q'), z3.IntSort())
        f = generic_eval(lambda i: g(i), n)
        r = ctx().branch(z3.ForAll([k], z3.Implies(D.in_range(k, n), C.zbool(f(k)))))
        if r:
            ctx().facts.append((ctx().scopes[-1], lambda t: z3.Implies(D.in_range(t, n), C.zbool(f(t)))))
        return r
    for x in o:
        if not x:
            return False
    return True


def _any(o):
    if _issym(o):
        n, g = _seq(o)
        k = z3.Const(ctx().name('q'), z3.IntSort())
        f = generic_eval(lambda i: g(i), n)
        r = ctx().branch(z3.Exists([k], z3.And(D.in_range(k, n), C.zbool(f(k)))))
        if not r:
            ctx().facts.append((ctx().scopes[-1], lambda t: z3.Implies(D.in_range(t, n), z3.Not(C.zbool(f(t))))))
        return r
    for x in o:
        if x:
            return True
    return False


def _reversed(o):
    if _issym(o):
        n, g = _seq(o)
        return VIter(n, lambda i: g(n - 1 - i))
    if isinstance(o, VRange):
        return builtins.reversed(builtins.list(o))
    return builtins.reversed(o)


def _tuple(*a):
    if not a:
        return ()
    if _issym(a[0]):
        return D.as_vlist(a[0]).copy()      # immutable in the original: only read below
    return builtins.tuple(a[0])


def _abs(x):
    return builtins.abs(x)


def _round(x, *a):
    if isinstance(x, (SReal, SInt)):
        if isinstance(x, SInt):
            return x
        r = z3.Const(ctx().name('round'), z3.IntSort())
        ctx().assume(z3.And(2 * (z3.ToReal(r) - x.e) <= 1, 2 * (z3.ToReal(r) - x.e) >= -1))
        ctx().approx.append('round(): halves may go either way')
        return SInt(r)
    return builtins.round(x, *a)


def _type(*a):
    if builtins.len(a) == 1:
        o = a[0]
        if isinstance(o, VList):
            return vlist
        if isinstance(o, VDict):
            return vdict
        if isinstance(o, SMat):
            return _MATCLS[0]
    return builtins.type(*a)


def _hasattr(o, n):
    if isinstance(o, (SExpr, VList, SMat)) and n == '__call__':
        return False
    return builtins.hasattr(o, n)


def _getattr(o, n, *d):
    if isinstance(n, SStr):
        h = ctx().__dict__.get('symgetattr') if C.Ctx.cur is not None else None
        if h is None:
            raise Unsupported('attribute of symbolic name')
        return h(o, n)
    return builtins.getattr(o, n, *d)


_MATCLS = [None]


class RT:
    """runtime support functions referenced by the rewritten source"""
    Loop = loops.Loop
    While = loops.While

    @staticmethod
    def star(f, a):
        """f(*a)"""
        if getattr(f, 'symcall', None) is not None and (hasattr(a, 'vlen') or isinstance(a, (VList, VIter))):
            return f.symcall(a)
        return f(*a)

    @staticmethod
    def lst(items):
        return VList(items)

    @staticmethod
    def gen(l):
        return VIter(l.zlen(), l.getter())

    @staticmethod
    def dct(items):
        return VDict(items)

    @staticmethod
    def comp(kind, it, elt, cond):
        if not _issym(it):
            out = []
            for x in it:
                if cond is None or cond(x):
                    out.append(elt(x))
            if kind == 'list':
                return VList(out)
            return iter(out)
        n, g = _seq(it)
        if cond is not None:
            # only a condition settled for every element
            f = generic_eval(lambda k: bool(cond(g(k))), n)
            k = z3.Const(ctx().name('k'), z3.IntSort())
            val = f(k)
            if val is True:
                pass
            elif val is False:
                return VList() if kind == 'list' else iter(())
            else:
                if not isinstance(val, SBool):
                    raise Unsupported('filtered comprehension over a symbolic sequence')
                R, POS = D.ranked(n, val.e, k)
                get = generic_eval(lambda j: elt(g(j)), n)
                return VList.sym(R(n), lambda q: get(POS(q))) if kind == 'list' else VIter(R(n), lambda q: get(POS(q)))
        get = generic_eval(lambda k: elt(g(k)), n)
        return VList.sym(n, get) if kind == 'list' else VIter(n, get)

    @staticmethod
    def unpack(x, n):
        if isinstance(x, VList):
            x = builtins.list(x)
        x = builtins.tuple(x)
        if builtins.len(x) != n:
            raise ValueError('unpack')
        return x


# --------------------------------------------------------------------------- #
# AST rewriting

def _names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
        return [e.id for e in t.elts]
    return None


class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp


class _Exits(ast.NodeTransformer):
    """mark break (of this loop) and return statements inside the loop body"""

    def __init__(self, var):
        self.var, self.depth = var, 0

    def _mark(self):
        return ast.parse('%s.leave()' % self.var).body[0]

    def visit_Break(self, n):
        return [self._mark(), n] if self.depth == 0 else n

    def visit_Return(self, n):
        if n.value is None:
            return [self._mark(), n]
        tmp = ast.parse('%s_r = 0' % self.var).body[0]
        tmp.value = n.value
        n.value = ast.Name(id='%s_r' % self.var, ctx=ast.Load())
        return [tmp, self._mark(), n]

    def _loop(self, n):
        self.depth += 1
        n.body = [y for x in n.body for y in _aslist(self.visit(x))]
        self.depth -= 1
        n.orelse = [y for x in n.orelse for y in _aslist(self.visit(x))]
        return n
    visit_For = visit_While = _loop

    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_FunctionDef


class _Yields(ast.NodeTransformer):
    def __init__(self):
        self.count, self.ok = 0, True

    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_FunctionDef

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            self.count += 1
            call = ast.Expr(ast.Call(ast.Attribute(ast.Name('yielded__', ast.Load()), 'append', ast.Load()),
                                     [n.value.value or ast.Constant(None)], []))
            return ast.fix_missing_locations(ast.copy_location(call, n))
        return self.generic_visit(n)

    def visit_Yield(self, n):
        self.ok = False
        return n
    visit_YieldFrom = visit_Return = visit_Yield


def _generator(n):
    """a generator function without return is run eagerly: its values are collected, then iterated"""
    t = _Yields()
    body = [t.visit(_copy.deepcopy(s)) for s in n.body]
    if not t.count or not t.ok:
        return n
    first = ast.Assign([ast.Name('yielded__', ast.Store())], ast.List([], ast.Load()))
    last = ast.Return(_call(_attr('_rt__', 'gen'), [ast.Name('yielded__', ast.Load())]))
    n.body = [first] + body + [last]
    for x in (first, last):
        ast.copy_location(x, n.body[1])
        ast.fix_missing_locations(x)
    return n


def _aslist(x):
    return x if isinstance(x, list) else ([] if x is None else [x])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.cnt = 0
        self.infunc = 0
        self.fn = []
        self.order = [[0]]

    # functions
    def visit_FunctionDef(self, n):
        self.infunc += 1
        self.fn.append(n.name)
        self.order.append([0])
        n = _generator(n)
        n = self.generic_visit(n)
        self.order.pop()
        self.fn.pop()
        self.infunc -= 1
        return n

    def visit_ClassDef(self, n):
        sv, self.infunc = self.infunc, 0
        n = self.generic_visit(n)
        self.infunc = sv
        return n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords:
            return ast.copy_location(ast.Call(_attr('_rt__', 'star'), [n.func, n.args[0].value], []), n)
        return n

    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(_attr('_rt__', 'lst'), [n], []), n)
        return n

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        pairs = ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())
        return ast.copy_location(ast.Call(_attr('_rt__', 'dct'), [pairs], []), n)

    def _comp(self, n, kind):
        n = self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async:
            if kind == 'list':
                return ast.copy_location(ast.Call(_attr('_rt__', 'lst'), [n], []), n)
            return n
        g = n.generators[0]
        names = _names(g.target)
        if names is None or len(set(names)) < len(names):
            if kind == 'list':
                return ast.copy_location(ast.Call(_attr('_rt__', 'lst'), [n], []), n)
            return n
        tup = not isinstance(g.target, ast.Name)

        def lam(body):
            inner = ast.Lambda(_args(names), body)
            if not tup:
                return inner
            return ast.Lambda(_args(['x__']), ast.Call(inner, [ast.Starred(ast.Call(
                _attr('_rt__', 'unpack'), [ast.Name('x__', ast.Load()), ast.Constant(len(names))], []), ast.Load())], []))
        cond = ast.Constant(None)
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), list(g.ifs))
            cond = lam(c)
        return ast.copy_location(ast.Call(_attr('_rt__', 'comp'), [ast.Constant(kind), g.iter, lam(n.elt), cond], []), n)

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')

    def visit_For(self, n):
        self.order[-1][0] += 1
        rank = self.order[-1][0]
        n = self.generic_visit(n)
        if not self.infunc:
            return n
        self.cnt += 1
        var = '_L%d__' % self.cnt
        a = _Assigned()
        a.visit(n.target)
        for s in n.body:
            a.visit(s)
        names = [x for x in a.names if not (x.startswith('_L') and '__' in x)]
        ex = _Exits(var)
        body = [y for x in n.body for y in _aslist(ex.visit(x))]
        loc = '%s:%s:%d' % (self.mod, '.'.join(self.fn), rank)
        readers = ast.Tuple([ast.Tuple([ast.Constant(x), ast.Lambda(_args([]), ast.Name(x, ast.Load()))], ast.Load())
                             for x in names], ast.Load())
        mk = ast.Assign([ast.Name(var, ast.Store())], ast.Call(_attr('_rt__', 'Loop'), [n.iter, readers, ast.Constant(loc)], []))

        def restore():
            return ast.If(ast.Attribute(ast.Name(var, ast.Load()), 'sym', ast.Load()),
                          [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                                      ast.Attribute(ast.Name(var, ast.Load()), 'vals', ast.Load()))], [])
        elem = '%s_e' % var
        new = ast.For(ast.Name(elem, ast.Store()), ast.Name(var, ast.Load()),
                      [ast.Try([restore(), ast.Assign([n.target], ast.Name(elem, ast.Load()))] + body,
                               [ast.ExceptHandler(ast.Name('BaseException', ast.Load()), var + '_x',
                                                  [ast.If(_call(_attr(var, 'exc'), [ast.Name(var + '_x', ast.Load())]),
                                                          [ast.Continue()], []), ast.Raise()])], [], [])],
                      [restore()] + list(n.orelse))
        out = [mk, new]
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def visit_While(self, n):
        self.order[-1][0] += 1
        rank = self.order[-1][0]
        n = self.generic_visit(n)
        if not self.infunc or n.orelse:
            return n
        self.cnt += 1
        var = '_L%d__' % self.cnt
        a = _Assigned()
        for s in n.body:
            a.visit(s)
        names = [x for x in a.names if not (x.startswith('_L') and '__' in x)]
        loc = '%s:%s:%d' % (self.mod, '.'.join(self.fn), rank)
        readers = ast.Tuple([ast.Tuple([ast.Constant(x), ast.Lambda(_args([]), ast.Name(x, ast.Load()))], ast.Load())
                             for x in names], ast.Load())
        mk = ast.Assign([ast.Name(var, ast.Store())], ast.Call(_attr('_rt__', 'While'), [readers, ast.Constant(loc)], []))
        pre = [ast.Expr(_call(_attr(var, 'top'), []))]
        if names:
            pre.append(ast.If(_attr(var, 'sym'), [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                                                             _attr(var, 'vals'))], []))
        stop = ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])
        new = ast.While(ast.Constant(True), pre + [stop] + n.body, [])
        out = [mk, new]
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def visit_Import(self, n):
        return n


def _call(f, a):
    return ast.Call(f, a, [])


def _attr(a, b):
    return ast.Attribute(ast.Name(a, ast.Load()), b, ast.Load())


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])


# --------------------------------------------------------------------------- #
# loader

class Loader:
    def __init__(self, repo, stubs=None, verbose=False):
        self.repo = repo
        self.mods = {}
        self.verbose = verbose
        self.failed = {}
        self.stubs = default_stubs()
        if stubs:
            self.stubs.update(stubs)
        self.builtins = dict(vars(builtins))
        self.builtins.update(__import__=self.imp, len=_len, list=vlist, dict=vdict, int=vint, float=vfloat, str=vstr,
                             isinstance=_isinstance, range=_range, enumerate=_enumerate, zip=_zip, map=_map, sum=_sum,
                             sorted=_sorted, min=_minmax(lambda a, b: a < b), max=_minmax(lambda a, b: a > b), all=_all,
                             any=_any, reversed=_reversed, tuple=_tuple, round=_round, type=_type, hasattr=_hasattr, getattr=_getattr,
                             print=lambda *a, **k: None, open=_noopen, eval=_noeval, exec=_noeval)
        top = pytypes.ModuleType('pyphs')
        top.__path__ = [os.path.join(repo, 'pyphs')]
        top.__getattr__ = lambda name: self._top(name)
        self.mods['pyphs'] = top

    def _top(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return placeholder('pyphs.' + name)

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name, strict=True):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self.path(name)
        if path is None:
            raise ImportError(name)
        if '.' in name:
            parent = name.rsplit('.', 1)[0]
            if parent not in self.mods:
                self.load(parent, strict=False)
            if name in self.mods:
                return self.mods[name]
        m = pytypes.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rsplit('.', 1)[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        with open(path, encoding='utf-8') as h:
            src = h.read()
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src)
            tree = Rewriter(name).visit(tree)
            ast.fix_missing_locations(tree)
            code = compile(tree, path, 'exec', flags=0, dont_inherit=True)
            m.__dict__['__builtins__'] = self.builtins
            m.__dict__['_rt__'] = RT
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                exec(code, m.__dict__)
        except Exception as e:       # noqa
            self.failed[name] = repr(e)[:200]
            if self.verbose:
                import traceback
                traceback.print_exc()
            if strict and not pkg:
                raise Unsupported('cannot load %s: %r' % (name, e))
            m.__getattr__ = lambda a: self._top(a)
        if '.' in name:
            p, c = name.rsplit('.', 1)
            if c not in self.mods[p].__dict__:
                setattr(self.mods[p], c, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            name = pkg + ('.' + name if name else '')
        if name == 'pyphs' or name.startswith('pyphs.'):
            m = self.load(name, strict=False) if name != 'pyphs' else self.mods['pyphs']
            if fromlist:
                for f in fromlist:
                    if f != '*' and f not in m.__dict__ and self.path(name + '.' + f)[0]:
                        try:
                            self.load(name + '.' + f, strict=False)
                        except Exception:       # noqa
                            pass
                return m
            return self.mods['pyphs']
        root = name.split('.')[0]
        if name in self.stubs:
            m = self.stubs[name]
            if fromlist or '.' not in name:
                return m
            return self.stubs.get(root, m)
        if root in PASS:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        m = self.stubs.setdefault(name, StubModule(name))
        if fromlist or '.' not in name:
            return m
        return self.stubs.setdefault(root, StubModule(root))


PASS = {'__future__', 'os', 're', 'collections', 'time', 'itertools', 'string', 'datetime', 'functools', 'warnings',
        'operator', 'math', 'ast', 'types', 'sys'}


def _noopen(*a, **k):
    raise Unsupported('open()')


def _noeval(*a, **k):
    raise Unsupported('eval()')


def default_stubs():
    from . import stubs
    return stubs.make()
