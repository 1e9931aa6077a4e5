"""pyvc.domain - symbolic containers (lists, matrices, dictionaries) and value algebra."""
import z3
from .core import (SBool, SInt, SReal, SExpr, SSym, SRel, SStr, SOpaque, SymSort, Val, Unsupported,
                   PathEnd, Ctx, ctx, zint, zbool, zreal, zden, is_int)

# --------------------------------------------------------------------------- #
# generic value operations


def ite(c, a, b):
    """value-level if-then-else on proxies; c is a z3 Bool"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.If(c, zbool(a), zbool(b)))
    if is_int(a) and is_int(b):
        return SInt(z3.If(c, zint(a), zint(b)))
    if isinstance(a, SSym) and isinstance(b, SSym):
        return SSym(z3.If(c, a.s, b.s))
    if isinstance(a, SOpaque) and isinstance(b, SOpaque):
        return SOpaque(z3.If(c, a.e, b.e))
    if isinstance(a, (SExpr, int, float, SInt, SReal)) and isinstance(b, (SExpr, int, float, SInt, SReal)):
        if isinstance(a, SExpr) or isinstance(b, SExpr):
            da, db = zden(a), zden(b)
            r = SExpr(lambda v: z3.If(c, da(v), db(v)))
            fa, fb = getattr(a, 'fun', None), getattr(b, 'fun', None)
            if fa is None and fb is not None and isinstance(a, (int, float)):
                fa = const_fun(a)
            if fb is None and fa is not None and isinstance(b, (int, float)):
                fb = const_fun(b)
            if fa is not None and fb is not None:
                r.fun = z3.If(c, fa, fb)
            return r
        return SReal(z3.If(c, zreal(a), zreal(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, VList) and isinstance(b, VList):
        na, nb = a.zlen(), b.zlen()
        A, B = a.getter(), b.getter()
        if a.c == [] or b.c == []:      # in range only when the other alternative holds
            return VList.sym(z3.If(c, na, nb), B if a.c == [] else A)
        return VList.sym(z3.If(c, na, nb), lambda i: ite(c, A(i), B(i)))
    if isinstance(a, str) and a == b:
        return a
    # irreconcilable shapes: case split
    return a if ctx().branch(c) else b


def subst(val, k, t):
    """val with z3 constant k replaced by term t"""
    def z(e):
        return z3.substitute(e, (k, t))
    if isinstance(val, SInt):
        return SInt(z(val.e))
    if isinstance(val, SReal):
        return SReal(z(val.e))
    if isinstance(val, SBool):
        return SBool(z(val.e))
    if isinstance(val, SSym):
        return SSym(z(val.s))
    if isinstance(val, SOpaque):
        return SOpaque(z(val.e))
    if isinstance(val, SExpr):
        d = val.den
        r = SExpr(lambda v: z(d(v)))
        if getattr(val, 'fun', None) is not None:
            r.fun = z(val.fun)
        return r
    if isinstance(val, SStr):
        return SStr(val.pre, subst(val.sym, k, t), val.suf)
    if isinstance(val, tuple):
        return tuple(subst(x, k, t) for x in val)
    if isinstance(val, VList):
        if val.c is not None:
            return VList([subst(x, k, t) for x in val.c])
        g = val.at
        return VList.sym(z(val.n), lambda i: subst(g(i), k, t))
    if isinstance(val, SMat):
        g = val.at
        return SMat(z(val.m), z(val.n), lambda i, j: subst(g(i, j), k, t))
    if isinstance(val, (int, float, str, type(None), bool)):
        return val
    if isinstance(val, SRel):
        d = val.den
        return SRel(lambda v: z(d(v)))
    if isinstance(val, VDict) and not val.fam:
        return VDict([(x, subst(y, k, t)) for x, y in val.items()])
    raise Unsupported('substitution in %r' % type(val))


def mentions(val, k):
    """does val depend on the z3 constant k?"""
    def has(e):
        todo, seen = [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(k):
                return True
            if z3.is_quantifier(x):
                todo.append(x.body())
            else:
                todo.extend(x.children())
        return False
    if isinstance(val, SInt) or isinstance(val, SReal) or isinstance(val, SBool) or isinstance(val, SOpaque):
        return has(val.e)
    if isinstance(val, SSym):
        return has(val.s)
    if isinstance(val, SExpr):
        return has(val.den(z3.Const('v?', Val)))
    if isinstance(val, tuple):
        return any(mentions(x, k) for x in val)
    return False


def veq(a, b, v=None):
    """z3 formula: a and b denote the same value (expressions: at valuation v)"""
    if v is None:
        v = valuation()
    if is_int(a) and is_int(b):
        return zint(a) == zint(b)
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return zbool(a) == zbool(b)
    if isinstance(a, SSym) and isinstance(b, SSym):
        return a.s == b.s
    if isinstance(a, SOpaque) and isinstance(b, SOpaque):
        return a.e == b.e
    if isinstance(a, (SExpr, int, float, SInt, SReal)) and isinstance(b, (SExpr, int, float, SInt, SReal)):
        return zden(a)(v) == zden(b)(v)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([veq(x, y, v) for x, y in zip(a, b)] + [z3.BoolVal(True)])
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return z3.BoolVal(a is b or (isinstance(a, str) and a == b))
    raise Unsupported('comparison of %r and %r' % (type(a), type(b)))


def valuation(name='v0'):
    return z3.Const(name, Val)


def in_range(i, n):
    return z3.And(0 <= i, i < n)


# --------------------------------------------------------------------------- #
# generic evaluation at a symbolic index (maps, comprehensions)

def generic_eval(fn, n, base='k'):
    """Evaluate fn(k) for a generic 0<=k<n; returns closure i -> value.

    All sub-paths of fn are explored; their values are merged by if-then-else on
    the sub-path conditions.
    """
    c = ctx()
    k = z3.Const(c.name(base), z3.IntSort())
    c.generics.add(k.decl().name())
    results = []
    work = [()]
    base_dec, base_alts, base_prefix = c.decisions, c.alts, c.prefix
    base_assumed = len(c.assumed)
    try:
        while work:
            prefix = work.pop()
            if len(results) > 64:
                raise Unsupported('too many sub-paths in a comprehension')
            c.decisions, c.alts, c.prefix = [], [], prefix
            c.push()
            saved = list(c.assumed)
            c.cache.clear()
            try:
                c.assume(in_range(k, n))
                mark = len(c.assumed)
                try:
                    val = fn(k)
                    conds = c.assumed[mark:]
                    results.append((z3.And(*conds) if conds else z3.BoolVal(True), val))
                except PathEnd:
                    pass
                work.extend(c.alts)
            finally:
                c.assumed = saved
                c.pop()
                c.cache.clear()
    finally:
        c.decisions, c.alts, c.prefix = base_dec, base_alts, base_prefix
    if not results:
        # empty range on this path
        return lambda i: _bottom()
    val = results[-1][1]
    for cond, w in reversed(results[:-1]):
        val = ite(cond, w, val)
    bad = fresh_consts(val, k)
    if bad:
        raise Unsupported('value chosen inside a comprehension: %s' % bad[:2])
    return lambda i: subst(val, k, i)


def ranked(n, cond, k):
    """ghost functions of a selection among 0..n-1: R(j) = number of selected positions before j, POS(q) = q-th selected
    position (facts by induction on j; cond: condition of the selection at k)"""
    c = ctx()
    cond = z3.simplify(cond)
    others = [x for x in consts_of(cond) if x in c.generics and x != k.decl().name()]
    if others:
        raise Unsupported('selection depending on an outer index')
    tab = c.__dict__.setdefault('_ranks', [])
    for n2, b2, k2, R, POS in tab:
        b = z3.substitute(b2, (k2, k))
        if b.eq(cond) and (n2.eq(n) or c.entails(n2 == n)):
            return R, POS
    for n2, b2, k2, R, POS in tab:
        b = z3.substitute(b2, (k2, k))
        if c.entails(n2 == n) and c.entails(z3.Implies(in_range(k, n), b == cond)):
            return R, POS
    R, POS = z3.Function(c.name('rank'), z3.IntSort(), z3.IntSort()), z3.Function(c.name('pos'), z3.IntSort(), z3.IntSort())
    tab.append((n, cond, k, R, POS))
    i, j = z3.Ints('ri# rj#')
    sel = lambda t: z3.And(in_range(t, n), z3.substitute(cond, (k, t)))
    c.assume(R(z3.IntVal(0)) == 0)
    c.assume(z3.ForAll([i], z3.Implies(0 <= i, z3.And(0 <= R(i), R(i) <= i)), patterns=[R(i)]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j), R(i) + z3.If(sel(i), 1, 0) <= R(j)),
                       patterns=[z3.MultiPattern(R(i), R(j))]))
    c.assume(z3.ForAll([i], z3.Implies(sel(i), POS(R(i)) == i), patterns=[R(i)]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, 0 <= j, i < R(j)), z3.And(0 <= POS(i), POS(i) < j, sel(POS(i)), R(POS(i)) == i)),
                       patterns=[z3.MultiPattern(POS(i), R(j))]))
    return R, POS


def rank_step(R, n, cond, k):
    """recurrence of R at k"""
    ctx().assume(z3.Implies(0 <= k, R(k + 1) == R(k) + z3.If(z3.And(in_range(k, n), cond), 1, 0)))


def _index_of(name):
    try:
        return int(name.rsplit('!', 1)[1])
    except (IndexError, ValueError):
        return -1


def consts_of(e, out=None):
    """0-ary uninterpreted constants of a z3 term"""
    out = {} if out is None else out
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
            todo.extend(x.children())
    return out


def terms_of(val):
    """z3 terms a value consists of (closures probed at generic points)"""
    if isinstance(val, (SInt, SReal, SBool, SOpaque)):
        return [val.e]
    if isinstance(val, SSym):
        return [val.s]
    if isinstance(val, (SExpr, SRel)):
        f = getattr(val, 'fun', None)
        return [val.den(z3.Const('v#', Val))] + ([f] if f is not None else [])
    if isinstance(val, SStr):
        return terms_of(val.sym)
    if isinstance(val, (tuple, list)):
        return [t for x in val for t in terms_of(x)]
    if isinstance(val, VList):
        if val.c is not None:
            return [t for x in val.c for t in terms_of(x)]
        return [val.n] + terms_of(val.at(z3.Int('probe#')))
    if isinstance(val, SMat):
        return [val.m, val.n] + terms_of(val.at(z3.Int('probe#'), z3.Int('probe2#')))
    return []


def fresh_consts(val, k):
    lim = _index_of(k.decl().name())
    gen = ctx().generics
    out = {}
    for t in terms_of(val):
        consts_of(t, out)
    return [n for n in out if n not in gen and _index_of(n) > lim]


def fresh_in(term, k):
    lim = _index_of(k.decl().name())
    gen = ctx().generics
    return [n for n in consts_of(term) if n not in gen and _index_of(n) > lim]


def _bottom():
    raise Unsupported('element of an empty range')


# --------------------------------------------------------------------------- #
# lists

def norm_index(i, n):
    """python index normalisation; raises IndexError on the out-of-range paths"""
    e = zint(i)
    c = ctx()
    if c.branch(e < 0):
        e = e + n
    if not c.branch(z3.And(e >= 0, e < n)):
        raise IndexError('list index out of range')
    return z3.simplify(e)


def norm_bound(b, n, default):
    """slice bound clipped to [0, n]"""
    if b is None:
        return default
    e = zint(b)
    c = ctx()
    if not z3.is_int_value(e) or e.as_long() < 0:
        if c.branch(e < 0):
            e = e + n
            if c.branch(e < 0):
                return z3.IntVal(0)
    if c.branch(e > n):
        return n
    return z3.simplify(e)


def norm_slice(s, n):
    """(start, length) of a unit-step slice on a sequence of length n"""
    if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
        raise Unsupported('slice step')
    a = norm_bound(s.start, n, z3.IntVal(0))
    b = norm_bound(s.stop, n, n)
    if ctx().branch(b >= a):
        return a, z3.simplify(b - a)
    return a, z3.IntVal(0)


class VList:
    """A python list: concrete (self.c) or symbolic (length self.n, element closure self.at)."""
    _is_list = True

    def __init__(self, c=None):
        self.c = list(c) if c is not None else []
        self.n = None
        self.at = None
        if Ctx.cur is not None:
            Ctx.cur.heap.append(self)

    @classmethod
    def sym(cls, n, at):
        r = cls()
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() <= 16:
            r.c = [at(z3.IntVal(i)) for i in range(n.as_long())]
            return r
        r.c, r.n, r.at = None, n, at
        return r

    # ---- representation
    def state(self):
        return (self.c if self.c is None else tuple(self.c), self.n, self.at)

    def set_state(self, st):
        c, self.n, self.at = st
        self.c = None if c is None else list(c)

    def become(self, o):
        self.c, self.n, self.at = (None if o.c is None else list(o.c)), o.n, o.at

    def zlen(self):
        return self.n if self.c is None else z3.IntVal(len(self.c))

    def vlen(self):
        return len(self.c) if self.c is not None else SInt(self.n)

    def getter(self):
        """closure z3 Int -> element (in range)"""
        if self.c is None:
            return self.at
        items = list(self.c)

        def get(i):
            i = z3.simplify(i)
            if z3.is_int_value(i) and 0 <= i.as_long() < len(items):
                return items[i.as_long()]
            if not items:
                _bottom()
            r = items[-1]
            for q in range(len(items) - 2, -1, -1):
                r = ite(i == q, items[q], r)
            return r
        return get

    def symbolic(self):
        return self.c is None

    def settle(self):
        """concretise when the path condition fixes a small length"""
        if self.c is None:
            c = ctx()
            r, m = c.candidate()
            if r == z3.sat:
                w = m.eval(self.n, model_completion=True)
                if z3.is_int_value(w) and w.as_long() <= 16 and c.entails(self.n == w):
                    self.c = [self.at(z3.IntVal(i)) for i in range(w.as_long())]
                    self.n = self.at = None
        return self.c is not None

    # ---- python protocol
    def __repr__(self):
        return '<VList %s>' % (self.c if self.c is not None else 'len=%s' % self.n)

    def __format__(self, spec):
        return repr(self)

    def __len__(self):
        if self.c is not None:
            return len(self.c)
        return SInt(self.n).__index__()

    def __bool__(self):
        if self.c is not None:
            return bool(self.c)
        return ctx().branch(self.n > 0)

    def __iter__(self):
        if self.c is None and not self.settle():
            raise Unsupported('iteration over a list of symbolic length')
        return iter(list(self.c)) if False else iter(self.c)

    def __reversed__(self):
        return iter(list(reversed(list(self))))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.c is not None and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return VList(self.c[i])
            n = self.zlen()
            a, ln = norm_slice(i, n)
            g = self.getter()
            return VList.sym(ln, lambda q: g(q + a))
        if self.c is not None and isinstance(i, int):
            return self.c[i]
        if not is_int(i):
            raise TypeError('list indices must be integers or slices')
        e = norm_index(i, self.zlen())
        return self.getter()(e)

    def __setitem__(self, i, val):
        if isinstance(i, slice):
            raise Unsupported('slice assignment on a list')
        if self.c is not None and isinstance(i, int):
            self.c[i] = val
            return
        e = norm_index(i, self.zlen())
        g = self.getter()
        if self.c is not None:
            self.c = [ite(e == q, val, x) for q, x in enumerate(self.c)]
            return
        self.at = lambda q: ite(q == e, val, g(q))

    def __delitem__(self, i):
        self.pop(i)

    def __add__(self, o):
        o = as_vlist(o, strict=False)
        if o is None:
            return NotImplemented
        return concat(self, o)

    def __radd__(self, o):
        o = as_vlist(o, strict=False)
        if o is None:
            return NotImplemented
        return concat(o, self)

    def __iadd__(self, o):
        o2 = as_vlist(o, strict=False)
        if o2 is None:
            o2 = as_vlist(list(o))
        self.become(concat(self, o2))
        return self

    def __mul__(self, k):
        if isinstance(k, int) and self.c is not None:
            return VList(self.c * k)
        if isinstance(k, SInt):
            if self.c is not None and len(self.c) == 1:
                x = self.c[0]
                n = k.e if ctx().branch(k.e > 0) else z3.IntVal(0)
                return VList.sym(n, lambda i: x)
        raise Unsupported('list repetition')
    __rmul__ = __mul__

    def __eq__(self, o):
        o = as_vlist(o, strict=False)
        if o is None:
            return False
        if self.c is not None and o.c is not None:
            if len(self.c) != len(o.c):
                return False
            for a, b in zip(self.c, o.c):
                if not (a is b or a == b):
                    return False
            return True
        raise Unsupported('equality of symbolic lists')

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __contains__(self, x):
        if self.c is not None:
            for a in self.c:
                if a is x:
                    return True
                if a == x:
                    return True
            return False
        return ctx().branch(self.member(x))

    def member(self, x):
        c = ctx()
        j = z3.Const(c.name('j'), z3.IntSort())
        g = self.getter()
        if self.c is not None:
            return z3.Or([veq(a, x) for a in self.c] + [z3.BoolVal(False)])
        return z3.Exists([j], z3.And(in_range(j, self.n), veq(g(j), x)))

    # ---- list methods
    def append(self, x):
        self.become(concat(self, VList([x])))

    def extend(self, o):
        self.__iadd__(o)

    def copy(self):
        r = VList()
        r.become(self)
        return r
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        if self.c is not None:
            return VList([copy.deepcopy(x, memo) for x in self.c])
        return self.copy()

    def clear(self):
        self.become(VList())

    def insert(self, i, x):
        if self.c is not None and isinstance(i, int):
            self.c.insert(i, x)
            return
        n = self.zlen()
        e = norm_bound(i, n, None)
        g = self.getter()
        self.become(VList.sym(n + 1, lambda q: ite(q < e, g(q), ite(q == e, x, g(q - 1)))))

    def pop(self, i=-1):
        if self.c is not None and isinstance(i, int):
            return self.c.pop(i)
        n = self.zlen()
        if not ctx().branch(n > 0):
            raise IndexError('pop from empty list')
        e = norm_index(i, n)
        g = self.getter()
        x = g(e)
        self.become(VList.sym(n - 1, lambda q: ite(q < e, g(q), g(q + 1))))
        return x

    def index(self, x):
        if self.c is not None:
            for q, a in enumerate(self.c):
                if a is x or a == x:
                    return q
            raise ValueError('not in list')
        c = ctx()
        if not c.branch(self.member(x)):
            raise ValueError('not in list')
        i = z3.Const(c.name('idx'), z3.IntSort())
        g = self.getter()
        c.assume(in_range(i, self.n))
        c.assume(veq(g(i), x))
        j = z3.Const(c.name('j'), z3.IntSort())
        c.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(veq(g(j), x)))))
        return SInt(i)

    def remove(self, x):
        if self.c is not None:
            self.c.pop(self.index(x))
            return
        self.pop(self.index(x))

    def reverse(self):
        if self.c is not None:
            self.c.reverse()
            return
        n, g = self.n, self.at
        self.at = lambda q: g(n - 1 - q)

    def sort(self, key=None, reverse=False):
        if self.c is None:
            raise Unsupported('sort of a symbolic list')
        self.c = _sorted(self.c, key, reverse)

    def count(self, x):
        if self.c is None:
            raise Unsupported('count')
        return sum(1 for a in self.c if a is x or a == x)


def _sorted(items, key=None, reverse=False):
    """insertion sort (branches on symbolic comparisons)"""
    out = []
    for x in items:
        kx = key(x) if key else x
        pos = len(out)
        while pos > 0:
            ky = key(out[pos - 1]) if key else out[pos - 1]
            if (ky < kx) if reverse else (kx < ky):
                pos -= 1
            else:
                break
        out.insert(pos, x)
    return out


def as_vlist(o, strict=True):
    if isinstance(o, VList):
        return o
    if isinstance(o, list):
        return VList(o)
    if strict:
        if isinstance(o, (tuple, range)):
            return VList(list(o))
        if isinstance(o, VRange):
            return o.to_list()
        if isinstance(o, VIter):
            return o.to_list()
        if isinstance(o, SMat):
            return o.to_list()
        return VList(list(o))
    return None


def concat(a, b):
    if a.c is not None and b.c is not None:
        return VList(a.c + b.c)
    na, nb = a.zlen(), b.zlen()
    if a.c is not None and not a.c:
        return b.copy()
    if b.c is not None and not b.c:
        return a.copy()
    A, B = a.getter(), b.getter()
    return VList.sym(na + nb, lambda i: ite(i < na, A(i), B(i - na)))


class VRange:
    """range(start, stop, step) with a symbolic bound"""

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        s, e, p = zint(start), zint(stop), zint(step)
        c = ctx()
        if not c.entails(p > 0):
            raise Unsupported('range step not known to be positive')
        if not c.branch(e > s):
            self.n = z3.IntVal(0)
        elif z3.is_int_value(z3.simplify(p)) and z3.simplify(p).as_long() == 1:
            self.n = z3.simplify(e - s)
        else:
            self.n = (e - s + p - 1) / p
        self.s, self.p = s, p

    def zlen(self):
        return self.n

    def getter(self):
        return lambda i: SInt(z3.simplify(self.s + i * self.p))

    def to_list(self):
        return VList.sym(self.n, self.getter())

    def __getitem__(self, i):
        if isinstance(i, slice):
            step = 1 if i.step is None else i.step
            a, ln = norm_slice(slice(i.start, i.stop), self.n)
            r = VRange.__new__(VRange)
            st = zint(step)
            if not ctx().entails(st > 0):
                raise Unsupported('slice step not known to be positive')
            r.s = z3.simplify(self.s + a * self.p)
            r.p = z3.simplify(self.p * st)
            one = z3.is_int_value(z3.simplify(st)) and z3.simplify(st).as_long() == 1
            r.n = ln if one else z3.simplify((ln + st - 1) / st)
            r.start, r.stop, r.step = SInt(r.s), SInt(r.s + r.n * r.p), SInt(r.p)
            return r
        e = norm_index(i, self.n)
        return self.getter()(e)

    def vlen(self):
        n = z3.simplify(self.n)
        return n.as_long() if z3.is_int_value(n) else SInt(n)

    def __iter__(self):
        n = z3.simplify(self.n)
        if z3.is_int_value(n):
            g = self.getter()
            return iter([_concrete(g(z3.IntVal(q))) for q in range(n.as_long())])
        k = SInt(n).__index__()     # Unsupported unless settled
        g = self.getter()
        return iter([g(z3.IntVal(q)) for q in range(k)])


def _concrete(v):
    if isinstance(v, SInt):
        e = z3.simplify(v.e)
        if z3.is_int_value(e):
            return e.as_long()
    return v


class VIter:
    """a lazy indexable iterable (zip, enumerate, map) of symbolic length"""

    def __init__(self, n, get):
        self.n, self.get = n, get

    def zlen(self):
        return self.n

    def getter(self):
        return self.get

    def to_list(self):
        return VList.sym(self.n, self.get)

    def __next__(self):
        raise Unsupported('next() on a symbolic iterator')

    def __iter__(self):
        k = SInt(self.n).__index__()
        return iter([self.get(z3.IntVal(q)) for q in range(k)])


def is_sym_iter(o):
    if isinstance(o, VList):
        return o.c is None and not o.settle()
    if isinstance(o, (VRange, VIter)):
        n = z3.simplify(o.zlen())
        if z3.is_int_value(n):
            return False
        try:
            SInt(n).__index__()
            return False
        except Unsupported:
            return True
    return False


# --------------------------------------------------------------------------- #
# matrices (entrywise)

def scope_now():
    return (id(Ctx.cur), Ctx.cur.scopes[-1]) if Ctx.cur is not None else None


def in_scope(tok):
    """was the memoised value computed under assumptions that still hold?"""
    c = Ctx.cur
    return c is not None and tok is not None and tok[0] == id(c) and tok[1] in c.scopes


class Memo2:
    """memoised entry closure (i, j) -> expression, with memoised denotation"""

    def __init__(self, f):
        self.f, self.tab = f, {}

    def __call__(self, i, j):
        i = z3.simplify(i) if z3.is_expr(i) else z3.IntVal(i)
        j = z3.simplify(j) if z3.is_expr(j) else z3.IntVal(j)
        k = (i.get_id(), j.get_id())
        if k not in self.tab or not in_scope(self.tab[k][-1]):
            e = self.f(i, j)
            if type(e) is SExpr:
                e.den = memo_den(e.den)
            self.tab[k] = (e, i, j, scope_now())
        return self.tab[k][0]


class memo_den:
    def __init__(self, d):
        self.d, self.tab = d, {}

    def __call__(self, v):
        k = v.get_id()
        if k not in self.tab or not in_scope(self.tab[k][-1]):
            self.tab[k] = (self.d(v), v, scope_now())
        return self.tab[k][0]


class SMat:
    """matrix with symbolic shape; at(i, j) -> expression"""
    _is_matrix = True

    def __init__(self, m, n, at, zero_axiom=None):
        self.m = z3.simplify(m) if not isinstance(m, int) else z3.IntVal(m)
        self.n = z3.simplify(n) if not isinstance(n, int) else z3.IntVal(n)
        self.at = at if isinstance(at, Memo2) else Memo2(at)
        self.zero_axiom = zero_axiom
        self._term = None       # noncommutative polynomial over matrices (product structure), or None for a leaf
        if Ctx.cur is not None:
            Ctx.cur.heap.append(self)

    # ---- algebraic structure: dict (tuple of leaf matrices' keys) -> coefficient
    @property
    def term(self):
        if self._term is None or self._term[0] is not self.at:
            c = ctx()
            leaves = c.__dict__.setdefault('_leaves', {})
            k = id(self.at)
            if k not in leaves:
                leaves[k] = (SMat(self.m, self.n, self.at), self.at)
            return {(k,): 1}
        return self._term[1]

    def with_term(self, t):
        self._term = (self.at, {k: q for k, q in t.items() if q})
        return self

    def __repr__(self):
        return '<SMat %s x %s>' % (self.m, self.n)

    def __format__(self, s):
        return repr(self)

    def state(self):
        return (self.m, self.n, self.at)

    def set_state(self, st):
        self.m, self.n, self.at = st

    @property
    def shape(self):
        return (_concrete(SInt(self.m)), _concrete(SInt(self.n)))

    @property
    def rows(self):
        return self.shape[0]

    @property
    def cols(self):
        return self.shape[1]

    @property
    def T(self):
        g = self.at
        return SMat(self.n, self.m, lambda i, j: g(j, i), self.zero_axiom)

    def transpose(self):
        return self.T

    @property
    def is_zero(self):
        """True iff all entries are zero"""
        c = ctx()
        if c.entails(z3.Or(self.m <= 0, self.n <= 0)):
            return True
        if c.choose(2) == 1:
            i, j = z3.Ints('zi zj')
            if self.zero_axiom is not None:
                c.assume(self.zero_axiom())
            else:
                c.assume(z3.ForAll([i, j], z3.Implies(z3.And(in_range(i, self.m), in_range(j, self.n)),
                                                     zden(self.at(i, j))(valuation()) == 0)))
            c.trail.append(('matrix is zero', True))
            if not c.feasible():
                raise PathEnd()
            return True
        return False

    def copy(self):
        r = SMat(self.m, self.n, self.at, self.zero_axiom)
        r._term = self._term
        return r
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _same(self, o):
        c = ctx()
        if not c.branch(z3.And(self.m == o.m, self.n == o.n)):
            raise ShapeError('Matrix size mismatch')

    def __add__(self, o):
        if not isinstance(o, SMat):
            return NotImplemented
        self._same(o)
        a, b = self.at, o.at
        return SMat(self.m, self.n, lambda i, j: a(i, j) + b(i, j)).with_term(_tadd(self.term, o.term, 1))

    def __sub__(self, o):
        if not isinstance(o, SMat):
            return NotImplemented
        self._same(o)
        a, b = self.at, o.at
        return SMat(self.m, self.n, lambda i, j: a(i, j) - b(i, j)).with_term(_tadd(self.term, o.term, -1))

    def __neg__(self):
        a = self.at
        return SMat(self.m, self.n, lambda i, j: -a(i, j)).with_term(_tadd({}, self.term, -1))

    def __mul__(self, o):
        if isinstance(o, SMat):
            c = ctx()
            if not c.branch(self.n == o.m):
                raise ShapeError('Matrix size mismatch')
            a, b, q = self.at, o.at, self.n
            r = SMat(self.m, o.n, lambda i, j: sym_sum(q, lambda l: a(i, l) * b(l, j)))
            return r.with_term(_tmul(self.term, o.term))
        if isinstance(o, (SExpr, int, float, SInt, SReal)):
            a = self.at
            return SMat(self.m, self.n, lambda i, j: a(i, j) * o)
        return NotImplemented

    def __rmul__(self, o):
        if isinstance(o, (SExpr, int, float, SInt, SReal)):
            a = self.at
            return SMat(self.m, self.n, lambda i, j: o * a(i, j))
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, (SExpr, int, float, SInt, SReal)):
            a = self.at
            return SMat(self.m, self.n, lambda i, j: a(i, j) / o)
        return NotImplemented

    def _axis(self, k, n):
        """(length, index closure, scalar?)"""
        if isinstance(k, slice):
            a, ln = norm_slice(k, n)
            return ln, (lambda q: q + a), False
        if is_int(k):
            e = norm_index(k, n)
            return z3.IntVal(1), (lambda q: e), True
        l = as_vlist(k, strict=True)
        g = l.getter()
        c = ctx()
        # every index of the list must be a valid index of the axis
        q = z3.Const(c.name('q'), z3.IntSort())
        bad = z3.And(in_range(q, l.zlen()), z3.Not(in_range(zint(g(q)), n))) if l.symbolic() else \
            z3.Or([z3.Not(in_range(zint(x), n)) for x in l.c] + [z3.BoolVal(False)])
        r, _ = c._check(bad)
        if r != z3.unsat:
            raise Unsupported('index list not known to be within the axis')
        return l.zlen(), (lambda q: zint(g(q))), False

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            raise Unsupported('flat matrix indexing')
        ki, kj = key
        mi, fi, si = self._axis(ki, self.m)
        nj, fj, sj = self._axis(kj, self.n)
        g = self.at
        if si and sj:
            return g(fi(z3.IntVal(0)), fj(z3.IntVal(0)))
        full = (mi is self.m or z3.simplify(mi).eq(self.m))
        return SMat(mi, nj, lambda i, j: g(fi(i), fj(j)), self.zero_axiom if full else None)

    def __setitem__(self, key, val):
        ki, kj = key
        mi, fi, si = self._axis(ki, self.m)
        nj, fj, sj = self._axis(kj, self.n)
        g = self.at
        self.zero_axiom = None
        if si and sj:
            e, f = fi(z3.IntVal(0)), fj(z3.IntVal(0))
            self.at = Memo2(lambda i, j: ite(z3.And(i == e, j == f), val, g(i, j)))
            return
        if not (isinstance(ki, slice) or si) or not (isinstance(kj, slice) or sj):
            raise Unsupported('matrix assignment with index lists')
        a, b = fi(z3.IntVal(0)), fj(z3.IntVal(0))
        if isinstance(val, SMat):
            c = ctx()
            if not c.branch(z3.And(val.m == mi, val.n == nj)):
                raise ShapeError('The Matrix `value` does not have the same dimensions')
            w = val.at
            self.at = Memo2(lambda i, j: ite(z3.And(i >= a, i < a + mi, j >= b, j < b + nj),
                                             w(i - a, j - b), g(i, j)))
            return
        if isinstance(val, (int, float, SExpr, SInt)):
            self.at = Memo2(lambda i, j: ite(z3.And(i >= a, i < a + mi, j >= b, j < b + nj), val, g(i, j)))
            return
        raise Unsupported('matrix assignment of %r' % type(val))

    def to_list(self):
        c = ctx()
        g = self.at
        if c.entails(self.n == 1):
            return VList.sym(self.m, lambda i: g(i, z3.IntVal(0)))
        if c.entails(self.m == 1):
            return VList.sym(self.n, lambda j: g(z3.IntVal(0), j))
        if c.entails(z3.Or(self.m == 0, self.n == 0)):
            return VList()
        raise Unsupported('flattening a symbolic matrix')

    def tolist(self):
        raise Unsupported('tolist')

    def __iter__(self):
        return iter(self.to_list())

    def subs(self, *a, **k):
        g = self.at
        return SMat(self.m, self.n, lambda i, j: as_expr(g(i, j)).subs(*a, **k))

    def dot(self, o):
        """scalar product of two vectors"""
        a = self.to_list()
        b = o.to_list() if isinstance(o, SMat) else as_vlist(o)
        c = ctx()
        if not c.branch(a.zlen() == b.zlen()):
            raise ShapeError('dimensions incorrect for dot product')
        if c.entails(a.zlen() == 0):
            return as_expr(0)
        ga, gb = a.getter(), b.getter()
        return sym_sum(a.zlen(), lambda k: as_expr(ga(k)) * as_expr(gb(k)))

    def applyfunc(self, f):
        g = self.at
        return SMat(self.m, self.n, lambda i, j: f(g(i, j)))

    def inv(self, *a, **k):
        """contract of the inverse (invertible matrices): X with A X = X A = 1"""
        m, n = z3.simplify(self.m), z3.simplify(self.n)
        c = ctx()
        if not (z3.is_int_value(m) and z3.is_int_value(n) and m.as_long() == n.as_long() <= 6):
            if not c.branch(m == n):
                raise ShapeError('inverse of a matrix that is not square')
            f = z3.Function(c.name('INV'), z3.IntSort(), z3.IntSort(), Val, z3.RealSort())
            X = SMat(m, m, lambda i, j: SExpr(lambda v: f(i, j, v)))
            # symbolic size: the contract is instantiated on demand (spec.inverse_eq)
            c.__dict__.setdefault('inv_pairs', []).append((self.copy(), X))
            return X
        n = n.as_long()
        f = z3.Function(c.name('INV'), z3.IntSort(), z3.IntSort(), Val, z3.RealSort())
        X = SMat(n, n, lambda i, j: SExpr(lambda v: f(i, j, v)))
        v = valuation()
        for A, B in ((self, X), (X, self)):
            P = A * B
            for i in range(n):
                for j in range(n):
                    q = zden(P.at(i, j))(v) == z3.RealVal(1 if i == j else 0)
                    c.assume(q)
                    c.__dict__.setdefault('inv_eqs', []).append(q)
        return X

    def has(self, *a):
        """may the matrix contain nan/infinities?  both outcomes are explored"""
        return ctx().choose(2) == 1

    def __eq__(self, o):
        raise Unsupported('matrix equality')

    __hash__ = None


def _tadd(a, b, q):
    r = dict(a)
    for k, x in b.items():
        r[k] = r.get(k, 0) + q * x
    return r


def _tmul(a, b):
    r = {}
    for k, x in a.items():
        for l, y in b.items():
            r[k + l] = r.get(k + l, 0) + x * y
    return r


class ShapeError(ValueError):
    pass


def as_expr(x):
    if isinstance(x, SExpr):
        return x
    d = zden(x)
    return SExpr(d)


def mat_from(*args):
    """sympy Matrix/SparseMatrix constructor"""
    if len(args) == 1:
        a = args[0]
        if isinstance(a, SMat):
            return a.copy()
        if isinstance(a, (VList, list, tuple)):
            l = as_vlist(a)
            if l.c is not None:
                if not l.c:
                    return SMat(0, 0, lambda i, j: _bottom())
                if isinstance(l.c[0], (list, tuple, VList)):
                    rows = [as_vlist(r) for r in l.c]
                    nn = rows[0].zlen()
                    for r in rows:
                        if not ctx().branch(r.zlen() == nn):
                            raise ValueError('rows of different lengths')
                    gs = VList([r for r in rows])
                    def at(i, j):
                        i = z3.simplify(i)
                        if z3.is_int_value(i):
                            return rows[i.as_long()].getter()(j)
                        r = rows[-1].getter()(j)
                        for q in range(len(rows) - 2, -1, -1):
                            r = ite(i == q, rows[q].getter()(j), r)
                        return r
                    return SMat(len(rows), nn, at)
                g = l.getter()
                return SMat(len(l.c), 1, lambda i, j: g(i))
            g = l.getter()
            # symbolic column vector; the empty vector is a (0, 0) or (0, 1) matrix: only the
            # nonempty case has a column
            return SMat(l.n, 1, lambda i, j: g(i))
    if len(args) == 3 and callable(args[2]):
        m, n, f = args
        return SMat(zint(m), zint(n), lambda i, j: f(SInt(i), SInt(j)))
    raise Unsupported('matrix constructor')


def zeros(m, n=None):
    m = zint(m)
    n = m if n is None else zint(n)
    z = SExpr(lambda v: z3.RealVal(0))
    return SMat(m, n, lambda i, j: z)


def eye(n, m=None):
    n = zint(n)
    return SMat(n, n, lambda i, j: SExpr(lambda v: z3.If(i == j, z3.RealVal(1), z3.RealVal(0)))).with_term({(): 1})


def hstack(*ms):
    c = ctx()
    ms = list(ms)
    m = ms[0].m
    for q in ms[1:]:
        if not c.branch(q.m == m):
            raise ShapeError('hstack of different numbers of rows')
    offs = [z3.IntVal(0)]
    for q in ms:
        offs.append(z3.simplify(offs[-1] + q.n))

    def at(i, j):
        r = None
        for q in range(len(ms) - 1, -1, -1):
            e = ms[q].at(i, j - offs[q])
            r = e if r is None else ite(j < offs[q + 1], e, r)
        return r
    return SMat(m, offs[-1], at)


def vstack(*ms):
    return hstack(*[q.T for q in ms]).T


def diag(*ms):
    ms = list(ms)
    z = SExpr(lambda v: z3.RealVal(0))
    ro, co = [z3.IntVal(0)], [z3.IntVal(0)]
    for q in ms:
        if not isinstance(q, SMat):
            raise Unsupported('diag of scalars')
        ro.append(z3.simplify(ro[-1] + q.m))
        co.append(z3.simplify(co[-1] + q.n))

    def at(i, j):
        r = z
        for q in range(len(ms) - 1, -1, -1):
            e = ms[q].at(i - ro[q], j - co[q])
            r = ite(z3.And(i >= ro[q], i < ro[q + 1], j >= co[q], j < co[q + 1]), e, r)
        return r
    return SMat(ro[-1], co[-1], at)


# --------------------------------------------------------------------------- #
# sums: families (k |-> f(k)) hash-consed semantically.  S(params..., n) = sum_{k<n} f(k; params)

def generic_params(*terms, skip=None):
    gen = ctx().generics
    out = {}
    for t in terms:
        consts_of(t, out)
    return [out[n] for n in sorted(out) if n in gen and n != skip]


class bound:
    """a bound index, distinct from those of the enclosing sums and substitutions"""
    def __enter__(self):
        c = ctx()
        if c.depth >= 12:
            raise Unsupported('nesting of sums')
        self.k = z3.Const('kc!%d' % c.depth, z3.IntSort())
        c.depth += 1
        return self.k

    def __exit__(self, *a):
        ctx().depth -= 1


def _sumfun(n, body, k):
    """z3 function S and parameter list with S(params, n) = sum_{kc<n} body(kc)"""
    c = ctx()
    P = generic_params(body, skip=k.decl().name())
    tab = c.__dict__.setdefault('_sumtab', [])
    sorts = [p.sort() for p in P]
    for (b2, P2, S, k2) in tab:
        if len(P2) != len(P) or any(a.sort() != b.sort() for a, b in zip(P, P2)):
            continue
        b = z3.substitute(b2, (k2, k), *[(q, p) for q, p in zip(P2, P)])
        if b.eq(body):
            return S, P
    import itertools
    for (b2, P2, S, k2) in tab:
        if len(P2) != len(P) or len(P) > 3:
            continue
        for perm in itertools.permutations(P):
            if any(a.sort() != b.sort() for a, b in zip(perm, P2)):
                continue
            b = z3.substitute(b2, (k2, k), *[(q, p) for q, p in zip(P2, perm)])
            if c.entails(z3.Implies(in_range(k, n), b == body)):
                return S, list(perm)
    S = z3.Function(c.name('SUM'), *(sorts + [z3.IntSort(), z3.RealSort()]))
    tab.append((body, P, S, k))
    if P:
        c.assume(z3.ForAll(P, S(*(P + [z3.IntVal(0)])) == 0))
    else:
        c.assume(S(z3.IntVal(0)) == 0)
    return S, P


def sum_family(n, f):
    """closure kk -> SExpr sum_{l<kk} f(l); the unfolding S(k+1) = S(k) + f(k) is assumed for terms k+1"""
    def S(kk):
        def den(v):
            c = ctx()
            with bound() as k:
                body = z3.simplify(zden(f(k))(v))
                F, P = _sumfun(n, body, k)
            kk_s = z3.simplify(kk)
            # unfold when kk = t + 1
            t = z3.simplify(kk_s - 1)
            if not z3.is_int_value(t) and z3.is_add(kk_s):
                c.assume(F(*(P + [kk_s])) == F(*(P + [t])) + z3.substitute(body, (k, t)))
            if z3.is_int_value(kk_s) and kk_s.as_long() == 0:
                return z3.RealVal(0)
            return F(*(P + [kk_s]))
        return SExpr(den)
    return S


def sym_sum(n, f):
    """sum_{l<n} f(l) as an expression"""
    n = z3.simplify(n)
    if z3.is_int_value(n):
        r = 0
        for q in range(n.as_long()):
            r = r + f(z3.IntVal(q))
        return as_expr(r)
    return sum_family(n, f)(n)


# --------------------------------------------------------------------------- #
# dictionaries with symbolic keys

def _argument_of(ka, k):
    """t with ka(t) syntactically equal to k, if any"""
    if not isinstance(k, SSym):
        return None
    q = z3.Const('q#', z3.IntSort())
    try:
        p = z3.simplify(ka(q).s)
    except Unsupported:
        return None
    t = z3.simplify(k.s)
    if not (z3.is_app(p) and z3.is_app(t) and p.decl().eq(t.decl())):
        return None
    for a, b in zip(p.children(), t.children()):
        if a.eq(q):
            return b
    return None


class VDict(dict):
    """dict whose keys may be symbolic: plain entries + list of (key, value) + families"""

    def __init__(self, *a, **k):
        dict.__init__(self)
        if Ctx.cur is not None:
            Ctx.cur.heap.append(self)
        self.fam = []           # (n, keyat, valat)
        self.pairs = []         # [(SSym, value)]
        if a:
            o = a[0]
            if isinstance(o, VIter) or (isinstance(o, VList) and o.symbolic()):
                g = o.getter()
                self.fam.append((o.zlen(), (lambda i: g(i)[0]), (lambda i: g(i)[1])))
            elif isinstance(o, dict):
                self.update(o)
            else:
                for kk, vv in o:
                    self[kk] = vv
        for kk, vv in k.items():
            self[kk] = vv

    def state(self):
        return (tuple(dict.items(self)), tuple(self.fam), tuple(self.pairs))

    def set_state(self, st):
        dict.clear(self)
        dict.update(self, st[0])
        self.fam, self.pairs = list(st[1]), list(st[2])

    def _symkey(self, k):
        return isinstance(k, (SExpr, SOpaque, SInt))

    def __setitem__(self, k, v):
        if not self._symkey(k):
            dict.__setitem__(self, k, v)
            return
        for q, (kk, vv) in enumerate(self.pairs):
            if kk is k or ctx().entails(veq(kk, k)):
                self.pairs[q] = (kk, v)
                return
        self.pairs.append((k, v))

    def pop(self, k, *d):
        if not self._symkey(k):
            return dict.pop(self, k, *d)
        if self.fam:
            raise Unsupported('removal from a symbolic dictionary')
        for q in reversed(range(len(self.pairs))):
            kk, vv = self.pairs[q]
            if kk is k or kk == k:
                # entries of the same key hidden by this one
                self.pairs = [p for r, p in enumerate(self.pairs) if r != q and not (r < q and bool(p[0] == k))]
                return vv
        if d:
            return d[0]
        raise KeyError(k)

    def __delitem__(self, k):
        if not self._symkey(k):
            return dict.__delitem__(self, k)
        self.pop(k)

    def __getitem__(self, k):
        if not self._symkey(k):
            return dict.__getitem__(self, k)
        for kk, vv in reversed(self.pairs):
            if kk is k or kk == k:
                return vv
        for n, ka, va in reversed(self.fam):
            c = ctx()
            t = _argument_of(ka, k)
            if t is not None and c.entails(z3.And(in_range(t, n), veq(ka(t), k))):
                return va(t)
            j = z3.Const(c.name('j'), z3.IntSort())
            if c.branch(z3.Exists([j], z3.And(in_range(j, n), veq(ka(j), k)))):
                i = z3.Const(c.name('i'), z3.IntSort())
                c.assume(z3.And(in_range(i, n), veq(ka(i), k)))
                return va(i)
        raise KeyError(k)

    def __contains__(self, k):
        if not self._symkey(k):
            return dict.__contains__(self, k)
        for kk, vv in self.pairs:
            if kk is k or kk == k:
                return True
        for n, ka, va in self.fam:
            c = ctx()
            j = z3.Const(c.name('j'), z3.IntSort())
            if c.branch(z3.Exists([j], z3.And(in_range(j, n), veq(ka(j), k)))):
                return True
        return False

    def update(self, o=(), **kw):
        if isinstance(o, VDict):
            dict.update(self, dict.items(o))
            self.fam += o.fam
            self.pairs += o.pairs
        elif isinstance(o, dict):
            for k, v in o.items():
                self[k] = v
        else:
            for k, v in o:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        r = VDict()
        r.set_state(self.state())
        return r
    __copy__ = copy

    def _plain(self):
        if self.fam:
            raise Unsupported('iteration over a symbolic dictionary')

    def keys(self):
        if len(self.fam) == 1 and not self.pairs and not dict.__len__(self):
            return VList.sym(self.fam[0][0], self.fam[0][1])
        self._plain()
        return list(dict.keys(self)) + [k for k, _ in self.pairs]

    def values(self):
        self._plain()
        return list(dict.values(self)) + [v for _, v in self.pairs]

    def items(self):
        if len(self.fam) == 1 and not self.pairs and not dict.__len__(self):
            n, ka, va = self.fam[0]
            return VList.sym(n, lambda i: (ka(i), va(i)))
        self._plain()
        return list(dict.items(self)) + list(self.pairs)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        self._plain()
        return dict.__len__(self) + len(self.pairs)

    def __bool__(self):
        return bool(self.fam) or len(self) > 0

    def get(self, k, d=None):
        return self[k] if k in self else d


# --------------------------------------------------------------------------- #
# expressions: substitution, differentiation

def override(v, sub):
    """valuation after the (simultaneous) substitution `sub`"""
    out = v
    if isinstance(sub, VDict) and sub.fam:
        c = ctx()
        for n, ka, va in sub.fam:
            tab = c.__dict__.setdefault('_valtab', [])
            with bound() as k:
                ks, vs = z3.simplify(ka(k).s), z3.simplify(zden(va(k))(v))
            P = generic_params(ks, vs, out, n, skip=k.decl().name())
            hit = None
            for (n2, ks2, vs2, F2, P2, base2, k2) in tab:
                if len(P2) != len(P) or any(a.sort() != b.sort() for a, b in zip(P, P2)):
                    continue
                m = [(k2, k)] + [(q, p) for q, p in zip(P2, P)]
                sb = (lambda e: z3.substitute(e, *m)) if m else (lambda e: e)
                if not sb(base2).eq(out):
                    continue
                if (sb(n2).eq(n) or c.entails(sb(n2) == n)) and (
                        (sb(ks2).eq(ks) and sb(vs2).eq(vs)) or
                        c.entails(z3.Implies(in_range(k, n), z3.And(sb(ks2) == ks, sb(vs2) == vs)))):
                    hit = F2(*P) if P else F2
                    break
            if hit is None:
                nm = c.name('vs')
                F = z3.Function(nm, *([p.sort() for p in P] + [Val])) if P else z3.Const(nm, Val)
                hit = F(*P) if P else F
                tab.append((n, ks, vs, F, P, out, k))
                q = z3.Const(c.name('q'), z3.IntSort())
                sel = z3.Select(hit, z3.substitute(ks, (k, q)))
                ax = z3.Implies(in_range(q, n), sel == z3.substitute(vs, (k, q)))
                c.assume(z3.ForAll([q] + P, ax))
                # symbols outside the family keep their value
                s = z3.Const(c.name('s'), SymSort)
                j = z3.Const(c.name('j'), z3.IntSort())
                c.assume(z3.ForAll([s] + P, z3.Or(z3.Select(hit, s) == z3.Select(out, s),
                                                  z3.Exists([j], z3.And(in_range(j, n), z3.substitute(ks, (k, j)) == s)))))
            out = hit
    items = sub.pairs + list(dict.items(sub)) if isinstance(sub, VDict) else list(sub.items())
    for kk, vv in items:
        if not isinstance(kk, SSym):
            raise Unsupported('substitution of a non-symbol')
        out = z3.Store(out, kk.s, zden(vv)(v))
    return out


def expr_subs(e, *args, **kw):
    if len(args) == 2:
        s, w = args
        if not isinstance(s, SSym):
            raise Unsupported('substitution of a non-symbol')
        sub = VDict([(s, w)])
    else:
        sub = args[0]
        if isinstance(sub, (VList, list, tuple)):
            sub = VDict(list(sub))
    d = e.den
    return SExpr(lambda v: d(override(v, sub)))


FunSort = z3.DeclareSort('Fun')                             # functions of the valuation
APP = z3.Function('APP', FunSort, Val, z3.RealSort())
ISZERO = z3.Function('ISZERO', FunSort, z3.BoolSort())      # is this expression (syntactically) 0 ?
DIFF = z3.Function('DIFF', FunSort, SymSort, FunSort)


def const_fun(q):
    c = ctx()
    tab = c.__dict__.setdefault('_constfun', {})
    if q not in tab:
        f = z3.Const('CST[%r]' % q, FunSort)
        v = z3.Const('v#c', Val)
        c.assume(z3.ForAll([v], APP(f, v) == zreal(q), patterns=[APP(f, v)]))
        if q == 0:
            c.assume(ISZERO(f))
        tab[q] = f
    return tab[q]


def reify(e):
    """the function v -> e(v) as an object (its values are those of e); equal bodies give the same object"""
    c = ctx()
    v = z3.Const('v#', Val)
    body = z3.simplify(zden(e)(v))
    P = [p for p in generic_params(body) if p.decl().name() != 'v#']
    tab = c.__dict__.setdefault('_reified', [])
    for b2, P2, F in tab:
        if len(P2) == len(P) and all(a.sort() == b.sort() for a, b in zip(P, P2)):
            if (z3.substitute(b2, *zip(P2, P)) if P else b2).eq(body):
                return F(*P) if P else F
    nm = c.name('FUN')
    F = z3.Function(nm, *([p.sort() for p in P] + [FunSort])) if P else z3.Const(nm, FunSort)
    f = F(*P) if P else F
    tab.append((body, P, F))
    c.assume(z3.ForAll([v] + P, APP(f, v) == body, patterns=[APP(f, v)]))
    return f


def expr_diff(e, s):
    if not isinstance(s, SSym):
        raise Unsupported('derivative with respect to a non-symbol')
    if getattr(e, 'fun', None) is None:
        def den(v):
            return APP(DIFF(reify(e), s.s), v)
        return SExpr(den)
    r = SExpr(lambda v: APP(DIFF(e.fun, s.s), v))
    r.fun = DIFF(e.fun, s.s)
    return r


def expr_free_symbols(e):
    raise Unsupported('free symbols of a symbolic expression')


def piecewise(*args):
    """sympy.Piecewise((expr, cond), ...)"""
    pairs = [(p[0], p[1]) for p in args]

    def den(v):
        r = None
        for ex, cond in reversed(pairs):
            d = zden(ex)(v)
            if cond is True:
                r = d
            elif isinstance(cond, SRel):
                other = r if r is not None else z3.Const('nan', z3.RealSort())
                r = z3.If(cond.den(v), d, other)
            else:
                raise Unsupported('Piecewise condition')
        return r
    return SExpr(den)


# --------------------------------------------------------------------------- #
# fresh symbolic inputs for harnesses

def fresh_int(name, lo=None):
    c = ctx()
    e = z3.Const(c.name(name), z3.IntSort())
    if lo is not None:
        c.assume(e >= lo)
    return SInt(e)


def fresh_symlist(name, n, distinct=True):
    """list of n pairwise distinct symbols; returns (VList, z3 function)"""
    c = ctx()
    f = z3.Function(c.name(name), z3.IntSort(), SymSort)
    n = zint(n)
    if distinct:
        inv = z3.Function(c.name(name + 'inv'), SymSort, z3.IntSort())
        i = z3.Const(c.name('i'), z3.IntSort())
        c.assume(z3.ForAll([i], inv(f(i)) == i, patterns=[f(i)]))
        c.__dict__.setdefault('sym_inv', {})[f.name()] = inv
    return VList.sym(n, lambda i: SSym(f(i))), f


Opq = z3.DeclareSort('Opq')


def fresh_value(name):
    """an arbitrary value (identity only)"""
    return SOpaque(z3.Const(ctx().name(name), Opq))


def fresh_values(name, n):
    """list of n arbitrary values"""
    F = z3.Function(ctx().name(name), z3.IntSort(), Opq)
    return VList.sym(zint(n), lambda i: SOpaque(F(i))), F


def fresh_exprlist(name, n):
    c = ctx()
    f = z3.Function(c.name(name), z3.IntSort(), Val, z3.RealSort())
    return VList.sym(zint(n), lambda i: SExpr(lambda v: f(i, v)))


def fresh_mat(name, m, n):
    c = ctx()
    f = z3.Function(c.name(name), z3.IntSort(), z3.IntSort(), Val, z3.RealSort())

    def zero():
        i, j = z3.Ints('zi zj')
        v = z3.Const('zv', Val)
        return z3.ForAll([i, j, v], f(i, j, v) == 0, patterns=[f(i, j, v)])
    return SMat(zint(m), zint(n), lambda i, j: SExpr(lambda v: f(i, j, v)), zero)


def skolem(name='i'):
    return z3.Const(ctx().name(name), z3.IntSort())
