"""C13 - substitution."""
from ..spec import *

SB = 'pyphs/core/tools/_substitutions.py'
FREE = [SB + ':substitute_core', SB + ':substitute', SB + ':substitute_scalar', SB + ':substitute_vector', SB + ':substitute_matrix',
        SB + ':substitute_dict']


class Keys:
    """set of the keys of a substitution dictionary"""

    def __init__(self, l):
        self.l = l


class Free:
    """free symbols of an expression (or of a list, matrix, dictionary of expressions): the symbols it may depend on"""

    def __init__(self, expr):
        c = ctx()
        self.expr = expr
        self.OCC = z3.Function(c.name('occurs'), SymSort, z3.BoolSort())

    def empty(self):
        e = self.expr
        if e is None or (isinstance(e, VDict) and not e):
            return True
        if isinstance(e, SMat):
            return ctx().entails(e.m * e.n == 0)
        return isinstance(e, VList) and ctx().entails(e.zlen() == 0)

    def intersection(self, o):
        if isinstance(o, set) and not o:
            return VList([])
        if not isinstance(o, Keys):
            raise Unsupported('intersection with something else')
        c = ctx()
        l = D.as_vlist(o.l)
        if not l.symbolic():
            return VList([k for k in list(l) if c.branch(self.OCC(k.s))] if not self.empty() else [])
        n, ka = l.zlen(), l.getter()
        m = fresh_int('common', 0)
        io = z3.Function(c.name('pos'), z3.IntSort(), z3.IntSort())
        rho = z3.Function(c.name('back'), z3.IntSort(), z3.IntSort())
        q = z3.Const(c.name('q'), z3.IntSort())
        self.m, self.io, self.rho = m, io, rho
        assume(z3.ForAll([q], z3.Implies(in_range(q, m.e), z3.And(in_range(io(q), n), self.OCC(ka(io(q)).s))), patterns=[io(q)]))
        assume(z3.ForAll([q], z3.Implies(z3.And(in_range(q, n), self.OCC(ka(q).s)), z3.And(in_range(rho(q), m.e), io(rho(q)) == q)),
                         patterns=[self.OCC(ka(q).s)]))

        def at(q):
            # instance of the first fact
            assume(z3.Implies(in_range(q, m.e), z3.And(in_range(io(q), n), self.OCC(ka(io(q)).s))))
            return ka(io(q))
        return VList.sym(m.e, at)


def load(L):
    m = L.load('pyphs.core.tools._substitutions')
    seen = []

    def free_symbols(e):
        f = Free(e)
        seen.append(f)
        return f
    m.free_symbols = free_symbols

    def mkset(o=()):
        if isinstance(o, VList) and (o.symbolic() or any(isinstance(k, SSym) for k in list(o))):
            return Keys(o)
        o = list(o)
        return Keys(VList(o)) if any(isinstance(k, SSym) for k in o) else set(o)
    m.set = mkset
    return m, seen


def depends_only(name, den, OCC, v1, v2):
    """contract of free_symbols: an expression takes the same value at valuations that agree on its free symbols"""
    s = z3.Const(ctx().name('s'), SymSort)
    prove(name + '.agree', z3.Implies(OCC(s), z3.Select(v1, s) == z3.Select(v2, s)))
    assume(den(v1) == den(v2))


def family(name):
    """substitution dictionary of any size, keys pairwise distinct, any values"""
    n = fresh_int('n' + name, 0)
    ks, k = fresh_symlist('k' + name, n)
    vals = fresh_exprlist('v' + name, n)
    vf = vals.getter()
    return VDict(VList.sym(n.e, lambda i: (SSym(k(i)), vf(i)))), n, k, vf


def core_of(L, stored):
    s = SymCore(L, linear=False, dxH=stored, distinct=False)
    s.core.p, s.p = fresh_symlist('p', fresh_int('np', 0), False)
    return s


def check_expr(name, new, old, fr, sub, v):
    """new = old with the substitution applied"""
    vall = D.override(v, sub)
    d = zden(as_expr(old))
    if fr is None or not hasattr(fr, 'm'):
        prove(name, zden(as_expr(new))(v) == d(vall))
        return
    fam = VDict(VList.sym(fr.m.e, lambda q: (sub.fam[0][1](fr.io(q)), sub.fam[0][2](fr.io(q)))))
    ve = D.override(v, fam)
    depends_only(name, d, fr.OCC, ve, vall)
    prove(name, zden(as_expr(new))(v) == d(vall))


def given(L, stored, which):
    m, seen = load(L)
    s = core_of(L, stored)
    c = s.core
    obs = [(SSym(z3.Const('o%d' % q, SymSort)), fresh_exprlist('ob%d' % q, SInt(z3.IntVal(1))).getter()(z3.IntVal(0))) for q in range(2)]
    assume(obs[0][0].s != obs[1][0].s)
    c.observers = VDict(obs)
    sub, n, k, vf = family('')
    st = sub.state()
    old = {nm: getattr(c, nm) for nm in ('H', 'M', 'z', '_dxH', 'x', 'w', 'u', 'y', 'p')}
    olds = {nm: (D.as_vlist(o).zlen(), D.as_vlist(o).getter()) for nm, o in old.items() if isinstance(o, VList)}
    Mat, Mn = c.M.at, c.M.m
    ctx().ground_branches = True        # decisions of the execution from the quantifier-free assumptions only
    returns_normally('total', lambda: m.substitute_core(c, subs=sub))
    ctx().ground_branches = False
    prove('caller', z3.BoolVal(sub.state() == st))
    prove('stored', z3.BoolVal(len(c.subs) == 0))
    v = valuation()
    by = {}
    for f in seen:
        for nm, o in list(old.items()) + [('observers', None)]:
            if (f.expr is o and o is not None) or (nm == 'observers' and isinstance(f.expr, VDict)):
                by.setdefault(nm, f)
    for nm in which:
        if nm == 'H':
            check_expr('H', c.H, s.H, by.get('H'), sub, v)
        elif nm == 'M':
            prove('M.shape', z3.And(c.M.m == Mn, c.M.n == Mn))
            i, j = skolem('i'), skolem('j')
            assume(z3.And(in_range(i, Mn), in_range(j, Mn)))
            check_expr('M', c.M.at(i, j), Mat(i, j), by.get('M'), sub, v)
        elif nm == 'observers':
            prove('observers.keys', z3.BoolVal([a.s.eq(b[0].s) for a, b in zip(c.observers.keys(), obs)] == [True, True]))
            for q, (a, b) in enumerate(zip(c.observers.values(), obs)):
                check_expr('observers', a, b[1], by.get('observers'), sub, v)
        elif nm == '_dxH' and not stored:
            prove('_dxH.none', z3.BoolVal(c._dxH is None))
        else:
            l = D.as_vlist(getattr(c, nm))
            n0, g0 = olds[nm]
            prove(nm + '.length', l.zlen() == n0)
            if ctx().entails(n0 == 0):
                continue
            i = skolem('i')
            assume(in_range(i, n0))
            check_expr(nm, l.getter()(i), g0(i), by.get(nm), sub, v)
    cover('end')


for _nm, _st, _wh in (('expressions', False, ['H', 'z', 'M', 'observers', '_dxH']), ('gradient', True, ['_dxH']),
                      ('symbols', False, ['x', 'w', 'u', 'y', 'p'])):
    contract('C13.given_' + _nm, FREE, note='substitution by a dictionary of any size (numbers, symbols, expressions), any dimensions: value of '
             '%s, caller dictionary unchanged (free_symbols by its contract)' % ', '.join(_wh))(lambda L, st=_st, wh=_wh: given(L, st, wh))


def choice(name, k):
    for q in range(k - 1):
        if ctx().branch(z3.Const('%s_%d' % (name, q), z3.BoolSort())):
            return q
    return k - 1


def entries(name, k, numbers):
    """k entries with pairwise distinct keys; values are expressions (or numbers)"""
    out = []
    for q in range(k):
        s = z3.Const('%s_k%d' % (name, q), SymSort)
        for o, _ in out:
            assume(o.s != s)
        if numbers and ctx().branch(z3.Const('%s_num%d' % (name, q), z3.BoolSort())):
            out.append((SSym(s), SReal(z3.Const('%s_val%d' % (name, q), z3.RealSort()))))
        else:
            f = z3.Function('%s_val%d' % (name, q), Val, z3.RealSort())
            out.append((SSym(s), SExpr(lambda v, f=f: f(v))))
    return out


def free_instances(seen, exprs, vals):
    """contract of free_symbols, instances: forgetting the value of a symbol that does not occur changes nothing"""
    for f in seen:
        for e, keys in exprs:
            if f.expr is e:
                for k in keys:
                    for v in vals:
                        zero = z3.Store(v, k.s, z3.RealVal(0))
                        assume(z3.Or(f.OCC(k.s), zden(e)(v) == zden(e)(zero)))


@contract('C13.stored', FREE, note='substitution by 0 to 2 entries, 0 to 2 stored substitutions (numbers or expressions): the other stored entries '
          'survive with their values substituted, the substituted ones are removed, the energy keeps its value, caller dictionary unchanged')
def stored(L):
    m, seen = load(L)
    c = L.load('pyphs.core.core').Core()
    track(c)
    Hf = z3.Function('H', Val, z3.RealSort())
    H = c.H = SExpr(lambda v: Hf(v))
    sub = entries('sub', choice('nsub', 3), False)
    st = entries('st', choice('nst', 3), True)
    c.subs = VDict(st)
    d = VDict(sub)
    before = d.state()
    returns_normally('total', lambda: m.substitute_core(c, subs=d))
    prove('caller', z3.BoolVal(d.state() == before))
    v = valuation()
    va = D.override(v, VDict(sub))
    vs = [va, D.override(v, VDict())]
    for q in range(len(sub)):
        vs.append(D.override(v, VDict([sub[q]])))
    free_instances(seen, [(H, [k for k, _ in sub])], vs)
    prove('H', zden(as_expr(c.H))(v) == zden(H)(va))
    got = [(k, x) for k, x in c.subs.items()]
    left = []
    for k, x in st:
        if any(ctx().branch(k.s == kk.s) for kk, _ in sub):
            prove('removed', z3.And(*[kk.s != k.s for kk, _ in got]) if got else z3.BoolVal(True))
        else:
            left.append((k, x))
            hit = [xx for kk, xx in got if ctx().entails(kk.s == k.s)]
            prove('kept', z3.BoolVal(len(hit) == 1))
            if hit:
                prove('kept.value', zden(as_expr(hit[0]))(v) == zden(as_expr(x))(va))
    prove('no_other', z3.BoolVal(len(got) == len(left)))
    cover('end')


@contract('C13.selfall', FREE + ['pyphs/core/core.py:Core.subsexprs'], note='stored substitutions applied (all of them, or those that are expressions; 0 to 2 '
          'stored entries, chained or not, plus 0 or 1 given): the energy keeps its value at every valuation that satisfies the definitions, the '
          'applied entries are removed, numbers are kept by selfexprs')
def selfall(L):
    m, seen = load(L)
    c = L.load('pyphs.core.core').Core()
    track(c)
    Hf = z3.Function('H', Val, z3.RealSort())
    H = c.H = SExpr(lambda v: Hf(v))
    st = entries('st', choice('nst', 3), True)
    sub = entries('sub', choice('nsub', 2), True)
    for k, _ in sub:
        for o, _ in st:
            assume(k.s != o.s)
    c.subs = VDict(st)
    d = VDict(sub)
    before = d.state()
    every = ctx().branch(z3.Const('selfall', z3.BoolSort()))
    kw = dict(selfall=True) if every else dict(selfexprs=True)
    returns_normally('total', lambda: m.substitute_core(c, subs=d, **kw))
    prove('caller', z3.BoolVal(d.state() == before))
    v = valuation()
    # the valuation satisfies the definitions
    for k, x in st + sub:
        assume(z3.Select(v, k.s) == zden(as_expr(x))(v))
    prove('H', zden(as_expr(c.H))(v) == zden(H)(v))
    got = list(c.subs.items())
    keep = [] if every else [(k, x) for k, x in st if isinstance(x, SReal)]
    prove('entries', z3.BoolVal(len(got) == len(keep)))
    for k, x in keep:
        hit = [xx for kk, xx in got if ctx().entails(kk.s == k.s)]
        prove('kept', z3.BoolVal(len(hit) == 1))
        if hit:
            prove('kept.value', zden(as_expr(hit[0]))(v) == zden(as_expr(x))(v))
    cover('end')

