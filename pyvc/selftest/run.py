"""self test of the engine: true contracts are proved, false ones are never proved"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
import z3
from pyvc import core as C, domain as D, load
from pyvc.spec import *

R = []


def case(name, expect):
    def deco(f):
        def h(c):
            L = load.Loader(os.path.join(HERE, 'repo_'))
            L.repo = HERE
            m = L.load('toy')
            f(m)
        rep = C.verify(name, h, budget_s=60)
        st = rep.status()
        ok = st == expect if expect == 'proved' else st != 'proved'
        R.append(ok)
        print('%-28s %-10s expected %s%s %s' % (name, st, expect, '' if ok else '   <-- WRONG', rep.unsupported[:1]))
    return deco


def lst(n=0):
    n = fresh_int('n', n)
    l = fresh_exprlist('l', n)
    return n, l, l.getter()


for good in (True, False):
    k = 'proved' if good else 'not proved'

    @case('count', k)
    def _(m):
        n, l, g = lst(1)
        prove('r', zint(m.count(l)) == n.e + (0 if good else 1))

    @case('total', k)
    def _(m):
        n, l, g = lst(1)
        v = valuation()
        f = m.total if good else m.total_but_first
        prove('r', zden(f(l))(v) == zden(sym_sum(n.e, g))(v))

    @case('doubled', k)
    def _(m):
        n, l, g = lst(1)
        forall_elem('r', m.doubled(l), n.e, lambda i: (2 if good else 3) * g(i))

    @case('doubled length', k)
    def _(m):
        n, l, g = lst(1)
        prove('r', m.doubled(l).zlen() == n.e + (0 if good else 1))

    @case('find', k)
    def _(m):
        n = fresh_int('n', 0)
        l, f = fresh_symlist('s', n, distinct=False)
        q = fresh_int('q', 0)
        assume(q.e < n.e)
        r = m.find(l, SSym(f(q.e)))
        prove('r', z3.And(0 <= zint(r), zint(r) < n.e, zint(r) <= q.e) if good else zint(r) == q.e)

    for fn in ('positives', 'positives2'):
        @case('selection ' + fn, k)
        def _(m):
            n = fresh_int('n', 0)
            a = z3.Function('a', z3.IntSort(), z3.RealSort())
            l = VList.sym(n.e, lambda i: SReal(a(i)))
            f = getattr(m, fn if good else 'positives_bad')
            out = f(l)
            cnt = None
            if isinstance(out, tuple):
                out, cnt = out
            q, j = skolem(), skolem()
            prove('value', z3.Implies(in_range(q, out.zlen()), out.getter()(q).e > 0)) if not ctx().entails(out.zlen() == 0) else None
            w = z3.Int('w')
            assume(z3.And(in_range(j, n.e), a(j) > 0))
            prove('complete', z3.Exists([w], z3.And(in_range(w, out.zlen()), out.getter()(w).e == a(j))))
            if cnt is not None:
                prove('count', zint(cnt) == out.zlen())

    @case('nested sums', k)
    def _(m):
        a, b, c = fresh_int('a', 1), fresh_int('b', 1), fresh_int('c', 1)
        A, B, Cc = fresh_mat('A', a, b), fresh_mat('B', b, c), fresh_mat('C', c, a)
        P = m.matprod(A, B, Cc)
        v = valuation()
        i, j = skolem(), skolem()
        good_ = lambda: sym_sum(c.e, lambda l: sym_sum(b.e, lambda k: A.at(i, k) * B.at(k, l)) * Cc.at(l, j))
        bad_ = lambda: sym_sum(c.e, lambda l: sym_sum(b.e, lambda k: A.at(i, k) * B.at(l, l)) * Cc.at(l, j))
        prove('r', zden(P.at(i, j))(v) == zden((good_ if good else bad_)())(v))

    @case('while invariant', k)
    def _(m):
        n = fresh_int('n', 0)

        class Inv:
            def check(self, st, kk, tag):
                prove('inv.' + tag, z3.And(0 <= zint(st['i']), zint(st['i']) <= (n.e if good else n.e - 1)))

            def havoc(self, st, kk):
                st['i'] = fresh_int('i', 0)
                assume(st['i'].e <= (n.e if good else n.e - 1))
        ctx().invs['toy:wloop:1'] = Inv()
        prove('r', zint(m.wloop(n)) == n.e)

    @case('swap', k)
    def _(m):
        n, l, g = lst(1)
        i, j = fresh_int('i', 0), fresh_int('j', 0)
        assume(z3.And(i.e < n.e, j.e < n.e))
        r = m.swap(l, i, j)
        forall_elem('r', r, n.e, lambda q: ite(q == i.e, g(j.e), ite(q == j.e, g(i.e) if good else g(j.e), g(q))))

    @case('aliasing', k)
    def _(m):
        n, l, g = lst(1)
        i = fresh_int('i', 0)
        assume(i.e < n.e)
        r = m.clobber(l, i)
        forall_elem('r', r, n.e, lambda q: ite(q == i.e, 0, g(q)) if good else g(q))


@case('last of a loop', 'not proved')
def _(m):
    n, l, g = lst(1)
    v = valuation()
    prove('r', zden(m.last(l))(v) == zden(g(z3.IntVal(0)))(v))


@case('insert at the head', 'not proved')
def _(m):
    n, l, g = lst(1)
    forall_elem('r', m.rev(l), n.e, lambda i: g(i))


@case('substitution capture', 'not proved')
def _(m):
    x, y = SSym(z3.Const('x', SymSort)), SSym(z3.Const('y', SymSort))
    v = valuation()
    e = (x + y).subs(VDict([(x, y), (y, x)]))
    prove('r', zden(e)(v) == zden(x + x)(v))


sys.exit(0 if all(R) else 1)
