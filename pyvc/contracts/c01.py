"""C01 - structure matrix: J/R split, block accessors and mutators, for all dimensions."""
from ..spec import *

CORE = 'pyphs/core/core.py'
NAMES = ('x', 'w', 'y', 'cy', 'xl', 'xnl', 'wl', 'wnl')


@contract('C01.split', [CORE + ':Core.J', CORE + ':Core.R'],
          note='J = -J^T, R = R^T, M = J - R for every structure matrix of every size')
def split(L):
    s = SymCore(L)
    J, R = returns_normally('C01.split.total', s.core.J), returns_normally('C01.split.total', s.core.R)
    n, v = s.n, valuation()
    prove('shape', z3.And(J.m == n, J.n == n, R.m == n, R.n == n))
    i, j = skolem(), skolem()
    rng = z3.And(in_range(i, n), in_range(j, n))
    e = lambda A, p, q: zden(A.at(p, q))(v)
    prove('J_skew', z3.Implies(rng, e(J, i, j) == -e(J, j, i)))
    prove('R_symmetric', z3.Implies(rng, e(R, i, j) == e(R, j, i)))
    prove('M_is_J_minus_R', z3.Implies(rng, zden(s.M(i, j))(v) == e(J, i, j) - e(R, i, j)))
    cover('end')


def _get(part, a, b):
    def h(L):
        s = SymCore(L)
        B = returns_normally('total', getattr(s.core, part + a + b))
        (i0, i1), (j0, j1) = s.block(a), s.block(b)
        src = {'M': lambda p, q: s.M(p, q),
               'J': lambda p, q: (s.M(p, q) - s.M(q, p)) / 2,
               'R': lambda p, q: -(s.M(p, q) + s.M(q, p)) / 2}[part]
        forall_entry('block', B, i1 - i0, j1 - j0, lambda p, q: src(p + i0, q + j0))
        i, j = skolem(), skolem()
        prove('frame', z3.Implies(z3.And(in_range(i, s.n), in_range(j, s.n)),
                                  zden(s.core.M.at(i, j))(valuation()) == zden(s.M(i, j))(valuation())))
        cover('end')
    return h


def _set(part, a, b):
    def h(L):
        s = SymCore(L)
        (i0, i1), (j0, j1) = s.block(a), s.block(b)
        new = fresh_mat('new', SInt(z3.simplify(i1 - i0)), SInt(z3.simplify(j1 - j0)))
        N = new.at
        v = valuation()
        e = lambda x: zden(x)(v)
        if a == b and part != 'M':
            # mirroring: the written diagonal block has to have the parity of the part
            p, q = z3.Ints('p? q?')
            f = z3.ForAll([p, q], e(N(p, q)) == (-1 if part == 'J' else 1) * e(N(q, p)))
            assume(f)
        returns_normally('total', lambda: getattr(s.core, 'set_' + part + a + b)(new))
        M2 = s.core.M
        prove('shape', z3.And(M2.m == s.n, M2.n == s.n))
        m2 = lambda p, q: e(M2.at(p, q))
        m1 = lambda p, q: e(s.M(p, q))
        J = lambda f: (lambda p, q: (f(p, q) - f(q, p)) / 2)
        R = lambda f: (lambda p, q: -(f(p, q) + f(q, p)) / 2)
        i, j = skolem(), skolem()
        rng = z3.And(in_range(i, s.n), in_range(j, s.n))
        inb = z3.And(i >= i0, i < i1, j >= j0, j < j1)
        inT = z3.And(j >= i0, j < i1, i >= j0, i < j1)
        w = e(N(i - i0, j - j0))
        wT = e(N(j - i0, i - j0))
        get = {'M': m2, 'J': J(m2), 'R': R(m2)}[part]
        prove('reads_back', z3.Implies(inb, get(i, j) == w))
        if part == 'J':
            prove('mirror', z3.Implies(inT, get(i, j) == -wT))
            prove('other_part_unchanged', z3.Implies(rng, R(m2)(i, j) == R(m1)(i, j)))
        if part == 'R':
            prove('mirror', z3.Implies(inT, get(i, j) == wT))
            prove('other_part_unchanged', z3.Implies(rng, J(m2)(i, j) == J(m1)(i, j)))
        if part == 'M':
            prove('frame', z3.Implies(z3.And(rng, z3.Not(inb)), m2(i, j) == m1(i, j)))
        else:
            prove('frame', z3.Implies(z3.And(rng, z3.Not(z3.Or(inb, inT))), m2(i, j) == m1(i, j)))
        cover('end')
    return h


def overlap(a, b):
    """blocks designating overlapping index ranges without being equal (x / xl ...)"""
    return a != b and a[0] == b[0] and a != 'y' and {a, b} not in ({'xl', 'xnl'}, {'wl', 'wnl'}) and a[0] in 'xw'


for _p in 'MJR':
    for _a in NAMES:
        for _b in NAMES:
            contract('C01.get_%s%s%s' % (_p, _a, _b),
                     [CORE + ':Core._build_get_mat', CORE + ':Core.' + _p, 'pyphs/core/structure/dimensions.py',
                      'pyphs/core/structure/indices.py', 'pyphs/misc/tools.py:geteval'],
                     note='block accessor %s%s%s' % (_p, _a, _b))(_get(_p, _a, _b))
            if not overlap(_a, _b):
                contract('C01.set_%s%s%s' % (_p, _a, _b),
                         [CORE + ':Core._build_set_mat', CORE + ':Core._build_get_mat', 'pyphs/core/structure/indices.py'],
                         note='block mutator set_%s%s%s' % (_p, _a, _b))(_set(_p, _a, _b))
