"""pyvc.core - path exploration, obligations and symbolic scalars.

The verifier executes the *real* source text of /repo (loaded by pyvc.load with a
mechanical AST rewriting) on symbolic proxies.  A path is a sequence of decisions
taken by SBool.__bool__; explore() enumerates all feasible paths by re-execution.
Obligations are discharged by z3 (cvc5 as a second opinion on 'unknown').
"""
import itertools
import time
import z3

z3.set_param('model.compact', False)

SymSort = z3.DeclareSort('Sym')
Val = z3.ArraySort(SymSort, z3.RealSort())       # a valuation of the symbols


class Unsupported(Exception):
    """The code left the subset the engine interprets: undecided, never a violation."""


class PathEnd(BaseException):
    """The current path is finished (infeasible, or cut by a loop rule)."""


class Restart(BaseException):
    """Loop analysis learned something: explore again from scratch."""


class Ctx:
    """One execution path."""
    cur = None
    PROVE_MS = 20000
    DECIDE_MS = 3000

    def __init__(self, rep, prefix):
        self.rep = rep
        self.prefix = prefix
        self.decisions = []
        self.alts = []
        self.counter = itertools.count()
        self.solver = z3.Solver()           # quantifier-free assumptions
        self.solver.set('timeout', self.DECIDE_MS)
        self.assumed = []
        self.trail = []
        self.cache = {}
        self.approx = []        # over-approximations made on this path
        self.loop_occ = {}
        self.heap = []          # mutable proxies of this path
        self.tracked = []       # repository objects of this path
        self.facts = []         # universal facts of this path, to be instantiated by contracts (spec.instances)
        self.generics = {'v#'} | {'kc!%d' % d for d in range(12)}
        self.depth = 0          # nesting of bound indices
        self.soft = False
        self.hide = set()
        self.ground_branches = False     # decide branches with the quantifier-free assumptions only
        self.invs = {}
        self.scopes = [0]       # nested sub-explorations
        self.nscope = itertools.count(1)

    # ---- naming
    def name(self, base):
        return '%s!%d' % (base, next(self.counter))

    def push(self):
        self.solver.push()
        self.scopes.append(next(self.nscope))

    def pop(self):
        self.solver.pop()
        self.scopes.pop()

    # ---- assumptions
    def assume(self, f):
        if f is True:
            return
        f = z3.BoolVal(f) if isinstance(f, bool) else f
        self.assumed.append(f)
        if not has_quant(f):
            self.solver.add(f)
        self.cache.clear()

    QUANT_MS = 400

    def _check(self, f, ms=None):
        """satisfiability of assumptions + f: quantifier-free part first (its unsat is conclusive),
        then everything"""
        t0 = time.time()
        self.rep.queries += 1
        try:
            quant = [a for a in self.assumed if has_quant(a) and not (self.hide and self.hide & decls_of(a))]
            m = None
            r = z3.unknown
            if not has_quant(f):
                if ms:
                    self.solver.set('timeout', ms)
                self.solver.push()
                self.solver.add(f)
                r = self.solver.check()
                m = self.solver.model() if r == z3.sat else None
                self.solver.pop()
                if ms:
                    self.solver.set('timeout', self.DECIDE_MS)
                if r == z3.unsat or not quant:
                    return r, m
            full = z3.Solver()
            full.set('timeout', ms or self.QUANT_MS)
            full.add(*[a for a in self.assumed if not has_quant(a)])
            full.add(*quant)
            full.add(f)
            r = full.check()
            if r == z3.sat and self.hide:
                r = z3.unknown      # some assumptions were set aside
            return r, (full.model() if r == z3.sat else None)
        finally:
            self.rep.solver_s += time.time() - t0

    def _ground(self, f):
        t0 = time.time()
        self.rep.queries += 1
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        self.rep.solver_s += time.time() - t0
        return r

    def entails(self, f):
        """True iff assumptions |= f (unknown counts as False)."""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            k = ('feas',)
            if k not in self.cache:
                self.cache[k] = self._check(z3.BoolVal(True))[0] == z3.unsat
            return self.cache[k]
        k = f.get_id()
        if k not in self.cache:
            r = self._ground(z3.Not(f)) if self.ground_branches and not has_quant(f) else self._check(z3.Not(f))[0]
            self.cache[k] = (r == z3.unsat, f)
        return self.cache[k][0]

    def decide(self, f):
        """True / False when the assumptions settle f, else None."""
        if self.entails(f):
            return True
        if self.entails(z3.Not(f)):
            return False
        return None

    def feasible(self):
        if self.ground_branches:
            return self._ground(z3.BoolVal(True)) != z3.unsat
        return self._check(z3.BoolVal(True))[0] != z3.unsat

    def candidate(self):
        """a model of the assumptions, or in the ground mode of their quantifier-free part (only ever used to guess a value)"""
        if not self.ground_branches:
            return self._check(z3.BoolVal(True))
        t0 = time.time()
        self.rep.queries += 1
        r = self.solver.check()
        self.rep.solver_s += time.time() - t0
        return r, (self.solver.model() if r == z3.sat else None)

    SUMS_MAX = 2

    def sums_real(self, f):
        """sums are abstracted by functions known by lemmas only: a counterexample counts when it still exists with every sum
        involved written out over at most SUMS_MAX terms; returns the reason when it does not"""
        tab = {S.name(): (body, P, S, k) for body, P, S, k in self.__dict__.get('_sumtab', [])}
        if not tab:
            return None
        todo = [f] + [a for a in self.assumed if not has_quant(a)]
        seen, defs, involved = set(), [], False
        while todo and len(defs) < 400:
            x = todo.pop()
            if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            todo.extend(x.children())
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in tab:
                involved = True
                body, P, S, k = tab[x.decl().name()]
                args = x.children()
                m, par = args[-1], args[:-1]
                at = lambda q: z3.substitute(body, (k, z3.IntVal(q)), *zip(P, par))        # noqa
                t, acc = z3.RealVal(0), z3.RealVal(0)
                for q in range(self.SUMS_MAX):
                    acc = acc + at(q)
                    t = z3.If(m == q + 1, acc, t)
                d = z3.And(m <= self.SUMS_MAX, x == t)
                defs.append(d)
                todo.append(d)
        if not involved:
            return None
        r, _ = self._check(z3.And(z3.Not(f), *defs), ms=self.PROVE_MS)
        return None if r == z3.sat else 'counterexample not confirmed with sums of at most %d terms written out (%s)' % (self.SUMS_MAX, r)

    # ---- branching
    def choose(self, n, label=''):
        """Nondeterministic choice among n alternatives (all are explored)."""
        pos = len(self.decisions)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            d = 0
            for j in range(1, n):
                self.alts.append(tuple(self.decisions) + (j,))
        self.decisions.append(d)
        return d

    def branch(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        d = self.decide(f)
        if d is not None:
            return d
        r = self.choose(2) == 0
        self.assume(f if r else z3.Not(f))
        self.trail.append((str(f)[:120], r))
        return r

    # ---- obligations
    def prove(self, name, f, info=None):
        """Discharge obligation `name`: assumptions |= f."""
        self.rep.prove(self, name, f, info)


_DC = {}


def decls_of(f):
    """names of the uninterpreted functions and constants of a formula"""
    k = f.get_id()
    if k not in _DC:
        out, todo, seen = set(), [f], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                todo.extend(x.children())
        _DC[k] = (out, f)
    return _DC[k][0]


_HQ = {}


def has_quant(f):
    if not z3.is_expr(f):
        return False
    k = f.get_id()
    if k in _HQ:
        return _HQ[k][0]
    todo, seen, res = [f], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) and not x.is_lambda():
            res = True
            break
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    _HQ[k] = (res, f)
    return res


class Report:
    """Result of verifying one function/contract (all paths)."""

    def __init__(self, name):
        self.name = name
        self.obl = {}           # name -> dict(status, n, detail)
        self.paths = 0
        self.solver_s = 0.0
        self.queries = 0
        self.unsupported = []
        self.loops = {}         # persistent loop knowledge across restarts
        self.covers = {}
        self.assumptions = []
        self.unknown_retry = 0

    def _rec(self, name, status, detail=None):
        o = self.obl.setdefault(name, {'status': 'proved', 'n': 0, 'detail': None, 'backend': 'z3'})
        o['n'] += 1
        rank = {'proved': 0, 'unknown': 1, 'refuted': 2}
        if rank[status] > rank[o['status']]:
            o['status'] = status
            o['detail'] = detail

    def prove(self, ctx, name, f, info=None):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        g = z3.simplify(f)
        if z3.is_true(g):
            self._rec(name, 'proved')
            return True
        r, m = ctx._check(z3.Not(f), ms=ctx.PROVE_MS)
        if r == z3.unsat:
            self._rec(name, 'proved')
            return True
        if r == z3.sat:
            det = {'model': str(m)[:2000], 'path': ctx.trail[-12:], 'goal': str(g)[:1500]}
            if info:
                det['info'] = str(info)[:500]
            if getattr(ctx, 'soft', False):
                self._rec(name, 'unknown', dict(det, reason='loop invariant of the contract not preserved by this code'))
                return False
            why = ctx.sums_real(f)
            if why:
                self._rec(name, 'unknown', dict(det, reason=why))
                return False
            self._rec(name, 'refuted' if not ctx.approx else 'unknown',
                      det if not ctx.approx else dict(det, approx=[str(a) for a in ctx.approx]))
            return False
        # second opinion: cvc5 on the same query
        rr = cvc5_check([a for a in ctx.assumed if not (ctx.hide and has_quant(a) and ctx.hide & decls_of(a))] + [z3.Not(f)])
        if rr == 'unsat':
            self._rec(name, 'proved')
            self.obl[name]['backend'] = 'cvc5'
            return True
        self._rec(name, 'unknown', {'goal': str(g)[:1500], 'reason': 'z3 unknown, cvc5 %s' % rr})
        return False

    def fail(self, ctx, name, detail):
        """An outcome that is itself a violation of the contract on this path."""
        if ctx is not None and ctx.approx:
            self._rec(name, 'unknown', dict(detail, approx=[str(a) for a in ctx.approx]))
        else:
            self._rec(name, 'refuted', detail)

    def status(self):
        st = [o['status'] for o in self.obl.values()]
        if 'refuted' in st:
            return 'refuted'
        if self.unsupported or 'unknown' in st or not st:
            return 'unknown'
        return 'proved'


def cvc5_check(fs, ms=15000):
    import os
    import subprocess
    import tempfile
    s = z3.Solver()
    s.add(*fs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as h:
        h.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % ms, h.name], capture_output=True,
                           text=True, timeout=ms / 1000 + 10)
        out = r.stdout.strip().split('\n')[-1] if r.stdout.strip() else 'error'
        return out
    except Exception as e:      # noqa
        return 'error:%s' % e
    finally:
        os.unlink(h.name)


MAX_PATHS = 3000


def verify(name, harness, max_paths=MAX_PATHS, budget_s=240):
    """Run `harness(ctx)` on all paths; returns a Report."""
    rep = Report(name)
    t_end = time.time() + budget_s
    for attempt in range(60):
        rep.obl = {}
        rep.unsupported = []
        rep.paths = 0
        work = [()]
        restart = False
        while work:
            prefix = work.pop()
            ctx = Ctx(rep, prefix)
            Ctx.cur = ctx
            rep.paths += 1
            if rep.paths > max_paths or time.time() > t_end:
                rep.unsupported.append('path/time budget exhausted')
                work = []
                break
            try:
                harness(ctx)
            except PathEnd:
                pass
            except Restart:
                restart = True
                break
            except Unsupported as e:
                rep.unsupported.append(str(e)[:300])
            except RecursionError as e:
                rep.unsupported.append('recursion: %s' % e)
            except z3.Z3Exception as e:
                rep.unsupported.append('z3: %s' % e)
            finally:
                Ctx.cur = None
            work.extend(ctx.alts)
        if not restart:
            break
    else:
        rep.unsupported.append('loop analysis did not stabilise')
    return rep


def ctx():
    if Ctx.cur is None:
        raise Unsupported('symbolic value used outside of a verification run')
    return Ctx.cur


# --------------------------------------------------------------------------- #
# scalars

class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        return SBool(z3.And(self.e, zbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, zbool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        return SBool(self.e == zbool(o))

    def __hash__(self):
        raise Unsupported('hash of a symbolic boolean')

    def __repr__(self):
        return '<SBool>'


def zbool(v):
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported('not a boolean: %r' % type(v))


class SInt:
    """mathematical integer"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return '<SInt %s>' % self.e

    def __str__(self):
        return '<int>'

    def __format__(self, spec):
        return '<int>'

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        c = ctx()
        # a value settled by the path condition?
        r, m = c.candidate()
        if r == z3.sat:
            w = m.eval(self.e, model_completion=True)
            if z3.is_int_value(w) and c.entails(self.e == w):
                return w.as_long()
        raise Unsupported('symbolic integer used as a concrete index')

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def _bin(self, o, f, rf=None):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return SInt(f(self.e, z3.IntVal(o)))
        if isinstance(o, SInt):
            return SInt(f(self.e, o.e))
        if isinstance(o, float):
            return SReal(f(z3.ToReal(self.e), z3.RealVal(repr(o))))
        if isinstance(o, SReal):
            return SReal(f(z3.ToReal(self.e), o.e))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return NotImplemented
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __neg__(self):
        return SInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt(z3.If(self.e >= 0, self.e, -self.e))

    def _pos_div(self, d):
        if not ctx().entails(d > 0):
            raise Unsupported('division by an integer not known to be positive')

    def __floordiv__(self, o):
        d = zint(o)
        self._pos_div(d)
        return SInt(self.e / d)

    def __mod__(self, o):
        d = zint(o)
        self._pos_div(d)
        return SInt(self.e % d)

    def __rfloordiv__(self, o):
        self._pos_div(self.e)
        return SInt(zint(o) / self.e)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        self._pos_div(self.e)
        return SInt(zint(o) % self.e)

    def __truediv__(self, o):
        return SReal(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return SReal(zreal(o)) / self

    def _cmp(self, o, f):
        if isinstance(o, (int, SInt)):
            return SBool(f(self.e, zint(o)))
        if isinstance(o, (float, SReal)):
            return SBool(f(z3.ToReal(self.e), zreal(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.e
    if z3.is_int(v):
        return v
    raise Unsupported('not an integer: %r' % type(v))


def is_int(v):
    return isinstance(v, SInt) or (isinstance(v, int) and not isinstance(v, bool))


class SReal:
    """mathematical real (machine floats are treated as reals)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return '<SReal %s>' % self.e

    def __str__(self):
        return '<real>'

    def __format__(self, spec):
        return '<real>'

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def _bin(self, o, f):
        if isinstance(o, (int, float, SInt, SReal)):
            return SReal(f(self.e, zreal(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        if not isinstance(o, (int, float, SInt, SReal)):
            return NotImplemented
        d = zreal(o)
        if not ctx().entails(d != 0):
            raise Unsupported('real division by a quantity not known to be nonzero')
        return SReal(self.e / d)

    def __rtruediv__(self, o):
        return SReal(zreal(o)) / self

    def __neg__(self):
        return SReal(-self.e)

    def __pow__(self, k):
        if isinstance(k, int) and 0 <= k <= 4:
            r = SReal(z3.RealVal(1))
            for _ in range(k):
                r = r * self
            return r
        raise Unsupported('power')

    def __abs__(self):
        return SReal(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        if isinstance(o, (int, float, SInt, SReal)):
            return SBool(f(self.e, zreal(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r


def zreal(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        return z3.RealVal(repr(v))
    if isinstance(v, SInt):
        return z3.ToReal(v.e)
    if isinstance(v, SReal):
        return v.e
    raise Unsupported('not a real: %r' % type(v))


# --------------------------------------------------------------------------- #
# symbolic expressions (sympy.Expr stand-ins): denotation = valuation -> real

class SExpr:
    """den(v): z3 Real term, v a z3 array Sym -> Real."""
    _is_expr = True

    def __init__(self, den, **tags):
        self.den = den
        self.tags = tags

    def __repr__(self):
        return '<SExpr>'

    def __format__(self, spec):
        return '<expr>'

    def __hash__(self):
        raise Unsupported('hash of a symbolic expression')

    def __bool__(self):
        raise Unsupported('truth value of a symbolic expression')

    def _bin(self, o, f):
        try:
            d = zden(o)
        except Unsupported:
            return NotImplemented
        s = self.den
        return SExpr(lambda v: f(s(v), d(v)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        # total division, as in z3: the value at a zero divisor is unconstrained
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __neg__(self):
        s = self.den
        return SExpr(lambda v: -s(v))

    def __pow__(self, k):
        s = self.den
        if isinstance(k, int) and 0 <= k <= 4:
            def den(v):
                r = z3.RealVal(1)
                for _ in range(k):
                    r = r * s(v)
                return r
            return SExpr(den)
        if k == -1:
            return 1 / self
        raise Unsupported('power')

    def _rel(self, o, f):
        d = zden(o)
        s = self.den
        return SRel(lambda v: f(s(v), d(v)))

    def __lt__(self, o):
        return self._rel(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._rel(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._rel(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._rel(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, (str, type(None), tuple, list)):
            return False
        if isinstance(o, (int, float)) and o == 0 and getattr(self, 'fun', None) is not None:
            from . import domain
            return SBool(domain.ISZERO(self.fun))
        raise Unsupported('syntactic equality of symbolic expressions')

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.e)) if isinstance(r, SBool) else not r

    # ---- sympy API (assumed contracts on the dependency)
    def subs(self, *args, **kw):
        from . import domain
        return domain.expr_subs(self, *args, **kw)

    def diff(self, s):
        """Partial derivative: an opaque operator on denotations, d(e, s)(v)."""
        from . import domain
        return domain.expr_diff(self, s)

    def doit(self):
        return self

    def simplify(self):
        return self

    def copy(self):
        raise AttributeError('copy')

    @property
    def free_symbols(self):
        from . import domain
        return domain.expr_free_symbols(self)


class SSym(SExpr):
    """a sympy.Symbol: identity s (z3 term of sort Sym), value v[s]"""

    def __init__(self, s):
        self.s = s
        SExpr.__init__(self, lambda v: z3.Select(v, s))

    def __repr__(self):
        return '<SSym %s>' % self.s

    def __eq__(self, o):
        if isinstance(o, SSym):
            return SBool(self.s == o.s)
        return False

    def __ne__(self, o):
        if isinstance(o, SSym):
            return SBool(self.s != o.s)
        return True

    def __hash__(self):
        raise Unsupported('hash of a symbolic symbol')


class SRel:
    """relational / boolean sympy expression"""

    def __init__(self, den):
        self.den = den

    def __bool__(self):
        raise Unsupported('truth value of a symbolic relational')


def zden(v):
    if isinstance(v, SExpr):
        return v.den
    if isinstance(v, (int, float, SInt, SReal)):
        z = zreal(v)
        return lambda _: z
    raise Unsupported('not an expression: %r' % type(v))


class SStr:
    """prefix + str(symbol) + suffix"""

    def __init__(self, pre, sym, suf=''):
        self.pre, self.sym, self.suf = pre, sym, suf

    def __radd__(self, o):
        if isinstance(o, str):
            return SStr(o + self.pre, self.sym, self.suf)
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, str):
            return SStr(self.pre, self.sym, self.suf + o)
        return NotImplemented

    def __str__(self):
        return self.pre + '<sym>' + self.suf

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start == 1 and k.stop is None and not self.pre:
            return SStr('[1:]', self.sym, self.suf)
        raise Unsupported('symbolic string indexing')


class SOpaque:
    """value of an uninterpreted sort (identity only)"""

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SOpaque) and o.e.sort() == self.e.sort():
            return SBool(self.e == o.e)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.e)) if isinstance(r, SBool) else True

    def __hash__(self):
        raise Unsupported('hash of an opaque value')

    def __repr__(self):
        return '<SOpaque %s>' % self.e
