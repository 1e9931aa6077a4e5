"""pyvc.loops - rule for `for` loops over sequences of symbolic length.

The body of the loop (real code) is run once from a generic state "after k iterations";
template invariants are guessed from the effect of one iteration and then *checked* to be
inductive (guess/check; an invariant that is not inductive is never used):

  unchanged | int: a0 + d*k | sum: a0 + sum_{j<k} f(j) | list append: l0 ++ [e(0),...,e(k-1)]
  pointwise update: entry number start+j is final after iteration j (lists, matrix rows/columns)
  dictionary: k entries added | undefined (temporary of the body)

After the loop the state is the template at k = n.  Paths leaving the loop early (break,
return, exception) are explored separately from a generic iteration.
"""
import z3
from . import core as C
from . import domain as D
from .core import Unsupported, PathEnd, Restart, SInt, SReal, SBool, SExpr, SSym, SOpaque, ctx, zint, is_int
from .domain import VList, VDict, SMat, subst, ite, in_range


class SubExit(BaseException):
    def __init__(self, owner):
        self.owner = owner


class Undef:
    """value of a local not defined at this point"""
    def _no(self, *a, **k):
        raise Unsupported('use of a loop temporary outside of its iteration')
    __getattr__ = __call__ = __add__ = __radd__ = __getitem__ = __bool__ = __iter__ = __len__ = __eq__ = _no
    __hash__ = None


UNDEF = Undef()


class State:
    """local variables of the loop, by name"""
    def __init__(self, loop):
        self.loc = {nm: v for (nm, _), v in zip(loop.readers, loop.read())}

    def __getitem__(self, k):
        if k not in self.loc or self.loc[k] is UNDEF:
            raise Unsupported('loop variable %s not found' % k)
        return self.loc[k]

    def __setitem__(self, k, v):
        if k not in self.loc:
            raise Unsupported('loop variable %s not found' % k)
        self.loc[k] = v


def soft(f):
    """obligations on a loop invariant: a failure leaves the contract undecided, it is not a violation by itself"""
    c = ctx()
    sv = getattr(c, 'soft', False)
    c.soft = True
    try:
        return f()
    finally:
        c.soft = sv


class While:
    """while loop: run natively, or by the invariant of the contract"""
    def __init__(self, readers, loc):
        self.readers, self.loc = readers, loc
        self.inv = ctx().__dict__.get('invs', {}).get(loc) if C.Ctx.cur is not None else None
        self.phase = 'start'
        self.sym = self.inv is not None
        self.vals = None

    read = None

    def top(self):
        if self.inv is None:
            return
        st = State(self)
        if self.phase == 'start':
            soft(lambda: self.inv.check(st, None, 'established'))
            self.inv.havoc(st, None)
            c = ctx()
            c.approx.append('state after the invariant of loop %s' % self.loc)
            self.vals = tuple(st.loc[nm] for nm, _ in self.readers)
            if not ctx().feasible():
                raise PathEnd()
            self.phase = 'body'
            return
        soft(lambda: self.inv.check(st, None, 'preserved'))
        raise PathEnd()


class Loop:
    def __init__(self, it, readers, loc):
        from .load import _issym, _seq
        self.readers = readers
        self.loc = loc
        self.sym = _issym(it)
        self.inv = ctx().__dict__.get('invs', {}).get(loc) if C.Ctx.cur is not None else None
        if self.inv is not None:
            self.sym = True
            self.n, self.g = _seq(it)
            self.phase = 'inv'
            return
        if not self.sym:
            self.it = iter(it)
            return
        self.n, self.g = _seq(it)
        self.phase = 'init'
        self.vals = None

    def __iter__(self):
        return self

    # ------------------------------------------------------------------ state
    def read(self):
        out = []
        for name, f in self.readers:
            try:
                out.append(f())
            except NameError:
                out.append(UNDEF)
        return out

    def objs(self, vals):
        seen, out = set(), []

        def add(o):
            if id(o) in seen:
                return
            mod = getattr(type(o), '__module__', '')
            if hasattr(o, '__dict__') and isinstance(mod, str) and mod.startswith('pyphs') and not isinstance(o, type):
                seen.add(id(o))
                out.append(o)
        for v in vals:
            add(v)
        for o in list(ctx().tracked):
            add(o)
        return out

    def capture(self):
        c = ctx()
        vals = self.read()
        heap = [(h, h.state()) for h in c.heap[:self.nheap]]
        attrs = {(i, a): v for i, o in enumerate(self.tobjs) for a, v in o.__dict__.items()}
        return vals, heap, attrs

    # ------------------------------------------------------------------ protocol
    def __next__(self):
        if not self.sym:
            return next(self.it)
        if self.phase == 'init':
            return self.start()
        if self.phase == 'inv':
            return self.inv_start()
        if self.phase == 'inv-body':
            st = State(self)
            soft(lambda: self.inv.check(st, z3.simplify(self.k + 1), 'preserved'))
            raise PathEnd()
        if self.phase == 'sub':
            self.end_sub(True)
            return self.step_sub()
        if self.phase == 'resume':
            return self.step_sub()
        if self.phase == 'exit':
            raise PathEnd()         # normal completion of an iteration: covered by the invariant
        raise StopIteration

    def inv_start(self):
        """loop with an invariant of the contract: establish, arbitrary iteration, preserve"""
        c = ctx()
        st = State(self)
        soft(lambda: self.inv.check(st, z3.IntVal(0), 'established'))
        self.k = z3.Const(c.name('k'), z3.IntSort())
        c.assume(z3.And(0 <= self.k, self.k <= z3.If(self.n > 0, self.n, 0)))
        self.inv.havoc(st, self.k)
        c.approx.append('state after the invariant of loop %s' % self.loc)
        self.vals = tuple(st.loc[nm] for nm, _ in self.readers)
        if not c.feasible():
            raise PathEnd()
        if c.branch(self.k < self.n):
            self.phase = 'inv-body'
            return self.g(self.k)
        self.phase = 'done'
        raise StopIteration

    def start(self):
        c = ctx()
        self.k = z3.Const(c.name('k'), z3.IntSort())
        c.generics.add(self.k.decl().name())
        self.nheap = len(c.heap)
        vals = self.read()
        self.tobjs = self.objs(vals)
        self.nobj = len(self.tobjs)
        self.entry = self.capture()
        self.tmpl = {}
        self.round = 0
        self.exits = []
        return self.begin_round()

    def begin_round(self):
        self.round += 1
        if self.round > 6:
            raise Unsupported('no inductive template for the loop %s' % self.loc)
        self.work = [()]
        self.posts = []
        self.exits = []
        return self.step_sub()

    def step_sub(self):
        c = ctx()
        while True:
            if not self.work:
                r = self.finish_round()
                if r == 'again':
                    return self.begin_round()
                return self.final()
            prefix = self.work.pop()
            if len(self.posts) > 40:
                raise Unsupported('too many sub-paths in a loop body')
            self.saved = (c.decisions, c.alts, c.prefix, list(c.assumed))
            c.decisions, c.alts, c.prefix = [], [], prefix
            c.push()
            c.cache.clear()
            c.assume(in_range(self.k, self.n))
            self.mark = len(c.assumed)
            self.phase = 'sub'
            if not c.feasible():
                self.end_sub(False)
                continue
            self.install(self.k)
            return self.g(self.k)

    def end_sub(self, ok, exit=False):
        c = ctx()
        conds = c.assumed[self.mark:]
        cond = z3.And(*conds) if conds else z3.BoolVal(True)
        if ok:
            self.posts.append((cond, self.capture()))
        if exit:
            self.exits.append(cond)
        alts = c.alts
        c.decisions, c.alts, c.prefix, c.assumed = self.saved
        c.pop()
        c.cache.clear()
        del c.heap[self.nheap:]
        self.work.extend(alts)
        self.restore()
        self.phase = 'between'

    def leave(self):
        if not self.sym:
            return
        if self.phase == 'sub':
            raise SubExit(self)

    def exc(self, e):
        """exception while running the body; True: swallow it and go on"""
        if not self.sym or self.phase != 'sub':
            return False
        if isinstance(e, SubExit):
            if e.owner is not self:
                self.end_sub(False)
                return False
            self.end_sub(False, exit=True)
        elif isinstance(e, PathEnd):
            self.end_sub(False)
        elif isinstance(e, (Unsupported, Restart)) or not isinstance(e, Exception):
            self.end_sub(False)
            return False
        else:
            self.end_sub(False, exit=True)
        self.phase = 'resume'
        return True

    # ------------------------------------------------------------------ install / restore
    def restore(self):
        vals, heap, attrs = self.entry
        c = ctx()
        for h, st in heap:
            h.set_state(st)
        for i, o in enumerate(self.tobjs):
            o.__dict__.clear()
            o.__dict__.update({a: v for (j, a), v in attrs.items() if j == i})
        self.vals = tuple(vals)

    def install(self, k):
        """state after k iterations, according to the templates"""
        self.restore()
        vals, heap, attrs = self.entry
        nv = list(vals)
        for key, t in self.tmpl.items():
            kind = key[0]
            if kind == 'local':
                nv[key[1]] = t(k)
            elif kind == 'attr':
                setattr(self.tobjs[key[1]], key[2], t(k))
            else:
                heap[key[1]][0].set_state(t(k))
        self.vals = tuple(nv)

    # ------------------------------------------------------------------ inference
    def finish_round(self):
        c = ctx()
        if not self.posts:
            return 'done' if self.exits else 'done'
        vals0, heap0, attrs0 = self.entry
        pre_v, pre_h, pre_a = self.pre_state(self.k)
        items = []
        for i in range(len(vals0)):
            items.append((('local', i), vals0[i], pre_v[i], [p[1][0][i] for p in self.posts]))
        keys = set(attrs0)
        for p in self.posts:
            keys |= set(p[1][2])
        for key in sorted(keys, key=str):
            items.append((('attr',) + key, attrs0.get(key, UNDEF), pre_a.get(key, UNDEF),
                          [p[1][2].get(key, UNDEF) for p in self.posts]))
        for i, (h, st) in enumerate(heap0):
            items.append((('heap', i), st, pre_h[i], [p[1][1][i][1] for p in self.posts]))
        ok = True
        for key, e0, pre, posts in items:
            if all(self.same(pre, q) for q in posts):
                if key in self.tmpl:
                    # template says it changes: check the next value as well
                    if self.check(key, e0, posts):
                        continue
                    if all(q is pre for q in posts) or e0 is UNDEF:
                        del self.tmpl[key]
                        ok = False
                    continue
                continue
            if key in self.tmpl and self.check(key, e0, posts):
                continue
            self.tmpl[key] = self.guess(key, e0, pre, posts)
            ok = False
        return 'done' if ok else 'again'

    def pre_state(self, k):
        self.install(k)
        vals, heap, attrs = self.capture_installed()
        self.restore()
        return vals, heap, attrs

    def capture_installed(self):
        c = ctx()
        heap = [h.state() for h in c.heap[:self.nheap]]
        attrs = {(i, a): v for i, o in enumerate(self.tobjs) for a, v in o.__dict__.items()}
        return list(self.vals), heap, attrs

    @staticmethod
    def same(a, b):
        if a is b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(Loop.same(x, y) for x, y in zip(a, b))
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        return type(a) is type(b) and isinstance(a, (int, str, float)) and a == b

    def merged(self, posts):
        v = posts[-1]
        for (cond, _), w in zip(reversed(self.posts[:-1]), reversed(posts[:-1])):
            v = ite(cond, w, v)
        return v

    def fresh_check(self, val):
        """constants created during the iteration would not be functions of k"""
        bad = [x for x in D.fresh_consts(val, self.k)]
        if bad:
            raise Unsupported('value chosen inside a loop body: %s' % bad[:2])
        return val

    def guess(self, key, e0, pre, posts):
        k = self.k
        if key[0] == 'heap':
            h = self.entry[1][key[1]][0]
            return self.guess_heap(h, e0, pre, posts)
        if any(q is UNDEF for q in posts) or e0 is UNDEF:
            return lambda kk: UNDEF
        prev = self.tmpl.get(key)
        if isinstance(e0, (VList, SMat, VDict)):
            # rebinding: treat the bound object's state
            return self.guess_value(e0, pre, posts)
        post = self.merged(posts)
        if is_int(e0) and is_int(post):
            d = z3.simplify(zint(post) - zint(pre))
            if z3.is_int_value(d):
                return lambda kk: D._concrete(SInt(z3.simplify(zint(e0) + d * kk)))
            ds = [z3.simplify(zint(q) - zint(pre)) for q in posts]
            if all(z3.is_int_value(d) and d.as_long() in (0, 1) for d in ds) and not self.exits:
                cond = z3.Or(*[cd for (cd, _), d in zip(self.posts, ds) if d.as_long() == 1])
                if not D.fresh_in(cond, k):
                    R, _ = D.ranked(self.n, cond, k)
                    D.rank_step(R, self.n, cond, k)
                    return lambda kk: SInt(zint(e0) + R(kk))
            return lambda kk: UNDEF
        if isinstance(e0, (int, float, SInt, SReal, SExpr)) and isinstance(post, (int, float, SInt, SReal, SExpr)) \
                and not isinstance(e0, SSym):
            f = self.fresh_check(D.as_expr(post) - D.as_expr(pre))
            if isinstance(e0, SReal) or isinstance(post, SReal):
                pass
            c = ctx()
            fam = lambda q: subst(f, k, q)
            S = D.sum_family(self.n, fam)
            return lambda kk: D.as_expr(e0) + S(kk)
        return lambda kk: UNDEF

    def guess_value(self, e0, pre, posts):
        if all(isinstance(q, VList) for q in posts) and isinstance(e0, VList):
            st = self.guess_heap(VList, e0.state(), pre.state() if isinstance(pre, VList) else e0.state(),
                                 [q.state() for q in posts])

            def mk(kk):
                r = VList()
                r.set_state(st(kk))
                return r
            return mk
        if all(isinstance(q, SMat) for q in posts) and isinstance(e0, SMat):
            st = self.guess_heap(SMat, e0.state(), pre.state() if isinstance(pre, SMat) else e0.state(),
                                 [q.state() for q in posts])

            def mk(kk):
                r = e0.copy()
                r.zero_axiom = None
                r.set_state(st(kk))
                return r
            return mk
        return lambda kk: UNDEF

    def guess_heap(self, h, e0, pre, posts):
        cls = h if isinstance(h, type) else type(h)
        k = self.k
        if issubclass(cls, VList):
            def as_sym(st):
                l = VList()
                l.set_state(st)
                return l.zlen(), l.getter()
            n0, g0 = as_sym(e0)
            npre, gpre = as_sym(pre)
            ps = [as_sym(q) for q in posts]
            c = ctx()
            lens = [z3.simplify(p[0]) for p in ps]
            if not all(c.entails(z3.Implies(in_range(k, self.n), l == lens[0])) for l in lens[1:]):
                return self.selection(n0, g0, npre, ps, lens)
            d = z3.simplify(lens[0] - npre)
            if not z3.is_int_value(d):
                raise Unsupported('list length change not constant')
            d = d.as_long()

            def elem(q):
                return self.merged([p[1](q) for p in ps])
            if d == 1:
                e = self.fresh_check(elem(npre))
                if z3.is_int_value(z3.simplify(n0)) and z3.simplify(n0).as_long() == 0:
                    return lambda kk: self._liststate(n0 + kk, lambda q: subst(e, k, q))
                return lambda kk: self._liststate(n0 + kk, lambda q: ite(q < n0, g0(q), subst(e, k, q - n0)))
            if d == 0:
                off = self.offset()
                q0 = z3.Const(c.name('p'), z3.IntSort())
                c.generics.add(q0.decl().name())
                e = self.fresh_check(elem(q0))
                return lambda kk: self._liststate(n0, lambda q: ite(in_range(q - off, kk),
                                                                    subst(subst(e, k, q0 - off), q0, q), g0(q)))
            raise Unsupported('list growth by %d per iteration' % d)
        if issubclass(cls, SMat):
            c = ctx()
            m0, n0, g0 = e0[:3]
            for q in posts:
                if not (c.entails(q[0] == m0) and c.entails(q[1] == n0)):
                    raise Unsupported('matrix shape changes in a loop body')
            off = self.offset()
            p0, q0 = z3.Const(c.name('p'), z3.IntSort()), z3.Const(c.name('q'), z3.IntSort())
            c.generics.add(p0.decl().name())
            c.generics.add(q0.decl().name())
            e = self.fresh_check(self.merged([q[2](p0, q0) for q in posts]))
            axis = self.__dict__.setdefault('axis', {})
            hid = id(h)
            ax = axis.get(hid, -1) + 1
            axis[hid] = ax
            if ax == 0:
                return lambda kk: (m0, n0, lambda i, j: ite(
                    in_range(i - off, kk), subst(subst(subst(e, k, p0 - off), p0, i), q0, j), g0(i, j)))
            if ax == 1:
                return lambda kk: (m0, n0, lambda i, j: ite(
                    in_range(j - off, kk), subst(subst(subst(e, k, q0 - off), p0, i), q0, j), g0(i, j)))
            raise Unsupported('matrix update pattern')
        if issubclass(cls, VDict):
            d0, f0, p0 = e0
            for q in posts:
                if not (self.same(q[0], pre[0]) and self.same(q[1], pre[1]) and len(q[2]) == len(pre[2]) + 1
                        and self.same(q[2][:-1], pre[2])):
                    raise Unsupported('dictionary update pattern')
            kv = self.merged([q[2][-1] for q in posts])
            self.fresh_check(kv)
            return lambda kk: (d0, f0 + ((kk, lambda q: subst(kv[0], k, q), lambda q: subst(kv[1], k, q)),), p0)
        raise Unsupported('mutation of %r in a loop' % cls)

    def selection(self, n0, g0, npre, ps, lens):
        """list extended by one element in some iterations only"""
        c, k = ctx(), self.k
        ds = [z3.simplify(l - npre) for l in lens]
        if not all(z3.is_int_value(d) and d.as_long() in (0, 1) for d in ds) or self.exits:
            raise Unsupported('list length depends on the path in a loop body')
        app = [(cond, p) for (cond, _), p, d in zip(self.posts, ps, ds) if d.as_long() == 1]
        cond = z3.Or(*[cd for cd, _ in app])
        if D.fresh_in(cond, k):
            raise Unsupported('condition chosen inside a loop body')
        R, POS = D.ranked(self.n, cond, k)
        D.rank_step(R, self.n, cond, k)
        e = app[-1][1][1](npre)
        for cd, p in reversed(app[:-1]):
            e = ite(cd, p[1](npre), e)
        e = self.fresh_check(e)
        z0 = z3.simplify(n0)
        if z3.is_int_value(z0) and z0.as_long() == 0:
            return lambda kk: self._liststate(R(kk), lambda q: subst(e, k, POS(q)))
        return lambda kk: self._liststate(n0 + R(kk), lambda q: ite(q < n0, g0(q), subst(e, k, POS(q - n0))))

    @staticmethod
    def _liststate(n, at):
        return VList.sym(n, at).state()

    def offset(self):
        """value of the loop index at iteration 0 when iterating over a range, else 0"""
        try:
            x = self.g(z3.IntVal(0))
        except Exception:       # noqa
            return z3.IntVal(0)
        if isinstance(x, tuple) and x and is_int(x[0]):
            x = x[0]
        return zint(x) if is_int(x) else z3.IntVal(0)

    def check(self, key, e0, posts):
        """template at k+1 describes the state after the iteration (on every sub-path)"""
        t = self.tmpl[key](self.k + 1)
        if t is UNDEF:
            return True
        c = ctx()
        for (cond, _), post in zip(self.posts, posts):
            hyp = z3.And(in_range(self.k, self.n), cond)
            if key[0] == 'heap':
                h = self.entry[1][key[1]][0]
                if not self.eq_state(type(h), t, post, hyp):
                    return False
            elif isinstance(t, (VList, SMat)):
                if type(post) is not type(t) or not self.eq_state(type(t), t.state(), post.state(), hyp):
                    return False
            else:
                if post is UNDEF:
                    return False
                try:
                    f = D.veq(t, post, z3.Const('v#', C.Val))
                except Unsupported:
                    return False
                if not c.entails(z3.Implies(hyp, f)):
                    return False
        return True

    def eq_state(self, cls, a, b, hyp):
        c = ctx()
        v = z3.Const('v#', C.Val)
        if issubclass(cls, VList):
            la, lb = VList(), VList()
            la.set_state(a)
            lb.set_state(b)
            if not c.entails(z3.Implies(hyp, la.zlen() == lb.zlen())):
                return False
            q = z3.Const(c.name('q'), z3.IntSort())
            ga, gb = la.getter(), lb.getter()
            if c.entails(z3.Implies(hyp, la.zlen() == 0)):
                return True
            try:
                f = D.veq(ga(q), gb(q), v)
            except Unsupported:
                return False
            return c.entails(z3.Implies(z3.And(hyp, in_range(q, la.zlen())), f))
        if issubclass(cls, SMat):
            p, q = z3.Const(c.name('p'), z3.IntSort()), z3.Const(c.name('q'), z3.IntSort())
            f = D.veq(a[2](p, q), b[2](p, q), v)
            return c.entails(z3.Implies(z3.And(hyp, in_range(p, a[0]), in_range(q, a[1])), f))
        if issubclass(cls, VDict):
            # same number of families: compare the last one with the entry added
            if not (Loop.same(a[0], b[0])):
                return False
            n, ka, va = a[1][-1]
            kk, vv = b[2][-1]
            return c.entails(z3.Implies(hyp, z3.And(D.veq(ka(self.k), kk, v), D.veq(va(self.k), vv, v))))
        return False

    # ------------------------------------------------------------------ after the loop
    def final(self):
        c = ctx()
        choice = c.choose(2) if self.exits else 0
        if choice == 0:
            n = z3.simplify(z3.If(self.n >= 0, self.n, z3.IntVal(0))) if not c.entails(self.n >= 0) else self.n
            self.install(n)
            for cond in self.exits:
                if D.fresh_in(cond, self.k):
                    c.approx.append('exit condition of loop %s' % self.loc)
                    continue
                j = z3.Const(c.name('j'), z3.IntSort())
                c.assume(z3.ForAll([j], z3.Implies(in_range(j, self.n), z3.Not(z3.substitute(cond, (self.k, j))))))
            if not c.feasible():
                raise PathEnd()
            self.phase = 'done'
            raise StopIteration
        k = z3.Const(c.name('kx'), z3.IntSort())
        c.assume(in_range(k, self.n))
        for cond in self.exits:
            if D.fresh_in(cond, self.k):
                c.approx.append('exit condition of loop %s' % self.loc)
                continue
            j = z3.Const(c.name('j'), z3.IntSort())
            c.assume(z3.ForAll([j], z3.Implies(in_range(j, k), z3.Not(z3.substitute(cond, (self.k, j))))))
        if not c.feasible():
            raise PathEnd()
        self.install(k)
        self.phase = 'exit'
        return self.g(k)


While.read = Loop.read
