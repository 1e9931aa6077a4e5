import math
import numpy as np
import sympy as sp
from fw import obligation
from lib import *
from interp import Interp

CFG = [(s, th, g) for s in (True, False) for th in (0., .5) for g in ('discret', 'theta', 'trapez')]
ARGN = ('x', 'dx', 'w', 'u', 'p', 'o')


def build(t, k, **kw):
    Method, Numeric = t.imp('pyphs', 'Method', 'Numeric')
    sh = t.rng.choice([(1, 0, 1), (1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 0, 2), (3, 1, 1), (0, 2, 1), (2, 1, 0)])
    npar = t.rng.choice([0, 0, 1, 2])
    c, d = rand_core(t.rng, *sh, state_dep=t.rng.random() < .5, npar=npar, obs=t.rng.random() < .6)
    if t.rng.random() < .4:
        param_chain(t, c, d)
    s, th, g = kw.pop('cfg', None) or t.rng.choice(CFG)
    m = Method(c, config={'split': s, 'theta': th, 'grad': g})
    fs = kw.pop('fs', t.rng.choice([100., 1000., 8000.]))
    t.case(shape=sh, npar=npar, H=d['H'], z=d['z'], M=d['M'].tolist(), split=s, theta=th, grad=g, fs=fs, **kw)
    return m, fs, d


def flat(v):
    if isinstance(v, (int, float)):
        return [float(v)]
    return [float(q) for q in np.asarray(v, dtype=float).reshape(-1)]


def agree(t, got, exp, what, tol, **w):
    a, b = flat(got), flat(exp)
    ok = len(a) == len(b) and all((math.isnan(p) and math.isnan(q)) or abs(p - q) <= tol * (1 + abs(p) + abs(q))
                                  for p, q in zip(a, b))
    t.check(ok, what, got=a, expected=b, **w)


def names_of(m):
    return [n for n in m.update_actions_deps() if n not in m.args_names]


def start(m, fs, inits):
    it = Interp(m, fs)
    for k, v in inits.items():
        it.set(k, list(v))
    for n in names_of(m):
        it.get(n)
    return it


@obligation('C10', 'step', 'random methods (<=3 states, <=2 dissipations, both splittings, all gradients) x 4 steps x '
            '(maxit, eps) choices: every stored quantity after each step against an independent interpreter of the '
            'update actions', ['Numeric.update', 'Numeric._execs', 'Numeric._iterexecs', 'Numeric.build'], limit=240)
def step(t):
    Numeric = t.imp('pyphs', 'Numeric')
    for k in range(t.pick(14, 80)):
        maxit = t.rng.choice([1, 2, 3, 5, 40])
        eps = t.rng.choice([1e-11, 1e-11, 1e-3, 1e-1])
        m, fs, d = build(t, k, maxit=maxit, eps=eps)
        inits = {}
        if d['x']:
            inits['x'] = [t.rng.uniform(.3, .9) for _ in d['x']]
            if t.rng.random() < .5:
                inits['dx'] = [t.rng.uniform(.1, .2) for _ in d['x']]
        n = Numeric(m, inits=inits, config={'fs': fs, 'maxit': maxit, 'eps': eps})
        it = start(m, fs, inits)
        for s in range(4):
            u = [t.rng.uniform(-1, 1) for _ in d['u']]
            p = [t.rng.uniform(.2, 1) for _ in d['p']]
            try:
                its, res = it.step(u, p, eps=eps, maxit=maxit)
            except (OverflowError, ZeroDivisionError, ValueError):
                break
            if any(abs(v) > 1e3 for a in ('x', 'dx', 'w') for v in it.get(a)):
                break
            n.update(u=np.array(u), p=np.array(p))
            if its is not None:
                rs = [q for q in ('res_Fnl', 'step_Fnl') if q in it.mem]
                if any(abs(flat(it.mem[q])[0] - eps) < 1e-6 * eps + 1e-13 for q in rs):
                    break
                t.check(n.it <= maxit, 'never more iterations than the maximum', it=n.it)
            for a in ARGN:
                agree(t, getattr(n, a)(), it.get(a), 'value of %s after step %d' % (a, s), 1e-7, variable=a)
            for a in names_of(m):
                agree(t, getattr(n, a)(), it.get(a), 'value of %s after step %d' % (a, s), 1e-5, variable=a)


@obligation('C10', 'advance_first', 'random methods: after one step x is exactly the previous x plus the previous dx, whatever the '
            'values of everything else', ['Numeric.update', 'Method.update_actions'], limit=150)
def advance(t):
    Numeric = t.imp('pyphs', 'Numeric')
    for k in range(t.pick(8, 40)):
        m, fs, d = build(t, k)
        if not d['x']:
            continue
        n = Numeric(m, config={'fs': fs, 'maxit': 20, 'eps': 1e-12})
        x0 = np.array([t.rng.uniform(.3, .9) for _ in d['x']])
        dx0 = np.array([t.rng.uniform(-.2, .2) for _ in d['x']])
        n.set_x(x0)
        n.set_dx(dx0)
        for s in range(3):
            x0, dx0 = n.x().copy(), n.dx().copy()
            n.update(u=np.array([t.rng.uniform(-.3, .3) for _ in d['u']]), p=np.array([.5 for _ in d['p']]))
            agree(t, n.x(), x0 + dx0, 'the state is the previous state plus the previous increment', 1e-13, step=s)


@obligation('C10', 'accessors', 'random methods: every named argument written with fresh values reads back, every other entry of the '
            'argument vector unchanged; positions are those of the symbols', ['getarg_generator', 'setarg_generator',
                                                                              'getfunc_generator', 'setfunc_generator',
                                                                              'Numeric._build_arg'], limit=150)
def access(t):
    Numeric = t.imp('pyphs', 'Numeric')
    for k in range(t.pick(8, 40)):
        m, fs, d = build(t, k)
        n = Numeric(m, config={'fs': fs})
        allsy = list(m.args())
        for name in m.args_names:
            a = getattr(m, name)
            sy = list(a() if callable(a) else a)
            base = np.array([t.rng.uniform(-1, 1) for _ in allsy])
            n.args[:] = base
            agree(t, getattr(n, name)(), [base[allsy.index(s)] for s in sy], 'reading a named variable', 0, variable=name)
            val = np.array([t.rng.uniform(2, 3) for _ in sy])
            getattr(n, 'set_' + name)(val)
            exp = [val[sy.index(s)] if s in sy else base[i] for i, s in enumerate(allsy)]
            agree(t, n.args, exp, 'writing a named variable touches exactly its entries', 0, variable=name)
            agree(t, getattr(n, name)(), val, 'reads back', 0, variable=name)
        for name in names_of(m):
            others = {q: flat(getattr(n, q)()) for q in names_of(m) if q != name}
            args = flat(n.args)
            v = getattr(n, name)() * 0 + 7.25
            getattr(n, 'set_' + name)(v)
            agree(t, getattr(n, name)(), v, 'stored evaluation reads back', 0, variable=name)
            for q, o in others.items():
                agree(t, getattr(n, q)(), o, 'writing %s leaves %s' % (name, q), 0)
            agree(t, n.args, args, 'writing an evaluation leaves the arguments', 0)


@obligation('C10', 'evaluations', 'random methods: every evaluation at random argument values (positive and negative) against an '
            'independent evaluator: each symbol gets its own value', ['evalfunc_generator', 'evalop_generator',
                                                                      'Numeric._build_eval'], limit=200)
def evals(t):
    Numeric = t.imp('pyphs', 'Numeric')
    for k in range(t.pick(10, 60)):
        m, fs, d = build(t, k)
        n = Numeric(m, config={'fs': fs})
        for r in range(3):
            vals = [t.rng.uniform(-1, 1) if r else t.rng.uniform(.1, 1) for _ in m.args()]
            n.args[:] = vals
            it = Interp(m, fs, {})
            for s, v in zip(m.args(), vals):
                it.env[s] = v
            for name in names_of(m):
                if name in m.ops_names:
                    continue
                try:
                    e = it.eval(name)
                except (ZeroDivisionError, OverflowError, ValueError):
                    continue
                if any(not abs(v) < 1e9 for v in flat(e)):
                    continue
                agree(t, getattr(n, name + '_eval')(), e, 'evaluation of ' + name, 1e-8, name=name)
                getattr(n, 'set_' + name)(getattr(n, name + '_eval')())
                it.set(name, e)
            for name in names_of(m):
                if name in m.ops_names:
                    try:
                        e = it.eval(name)
                    except (ZeroDivisionError, OverflowError, ValueError, KeyError):
                        break
                    if any(not abs(v) < 1e9 for v in flat(e)):
                        break
                    agree(t, getattr(n, name + '_eval')(), e, 'evaluation of operation ' + name, 1e-5, name=name)
                    getattr(n, 'set_' + name)(getattr(n, name + '_eval')())
                    it.set(name, e)


@obligation('C10', 'inits_and_defaults', 'random methods: initial values land in the named variable only, wrong shapes are rejected, '
            'missing inputs and parameters are zero, given ones are loaded', ['Numeric.init', 'Numeric.update',
                                                                              'Numeric.__init__'], limit=150)
def inits(t):
    Numeric = t.imp('pyphs', 'Numeric')
    for k in range(t.pick(10, 40)):
        m, fs, d = build(t, k)
        allsy = list(m.args())
        names = [q for q in ('x', 'dx', 'w', 'u', 'p', 'o') if len(list(getattr(m, q)() if callable(getattr(m, q)) else
                                                                        getattr(m, q)))]
        sel = [q for q in names if t.rng.random() < .6]
        ini, exp = {}, [0.] * len(allsy)
        for q in sel:
            a = getattr(m, q)
            sy = list(a() if callable(a) else a)
            ini[q] = [t.rng.uniform(-1, 1) for _ in sy]
            for s, v in zip(sy, ini[q]):
                exp[allsy.index(s)] = v
        keep = {q: list(v) for q, v in ini.items()}
        n = Numeric(m, inits=ini, config={'fs': fs, 'maxit': 1})
        agree(t, n.args, exp, 'initial values land in the named variables only', 0, inits=ini)
        t.eq(ini, keep, "the caller's initial values are untouched")
        t.eq(m.subs[m.fs], fs, 'sample rate of the numerical object')
        for q in names:
            a = getattr(m, q)
            t.raises('initial value of the wrong size', TypeError, Numeric, m,
                     inits={q: [0.] * (len(list(a() if callable(a) else a)) + 1)}, config={'fs': fs})
        t.raises('unknown configuration key', AttributeError, Numeric, m, config={'nosuchkey': 1})
        if d['u']:
            n.set_u(np.array([.3] * len(d['u'])))
        if d['p']:
            n.set_p(np.array([.3] * len(d['p'])))
        n.update()
        agree(t, n.u(), [0.] * len(d['u']), 'missing inputs are zero', 0)
        agree(t, n.p(), [0.] * len(d['p']), 'missing parameters are zero', 0)
        u, p = [t.rng.uniform(-1, 1) for _ in d['u']], [t.rng.uniform(.1, 1) for _ in d['p']]
        n.update(u=np.array(u), p=np.array(p))
        agree(t, n.u(), u, 'inputs are loaded', 0)
        agree(t, n.p(), p, 'parameters are loaded', 0)


@obligation('C10', 'stopping_rule', 'scripted residuals/progress (all short sequences over {above, below} tolerance) x maxit 0..4: '
            'number of executed iterations', ['Numeric._iterexecs'], limit=60)
def stop(t):
    import itertools
    Numeric = t.imp('pyphs', 'Numeric')
    m, fs, d = build(t, 0)
    for maxit in range(5):
        for eps, seq in itertools.product([.5, 1e-3], itertools.product([(1., 1.), (0., 1.), (1., 0.)], repeat=3)):
            for r0 in (1., 0.):
                n = Numeric.__new__(Numeric)
                n.method, n.config = m, {'eps': eps, 'maxit': maxit}
                st = dict(res=r0, step=0., done=0)
                n.res = lambda: (1.4 * st['res'] + .3) * eps
                n.stp = lambda: st['step'] if st['step'] == 1. and not st['done'] else (1.4 * st['step'] + .3) * eps
                n.set_stp = lambda v: st.__setitem__('step', v)

                def go():
                    r, p = seq[st['done']] if st['done'] < 3 else (1., 1.)
                    st['res'], st['step'] = r, p
                    st['done'] += 1
                    return 0.
                n.set_foo, n.foo_eval = (lambda v: None), go
                n.label = 'x'
                t.case(maxit=maxit, eps=eps, residuals=seq, initial=r0)
                try:
                    n._iterexecs(['foo'], 'res', 'stp')
                except AttributeError as e:
                    from fw import Skip
                    raise Skip(str(e))
                exp, r, p = 0, r0, 1.
                while r > .5 and p > .5 and exp < maxit:
                    r, p = seq[exp] if exp < 3 else (1., 1.)
                    exp += 1
                t.eq(st['done'], exp, 'number of iterations of the implicit solver')
