import copy
import os
import sympy as sp
from fw import obligation
from lib import *


def full_core(t):
    """a core with every kind of content"""
    r = t.rng
    nx, nw, ny = r.choice([(2, 2, 2), (3, 1, 2), (1, 2, 3), (2, 0, 2), (0, 2, 2)])
    c, d = rand_core(r, nx, nw, ny, npar=r.choice([0, 1]), obs=r.random() < .7, couple=r.random() < .5)
    c.label = 'lab%d' % r.randrange(100)
    a, b = S('alpha'), S('beta')
    c.subs.update({a: 1.5, b: 2 * a, S('zero'): 0, S('zerof'): 0.})
    steps = []
    if nw and r.random() < .5:
        c.force_wnl.append(c.w[0])
        steps.append('force_wnl')
    if r.random() < .6:
        c.linear_nonlinear()
        steps.append('linear_nonlinear')
        if r.random() < .5:
            c.monovar_multivar()
            steps.append('monovar_multivar')
    if r.random() < .6:
        c.add_connector((c.dims.y() - 2, c.dims.y() - 1), alpha=S('kappa'))
        steps.append('connector')
    if r.random() < .3 and nx:
        c.setexpr('extra', [c.x[0]**2, sp.Integer(3)])
        steps.append('extra expression')
    t.case(shape=(nx, nw, ny), steps=steps, H=d['H'], z=d['z'])
    return c


def snap(c):
    """everything observable, as plain comparable data"""
    out = dict(label=c.label)
    for n in sorted(c.symbs_names):
        out['symb ' + n] = [str(s) for s in getattr(c, n)]
    for n in sorted(c.exprs_names):
        out['expr ' + n] = flat(getattr(c, n))
    for n in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p'):
        out[n] = [str(s) for s in getattr(c, n)]
        out[n + ' assumptions'] = [s.is_real for s in getattr(c, n)]
    out['M'] = flat(c.M)
    out['z'] = flat(c.z)
    out['H'] = flat(c.H)
    out['subs'] = {str(k): str(v) for k, v in c.subs.items()}
    out['observers'] = [(str(k), str(v)) for k, v in c.observers.items()]
    out['connectors'] = [sorted((k, str(v)) for k, v in q.items()) for q in c.connectors]
    out['force_wnl'] = [str(s) for s in c.force_wnl]
    out['_dxH'] = flat(c._dxH)
    out['dxH'] = flat(c.dxH())
    for q in ('_xl', '_wl', '_xnl_mono'):
        out['dims' + q] = getattr(c.dims, q, None)
    for q in ('xl', 'xnl', 'wl', 'wnl'):
        out['part ' + q] = [str(s) for s in getattr(c, q)()]
    return out


def flat(e):
    if e is None:
        return None
    if callable(e):
        e = e()
    if isinstance(e, (list, tuple)):
        return [str(sp.sympify(q)) for q in e]
    if hasattr(e, 'shape'):
        return (tuple(e.shape), [str(q) for q in sp.Matrix(e)])
    return str(sp.sympify(e))


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def mutations():
    def add_st(c):
        c.add_storages([S('xnew')], S('xnew')**2)

    def add_d(c):
        c.add_dissipations([S('wnew')], [2 * S('wnew')])

    def add_p(c):
        c.add_ports([S('unew')], [S('ynew')])

    def add_par(c):
        c.add_parameters([S('pnew')])

    def obs(c):
        c.add_observer({S('onew'): S('alpha') + 1})

    def msub(c):
        if c.M.shape[0]:
            c.M[0, 0] = S('mnew')

    def setblock(c):
        if c.dims.x():
            c.set_Mxx(sp.SparseMatrix(sp.ones(c.dims.x())))

    def subs(c):
        c.subs[S('gamma')] = 3
        c.subs.pop(S('alpha'), None)

    def sub(c):
        c.substitute(selfall=True)

    def force(c):
        c.force_wnl.append(S('nothere'))

    def lin(c):
        c.linear_nonlinear()

    def red(c):
        c.reduce_z()

    def conn(c):
        if c.connectors:
            c.connect()

    def addc(c):
        if c.dims.y() >= 2:
            c.add_connector((0, 1), alpha=S('knew'))

    def alpha(c):
        for q in c.connectors:
            q['alpha'] = S('knew')

    def ends(c):
        for q in c.connectors:
            q['u'][0], q['y'][0] = S('uend'), S('yend')

    def law(c):
        if c.z:
            c.z[0] = S('lawnew')
        c.H = c.H + 1

    def move(c):
        if c.dims.x() > 1:
            c.move_storage(0, 1)
        if c.dims.w() > 1:
            c.move_dissipative(0, 1)
        if c.dims.y() > 1:
            c.move_port(0, 1)

    def symb(c):
        if c.x:
            c.x[0] = S('xren')
        c.label = 'other'
        c.setexpr('extra2', [S('q')])
        if 'extra' in c.exprs_names:
            c.extra[0] = S('q')

    def simp(c):
        c.simplify()

    def obsv(c):
        for k in c.observers:
            c.observers[k] = S('q')

    return [add_st, add_d, add_p, add_par, obs, msub, setblock, subs, sub, force, lin, red, conn, addc, alpha, ends, law, move, symb,
            simp, obsv]


def mutate(f, c):
    """apply a change; a change that is impossible on this core is no change"""
    try:
        f(c)
        return True
    except (ValueError, AssertionError, IndexError, AttributeError, TypeError, ZeroDivisionError, Exception):
        return False


def clones(t, c, k):
    Core = t.imp('pyphs', 'Core')
    yield 'copy', copy.copy(c)
    yield 'method copy', c.__copy__()
    folder = os.path.join(os.getcwd(), 'f%d' % k)
    os.mkdir(folder)
    c.save(folder=folder)
    n = Core(label=c.label)
    n.load(folder=folder)
    yield 'save/load', n
    c.save(folder=folder, label='second')
    n = Core()
    n.load(folder=folder, label='second')
    n.label = c.label
    yield 'save/load (label)', n


@obligation('C14', 'faithful', 'random cores with every kind of content (partition, connectors, observers, stored parameters, extra '
            'expressions), copied and saved/loaded', ['Core.__copy__', 'Core.save', 'Core.load'], limit=150)
def faithful(t):
    for k in range(t.pick(30, 120)):
        c = full_core(t)
        s = snap(c)
        for how, n in clones(t, c, k):
            d = diff(s, snap(n))
            t.check(not d, how + ': same content', difference=d)
            t.check(not diff(s, snap(c)), how + ' leaves the original as it was', difference=diff(s, snap(c)))
            for fn in (lambda q: q.output(), lambda q: q.J(), lambda q: q.R(), lambda q: q.args()):
                try:
                    e = flat(fn(c))
                except Exception:       # noqa
                    continue
                t.eq(flat(fn(n)), e, how + ': same derived quantities')


@obligation('C14', 'independent', 'random cores x every mutation of the public interface applied to the copy (or to the original): the '
            'other one is unchanged', ['Core.__copy__', 'Core.load'], limit=280)
def independent(t):
    muts = mutations()
    for k in range(t.pick(5, 30)):
        for how in range(3):
            for f in muts:
                for side in (0, 1):
                    if how != 0 and t.rng.random() < t.pick(.85, .5):
                        continue
                    c = full_core(t)
                    n = None
                    if how == 0:
                        n = copy.copy(c)
                        name = 'copy'
                    else:
                        for name, n in clones(t, c, 1000 + k * 10000 + how * 1000 + muts.index(f) * 10 + side):
                            pass
                    a, b = (c, n) if side == 0 else (n, c)
                    s = snap(a)
                    t.ctx['mutation'], t.ctx['how'] = f.__name__, name
                    mutate(f, b)
                    d = diff(s, snap(a))
                    t.check(not d, '%s of the %s changes the other one' % (f.__name__, 'copy' if side == 0 else 'original'),
                            difference=d)
