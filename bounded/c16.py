import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import sympy as sp
from fw import obligation, Skip, Violation
from lib import *
from interp import Interp
from c10 import flat, agree, names_of, start, CFG

ARGN = ('x', 'dx', 'w', 'u', 'p', 'o')
EIG = '/usr/include/eigen3'

MAIN = r'''
#include <cstdio>
#include <vector>
#include "core.h"
template<typename D> void pr(const char *n, const Eigen::MatrixBase<D> &m) {
    printf("%%s", n);
    for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) printf(" %%.17g", (double) m(i, j));
    printf("\n");
}
void pr(const char *n, double v) { printf("%%s %%.17g\n", n, v); }
void prv(const char *n, const std::vector<double> &v) { printf("%%s", n); for (size_t i = 0; i < v.size(); i++) printf(" %%.17g", v[i]); printf("\n"); }
void dump(const %(L)s &o) {
%(dump)s
}
int main() {
    %(L)s obj;
    dump(obj);
%(steps)s
    return 0;
}
'''


def need():
    if not os.path.isdir(EIG) or shutil.which('g++') is None:
        raise Skip('no C++ compiler or Eigen')


def build(t, k, cfg=None, params=True, sh=None, npar=None):
    """a random method with stored parameter values (one of them possibly depending on no variable)"""
    Method = t.imp('pyphs', 'Method')
    sh = sh or t.rng.choice([(1, 0, 1), (1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 0, 2), (3, 1, 1), (2, 1, 2), (1, 2, 1)])
    npar = t.rng.choice([0, 1, 2]) if npar is None else npar
    c, d = rand_core(t.rng, *sh, state_dep=t.rng.random() < .5, npar=npar, obs=t.rng.random() < .6)
    subs = {}
    if params:
        K, G, A = S('K'), S('G'), S('Alp')
        vals = [t.rng.uniform(.5, 2), t.rng.uniform(.5, 2), t.rng.uniform(.5, 2)]
        order = [K, G, A]
        t.rng.shuffle(order)
        subs = dict(zip(order, vals))
        c.H = c.H + K * d['x'][0]**2 / 2
        if d['w']:
            c.z = [c.z[0] + G * d['w'][0]] + list(c.z[1:])
        n = sum(sh)
        i, j = 0, n - 1
        if n > 1:
            M = sp.Matrix(c.M)
            M[i, j] += A
            M[j, i] -= A
            c.M = sp.SparseMatrix(M)
        used = {s: v for s, v in subs.items() if s == K or (s == G and d['w']) or (s == A and n > 1)}
        c.subs.update(used)
        subs = used
    s, th, g = cfg or t.rng.choice(CFG)
    m = Method(c, config={'split': s, 'theta': th, 'grad': g})
    fs = t.rng.choice([100., 1000., 8000., 44100.])
    return m, fs, d, subs, dict(shape=sh, npar=npar, H=c.H, z=c.z, M=sp.Matrix(c.M).tolist(), split=s, theta=th, grad=g, fs=fs,
                                subs=subs)


def cvec(v):
    return 'std::vector<double>{%s}' % ', '.join('%.17g' % q for q in v)


def generate(t, m, name, inits, cfgn, subs=None, seq=(), fscall=None, precall=''):
    f = t.imp('pyphs.numerics.cpp.method2cpp', 'method2cpp')
    path = os.path.join(os.getcwd(), name)
    f(m, objlabel='obj', path=path, inits=inits, config=cfgn, subs=subs)
    dump = ''
    for n in list(ARGN) + names_of(m):
        dump += '    pr("%s", o.%s());\n' % (n, n)
    for n in ARGN:
        dump += '    prv("%s_vector", o.%s_vector());\n' % (n, n)
    steps = precall
    if fscall is not None:
        steps += '    double rate = %.17g; obj.set_sampleRate(rate); dump(obj);\n' % fscall
    for u, p in seq:
        if len(u):
            steps += '    obj.set_u(%s);\n' % cvec(u)
        if len(p):
            steps += '    obj.set_p(%s);\n' % cvec(p)
        steps += '    obj.update(); dump(obj);\n'
    with open(os.path.join(path, 'main.cpp'), 'w') as h:
        h.write(MAIN % dict(L='OBJ', dump=dump, steps=steps))
    return path


def compile_run(path):
    p = subprocess.run(['g++', '-std=c++11', '-O0', '-w', '-DEIGEN_NO_DEBUG', '-I' + EIG, 'core.cpp', 'parameters.cpp', 'main.cpp',
                        '-o', 'prog'], cwd=path, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    if p.returncode:
        return None, p.stdout.decode(errors='replace')[-1500:]
    q = subprocess.run(['./prog'], cwd=path, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    out = q.stdout.decode(errors='replace')
    if q.returncode:
        return None, 'exit %d' % q.returncode + out[-500:]
    frames, cur = [], None
    for l in out.splitlines():
        w = l.split()
        if w[0] == 'x':
            cur = {}
            frames.append(cur)
        cur[w[0]] = [float(v) for v in w[1:]]
    return frames, None


def stored(m):
    """evaluations kept between actions: those only used to assign another variable are temporaries"""
    tmp = set()
    for kind, arg in m.update_actions:
        for c in (arg if kind == 'exec' else arg[0]):
            if not isinstance(c, str):
                tmp.add(c[1])
    return [n for n in names_of(m) if n not in tmp]


def compare(t, frame, it, m, step, tolf=1e-6):
    for a in ARGN:
        agree(t, frame[a], it.get(a), 'value of %s' % a, 1e-8, variable=a, step=step)
        agree(t, frame[a + '_vector'], it.get(a), 'value of %s read as a vector' % a, 1e-8, variable=a, step=step)
    for a in stored(m):
        agree(t, frame[a], it.get(a), 'value of %s' % a, tolf, variable=a, step=step)


def run_all(t, jobs):
    """jobs: list of (path, ctx, callback(frames))"""
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: compile_run(j[0]), jobs))
    for (path, ctx, cb), (frames, err) in zip(jobs, res):
        t.case(**ctx)
        t.check(frames is not None, 'the generated C++ compiles and runs', error=err)
        cb(frames)


def follow(m, fs, values, inits, seq, eps, maxit, cut=1e3):
    """snapshots of the independent interpreter: list of frozen Interp-like getters, up to a step that is not comparable"""
    it = Interp(m, fs, values)
    for k, v in inits.items():
        it.set(k, list(v))
    for n in names_of(m):
        it.get(n)
    snaps = [snap(it, m)]
    for u, p in seq:
        try:
            its, _ = it.step(u, p, eps=eps, maxit=maxit)
        except (OverflowError, ZeroDivisionError, ValueError):
            break
        if any(abs(v) > cut for a in ('x', 'dx', 'w') for v in it.get(a)):
            break
        rs = [q for q in ('res_Fnl', 'step_Fnl') if q in it.mem]
        if any(abs(flat(it.mem[q])[0] - eps) < 1e-6 * eps + 1e-13 for q in rs):
            break
        snaps.append(snap(it, m))
    return snaps


class Snap:
    def __init__(self, d):
        self.d = d

    def get(self, n):
        return self.d[n]


def snap(it, m):
    import copy
    return Snap({n: copy.deepcopy(it.get(n)) for n in list(ARGN) + names_of(m)})


def scenario(t, k, **kw):
    maxit = t.rng.choice([1, 2, 3, 5, 40])
    eps = t.rng.choice([1e-11, 1e-11, 1e-3, 1e-1])
    m, fs, d, subs, ctx = build(t, k, **kw)
    inits = {}
    if d['x'] and t.rng.random() < .8:
        inits['x'] = [t.rng.uniform(.3, .9) for _ in d['x']]
        if t.rng.random() < .5:
            inits['dx'] = [t.rng.uniform(.1, .2) for _ in d['x']]
    if d['u'] and t.rng.random() < .3:
        inits['u'] = [t.rng.uniform(-1, 1) for _ in d['u']]
    seq = [([t.rng.uniform(-1, 1) for _ in d['u']], [t.rng.uniform(.2, 1) for _ in d['p']]) for _ in range(4)]
    ctx.update(maxit=maxit, eps=eps, inits=inits)
    return m, fs, d, subs, ctx, inits, seq, maxit, eps


def steps_obl(t, n, kwf):
    need()
    jobs = []
    for k in range(n):
        m, fs, d, subs, ctx, inits, seq, maxit, eps = scenario(t, k, **kwf(k))
        keep = {q: list(v) for q, v in inits.items()}
        t.case(**ctx)
        path = generate(t, m, 'g%d' % k, {q: list(v) for q, v in inits.items()}, {'fs': fs, 'maxit': maxit, 'eps': eps}, None, seq)
        snaps = follow(m, fs, subs, keep, seq, eps, maxit)

        def cb(frames, snaps=snaps, m=m):
            for i, s in enumerate(snaps):
                compare(t, frames[i], s, m, i)
        jobs.append((path, ctx, cb))
    run_all(t, jobs)


@obligation('C16', 'step_python_split', 'random methods with the explicit/implicit splitting (<=3 states, <=2 dissipations, all gradients, '
            'stored parameters): every argument, function and operation of the compiled C++ object after construction and after each of 4 '
            'steps, for several (maxit, eps)', ['method2cpp', 'append_args', 'append_funcs', 'append_ops', 'append_update', 'iterate',
                                                'op2cpp'], limit=300)
def st1(t):
    steps_obl(t, t.pick(9, 40), lambda k: dict(cfg=(True,) + t.rng.choice([(th, g) for th in (0., .5) for g in ('discret', 'theta',
                                                                                                                 'trapez')])))


@obligation('C16', 'step_python_full', 'same without splitting', ['method2cpp', 'append_args', 'append_funcs', 'append_ops', 'append_update',
                                                                  'iterate', 'op2cpp'], limit=300)
def st2(t):
    steps_obl(t, t.pick(9, 40), lambda k: dict(cfg=(False,) + t.rng.choice([(th, g) for th in (0., .5) for g in ('discret', 'theta',
                                                                                                                  'trapez')])))


@obligation('C16', 'initial_values', 'random initial values of every argument with full double precision: exact values in the '
            'constructed object; the dictionary of the caller is unchanged', ['_append_args_data', '_append_args_init', 'method2cpp'],
            limit=200)
def ini(t):
    need()
    jobs = []
    for k in range(t.pick(4, 12)):
        m, fs, d, subs, ctx = build(t, k)
        inits = {}
        for n in ('x', 'dx', 'w', 'u', 'p'):
            sy = d['x'] if n == 'dx' else d[n]
            if sy and t.rng.random() < .8:
                inits[n] = [t.rng.uniform(.1, .2) for _ in sy]
        ctx['inits'] = dict(inits)
        t.case(**ctx)
        given = {q: list(v) for q, v in inits.items()}
        path = generate(t, m, 'i%d' % k, given, {'fs': fs}, None, [])
        t.check(all(list(given[q]) == v for q, v in inits.items()), 'initial values of the caller unchanged', before=inits, after=given)

        def cb(frames, inits=inits, d=d):
            for n in ('x', 'dx', 'w', 'u', 'p'):
                sy = d['x'] if n == 'dx' else d[n]
                agree(t, frames[0][n], inits.get(n, [0.] * len(sy)), 'initial value of ' + n, 1e-15, variable=n)
        jobs.append((path, ctx, cb))
    run_all(t, jobs)


@obligation('C16', 'parameters', 'given parameter values (one set in any key order, or several sets): the first set is the one used by the '
            'generated object; parameters defined from others', ['parameters', '_append_subs', 'append_parameters'], limit=250)
def pars(t):
    need()
    jobs = []
    for k in range(t.pick(6, 16)):
        m, fs, d, subs, ctx, inits, seq, maxit, eps = scenario(t, k)
        keys = [q for q in m.subs if q != m.fs]
        kind = k % 3
        if kind == 0:
            new = {q: t.rng.uniform(.5, 2) for q in t.rng.sample(keys, len(keys))}
            given, used = dict(new), new
        elif kind == 1:
            sets = [{q: t.rng.uniform(.5, 2) for q in keys} for _ in range(t.rng.choice([2, 3]))]
            given, used = [dict(q) for q in sets], sets[0]
        else:
            new = {q: t.rng.uniform(.5, 2) for q in t.rng.sample(keys, len(keys))}
            new = dict([(m.fs, fs)] + list(new.items()))
            given, used = dict(new), {q: v for q, v in new.items() if q != m.fs}
        ctx.update(given=given)
        t.case(**ctx)
        path = generate(t, m, 'p%d' % k, {q: list(v) for q, v in inits.items()}, {'fs': fs, 'maxit': maxit, 'eps': eps}, given, seq)
        snaps = follow(m, fs, used, inits, seq, eps, maxit)

        def cb(frames, snaps=snaps, m=m):
            for i, s in enumerate(snaps):
                compare(t, frames[i], s, m, i)
        jobs.append((path, ctx, cb))
    run_all(t, jobs)


@obligation('C16', 'sample_rate', 'changing the sample rate of the generated object gives the object generated with that sample rate',
            ['append_parameters', '_str_mat_func_update', 'append_init'], limit=250)
def rate(t):
    need()
    jobs = []
    for k in range(t.pick(4, 12)):
        m, fs, d, subs, ctx, inits, seq, maxit, eps = scenario(t, k)
        fs2 = fs * t.rng.choice([.5, 2., 3.])
        ctx.update(new_rate=fs2)
        t.case(**ctx)
        path = generate(t, m, 'r%d' % k, {q: list(v) for q, v in inits.items()}, {'fs': fs, 'maxit': maxit, 'eps': eps}, None, seq,
                        fscall=fs2)
        snaps = follow(m, fs2, subs, inits, seq, eps, maxit)

        def cb(frames, snaps=snaps, m=m):
            for i, s in enumerate(snaps):
                compare(t, frames[i + 1], s, m, i)
        jobs.append((path, ctx, cb))
    run_all(t, jobs)


@obligation('C16', 'mutators', 'random methods: each mutator (vector, matrix, element) of each argument changes exactly that argument',
            ['_append_args_mutators_vectors', '_append_args_mutators_matrix', '_append_args_mutators_elements'], limit=200)
def mut(t):
    need()
    jobs = []
    for k in range(t.pick(3, 10)):
        m, fs, d, subs, ctx = build(t, k)
        pre, exp = '', []
        state = {n: [0.] * len(d['x' if n == 'dx' else n]) for n in ('x', 'dx', 'w', 'u', 'p')}
        for n in ('x', 'dx', 'w', 'u', 'p'):
            sz = len(state[n])
            if not sz:
                continue
            for how in ('v', 'm', 'e'):
                if how == 'e':
                    i = t.rng.randrange(sz)
                    v = t.rng.uniform(.1, .9)
                    state[n] = list(state[n])
                    state[n][i] = v
                    pre += '    { double q = %.17g; unsigned int i = %d; obj.set_%s(q, i); dump(obj); }\n' % (v, i, n)
                else:
                    vals = [t.rng.uniform(.1, .9) for _ in range(sz)]
                    state[n] = vals
                    if how == 'v':
                        pre += '    obj.set_%s(%s); dump(obj);\n' % (n, cvec(vals))
                    else:
                        pre += '    { Matrix<double, %d, 1> q; %s obj.set_%s(q); dump(obj); }\n' % (
                            sz, ' '.join('q(%d, 0) = %.17g;' % (i, v) for i, v in enumerate(vals)), n)
                exp.append((n, how, {q: list(v) for q, v in state.items()}))
        t.case(**ctx)
        path = generate(t, m, 'm%d' % k, {}, {'fs': fs}, None, [], precall=pre)

        def cb(frames, exp=exp):
            for i, (n, how, st) in enumerate(exp):
                for q, v in st.items():
                    agree(t, frames[i + 1][q], v, 'after writing %s' % n, 1e-15, written=n, how=how, variable=q)
        jobs.append((path, ctx, cb))
    run_all(t, jobs)


@obligation('C16', 'whole_simulation', 'one or two whole simulations run by the generated program (cmake, HDF5) against the Python run: every '
            'recorded variable', ['simu2cpp', 'Simulation._process_cpp'], limit=300)
def whole(t):
    need()
    if shutil.which('cmake') is None:
        raise Skip('no cmake')
    Simulation = t.imp('pyphs', 'Simulation')
    import copy
    for k in range(t.pick(1, 4)):
        m, fs, d, subs, ctx = build(t, k, sh=(2, 1, 1), cfg=(k % 2 == 0, 0., 'discret'), npar=(1, 2, 0, 1)[k % 4])
        nt = 30
        u = np.array([[np.sin(.3 * i)] for i in range(nt)])
        p = np.array([[.3 + .01 * i] * len(d['p']) for i in range(nt)]).reshape(nt, len(d['p']))
        inits = {'x': [t.rng.uniform(.1, .5) for _ in d['x']]}
        t.case(**ctx)
        out = {}
        for lang in ('python', 'c++'):
            path = os.path.join(os.getcwd(), 'sim%d%s' % (k, lang[0]))
            os.makedirs(path, exist_ok=True)
            s = Simulation(m, config=dict(path=path, lang=lang, pbar=False, fs=fs, maxit=30, eps=1e-12), inits=copy.deepcopy(inits))
            s.init(u=u, p=p if len(d['p']) else None, nt=nt)
            s.process()
            out[lang] = {n: np.asarray(s.data[n]).copy() for n in s.data.names}
        for n in out['python']:
            a, b = out['python'][n], out['c++'][n]
            ok = a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-7)
            t.check(ok or np.abs(a).max() > 1e3, 'recorded %s of the C++ and Python simulations' % n, variable=n,
                    python=a[:3], cpp=b[:3])
