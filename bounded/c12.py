import os
import numpy as np
import sympy as sp
from fw import obligation
from lib import *

_M = {}


def method(t, nx=2, nw=1, ny=1, npar=1, obs=True):
    key = (nx, nw, ny, npar, obs)
    if key not in _M:
        Method = t.imp('pyphs', 'Method')
        c = new_core()
        x, w, u, y, p = syms('x', nx), syms('w', nw), syms('u', ny), syms('y', ny), syms('p', npar)
        if nx:
            c.add_storages(list(x), sum([(i + 1) * s**2 / 2 for i, s in enumerate(x)], sp.Integer(0)))
        if nw:
            c.add_dissipations(list(w), [2 * s for s in w])
        if ny:
            c.add_ports(list(u), list(y))
        if npar:
            c.add_parameters(list(p))
        if obs and nx:
            c.add_observer({S('ob'): x[0] + 2 * x[-1]})
        n = nx + nw + ny
        c.M = sp.SparseMatrix(mat(n, 'skew', __import__('random').Random(3)))
        _M[key] = Method(c)
    return _M[key]


def store(t, name, nt, fs=1000., **kw):
    H5Data = t.imp('pyphs.numerics.simulations.h5data.h5data', 'H5Data')
    from pyphs.config import CONFIG_SIMULATION, CONFIG_NUMERIC
    cfg = dict(CONFIG_SIMULATION)
    cfg.update(CONFIG_NUMERIC)
    cfg['load'] = dict(cfg['load'])
    cfg['path'] = os.path.join(os.getcwd(), name)
    cfg['fs'] = fs
    os.makedirs(cfg['path'], exist_ok=True)
    m = method(t, **kw)
    d = H5Data(m, cfg, erase=True)
    return d


DIM = {'x': 'x', 'dx': 'x', 'dxH': 'x', 'w': 'w', 'z': 'w', 'u': 'y', 'y': 'y', 'p': 'p'}


def model(d, nt, u, p):
    out = {}
    for n in d.names:
        k = getattr(d.method.dims, DIM[n])() if n in DIM else getattr(d.method.dims, n)()
        out[n] = np.zeros((nt, k))
    out['u'][:] = u
    out['p'][:] = p
    return out


def same(t, d, ref, what, **w):
    for n in ref:
        got = np.asarray(d[n])
        t.check(got.shape == ref[n].shape and np.array_equal(got, ref[n]), what, variable=n, got=got[:4], expected=ref[n][:4], **w)


@obligation('C12', 'vectors', 'random write histories (<=40 steps, steps written in any order, partial dictionaries) against a '
            'reference store, several variable dimensions including none', ['H5Data.init_data', 'H5Data.h5dump_vecs',
                                                                            'H5Data.__getitem__'], limit=200)
def vecs(t):
    for k in range(t.pick(12, 60)):
        dims = t.rng.choice([(2, 1, 1, 1), (3, 2, 2, 2), (1, 0, 1, 0), (1, 1, 2, 0), (2, 0, 0, 1)])
        nt = t.rng.choice([1, 2, 7, 40])
        d = store(t, 'v%d' % k, nt, nx=dims[0], nw=dims[1], ny=dims[2], npar=dims[3])
        u = np.array([[t.rng.uniform(-1, 1) for _ in range(dims[2])] for _ in range(nt)]).reshape(nt, dims[2])
        p = np.array([[t.rng.uniform(-1, 1) for _ in range(dims[3])] for _ in range(nt)]).reshape(nt, dims[3])
        t.case(dims=dims, nt=nt)
        d.init_data(nt, sequ=u, seqp=p)
        ref = model(d, nt, u, p)
        t.eq(d.nt, nt, 'number of steps')
        same(t, d, ref, 'inputs are stored, everything else is zero')
        hist = [t.rng.randrange(nt) for _ in range(t.rng.randint(1, 12))]
        for i in hist:
            names = [n for n in d.names if n not in ('u', 'p') and t.rng.random() < .7]
            data = {n: np.array([t.rng.uniform(-9, 9) for _ in range(ref[n].shape[1])]) for n in names}
            keep = {n: v.copy() for n, v in data.items()}
            d.h5dump_vecs(i, dict(data))
            for n in keep:
                ref[n][i] = keep[n]
        same(t, d, ref, 'every value reads back as written, others untouched', steps=hist)


@obligation('C12', 'sequences', 'sequences of 1..2600 rows (buffer 1024), windows, several variables, rectangular values',
            ['H5Data.h5dump_seqs', 'set_dataset_from_iterable'], limit=200)
def seqs(t):
    for k, nt in enumerate(t.pick([1, 5, 1023, 1024, 1025, 2049, 2600], [1, 2, 5, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3072,
                                                                   2600, 5000])):
        d = store(t, 's%d' % k, nt, nx=2, nw=2, ny=2, npar=1)
        u = np.arange(nt * 2, dtype=float).reshape(nt, 2) + .25
        p = np.arange(nt, dtype=float).reshape(nt, 1) + .5
        t.case(nt=nt)
        d.init_data(nt, sequ=u if k % 2 else u.tolist(), seqp=p.tolist() if k % 2 else p)
        ref = model(d, nt, u, p)
        same(t, d, ref, 'sequences read back')
        for _ in range(3):
            a = t.rng.randrange(nt)
            b = t.rng.randint(a + 1, nt)
            names = [n for n in ('x', 'w', 'y', 'dxH') if t.rng.random() < .6] or ['x']
            data = {}
            for n in names:
                if n not in ref:
                    continue
                data[n] = np.array([[t.rng.random() for _ in range(ref[n].shape[1])] for _ in range(b - a)])
                ref[n][a:b] = data[n]
            d.h5dump_seqs({n: v if t.rng.random() < .5 else v.tolist() for n, v in data.items()}, slice(a, b))
            same(t, d, ref, 'a window of sequences reads back, the rest is untouched', window=(a, b), names=names)


@obligation('C12', 'init_shapes', 'scalar input lists, longer inputs than steps, missing inputs, inputs shorter than steps',
            ['H5Data.init_data'], limit=120)
def shapes(t):
    for nt in (3, 1500):
        d = store(t, 'i%d' % nt, nt)
        u = [float(i) for i in range(nt)]
        t.case(kind='1d list', nt=nt)
        d.init_data(sequ=u)
        t.eq(d.nt, nt, 'number of steps from the inputs')
        t.check(np.array_equal(d['u'], np.array(u)[:, None]), '1d input stored')
        t.check(np.array_equal(d['p'], np.zeros((nt, 1))), 'missing parameters are zero')
        t.case(kind='1d array', nt=nt)
        d.init_data(nt, sequ=np.array(u), seqp=np.array(u) + 1)
        t.check(np.array_equal(d['u'], np.array(u)[:, None]), '1d array stored')
        t.check(np.array_equal(d['p'], np.array(u)[:, None] + 1), '1d parameters stored')
        t.case(kind='no input', nt=nt)
        d.init_data(nt)
        t.check(np.array_equal(d['u'], np.zeros((nt, 1))), 'missing inputs are zero')
        t.case(kind='inputs longer than the number of steps', nt=nt)
        d.init_data(nt - 1, sequ=[[v] for v in u])
        t.eq(d['u'].shape, (nt - 1, 1), 'inputs are cut to the number of steps')
        t.check(np.array_equal(d['u'][:, 0], np.array(u[:-1])), 'cut inputs read back')
    d = store(t, 'bad', 3, ny=2)
    t.raises('1d input for a two-input system is rejected', Exception, d.init_data, 3, np.array([1., 2., 3.]))
    t.raises('no length at all is rejected', Exception, d.init_data)


@obligation('C12', 'windows', 'all (start, stop, step) windows of a 12-step store, read through every accessor, indices as slices '
            'and as properties, single components', ['H5Data._tslice', 'H5Data._tuple2slice', 'H5Data._read_data', 'H5Data.t',
                                                     'H5Data._hstack', 'H5Data._expression'], limit=250)
def windows(t):
    nt, fs = 12, 1000.
    d = store(t, 'w', nt, fs=fs, nx=2, nw=1, ny=1, npar=1)
    d.init_data(nt, sequ=np.arange(nt, dtype=float)[:, None] * .1, seqp=np.arange(nt, dtype=float)[:, None])
    ref = model(d, nt, np.arange(nt, dtype=float)[:, None] * .1, np.arange(nt, dtype=float)[:, None])
    for i in range(nt):
        row = {n: np.array([t.rng.uniform(-3, 3) for _ in range(ref[n].shape[1])]) for n in d.names if n not in ('u', 'p')}
        for n in row:
            ref[n][i] = row[n]
        d.h5dump_vecs(i, row)
    wins = [(a, b, s) for a in range(0, nt) for b in range(a + 1, nt + 1) for s in (1, 2, 3, 5)]
    if not t.thorough:
        wins = t.rng.sample(wins, 50)
    nder = t.pick(7, 60)
    x = ref['x']
    der = {
        't': np.arange(nt) / fs, 'dtx': ref['dx'] * fs,
        'E': x[:, 0]**2 / 2 + x[:, 1]**2, 'o': (x[:, 0] + 2 * x[:, 1])[:, None],
        'ps': (ref['u'] * ref['y']).sum(1), 'dtE': (ref['dxH'] * ref['dx'] * fs).sum(1),
        'args': np.hstack([ref[n] for n in ('x', 'dx', 'w', 'u', 'p')]),
        'a': np.hstack([ref[n] for n in ('dxH', 'z', 'u')]),
        'b': np.hstack([ref['dx'] * fs, ref['w'], ref['y']])}
    der['args_o'] = np.hstack([der['args'], der['o']])
    lab = list(d.method.x)
    if [str(s) for s in lab] != ['x1', 'x2']:
        for k in ('E', 'o', 'args_o'):
            der.pop(k)
    for iw, (a, b, s) in enumerate(wins):
        t.case(window=(a, b, s))
        sl = slice(a, b, s)
        for n in d.names:
            got = np.asarray(d[n, sl])
            t.check(np.array_equal(got, ref[n][a:b:s]), 'window read', variable=n, got=got, expected=ref[n][a:b:s])
            if ref[n].shape[1]:
                j = t.rng.randrange(ref[n].shape[1])
                got = np.asarray(d[n, sl, j])
                t.check(np.array_equal(got, ref[n][a:b:s, j]), 'component read', variable=n, component=j)
                got = np.asarray(getattr(d, n)(tslice=sl, vslice=slice(j, j + 1)))
                t.check(np.array_equal(got, ref[n][a:b:s, j:j + 1]), 'component slice read', variable=n)
        for n, v in der.items():
            if iw >= nder and n in ('E', 'o', 'args_o'):
                continue
            got = np.asarray(d[n, sl])
            t.check(got.shape == v[a:b:s].shape and np.allclose(got, v[a:b:s], atol=1e-12), 'derived quantity read', variable=n,
                    got=got, expected=v[a:b:s])
        # through the properties
        d.start, d.stop, d.step = None, None, None
        d.stop = b
        d.start = a
        d.step = s
        for n in ('x', 'u', 'p'):
            t.check(np.array_equal(np.asarray(d[n]), ref[n][a:b:s]), 'window properties', variable=n)
        for n in ('t', 'E', 'dtE', 'ps'):
            if n in der and (iw < nder or n != 'E'):
                got = np.asarray(d[n])
                t.check(got.shape == der[n][a:b:s].shape and np.allclose(got, der[n][a:b:s], atol=1e-12),
                        'window properties on derived quantities', variable=n, got=got)
        # explicit windows prevail over the window properties; unspecified bounds are those of the properties
        for a2, b2, s2 in [t.rng.choice(wins), (0, t.rng.randint(1, nt), 1), (0, nt, t.rng.choice([1, 2]))]:
            for n in ('x', 'u', 'p', 'dx'):
                got = np.asarray(d[n, slice(a2, b2, s2)])
                t.check(np.array_equal(got, ref[n][a2:b2:s2]), 'explicit window under other window properties', variable=n,
                        explicit=(a2, b2, s2), got=got, expected=ref[n][a2:b2:s2])
            got = np.asarray(d['t', slice(a2, b2, s2)])
            t.check(got.shape == der['t'][a2:b2:s2].shape and np.allclose(got, der['t'][a2:b2:s2], atol=1e-12),
                    'times of an explicit window under other window properties', explicit=(a2, b2, s2), got=got)
            for q in (slice(a2, None, None), slice(None, b2, None), slice(None, None, s2), slice(a2, b2, None), slice(a2, None, s2)):
                e = slice(a if q.start is None else q.start, b if q.stop is None else q.stop, s if q.step is None else q.step)
                got = np.asarray(d['x', q])
                t.check(np.array_equal(got, ref['x'][e]), 'partially given window', explicit=q, got=got, expected=ref['x'][e])
        i = t.rng.randrange(nt)
        t.check(np.array_equal(np.asarray(d['x', i]).reshape(-1), ref['x'][i]), 'single step read under a window', step=i)
        d.start, d.stop, d.step = None, None, None
    for i in range(nt):
        t.check(np.array_equal(np.asarray(d['x', i]).reshape(-1), ref['x'][i]), 'single step read', step=i)


@obligation('C12', 'time_bounds', 'window bounds at every sample time, sample rates 44100, 48000, 96000, 1000, 3, up to 3000 samples',
            ['H5Data._time2index', 'H5Data.tstart', 'H5Data.tstop'], limit=150)
def times(t):
    nt = 3000
    for fs in (44100., 48000., 96000., 1000., 3., 22050, 48000):
        d = store(t, 'tb', nt, fs=fs)
        d.config['nt'] = nt
        t.case(fs=fs)
        for i in t.rng.sample(range(1, nt), t.pick(300, 1500)):
            d.start, d.stop, d.step = None, None, None
            d.tstop = i / float(fs)
            t.eq(d.stop, i + 1, 'the last sample is the one at the stop time', i=i)
            j = t.rng.randint(0, i)
            d.tstart = j / float(fs)
            t.eq(d.start, j, 'the first sample is the one at the start time', j=j)
            t.close(d.tstart, j / float(fs), 'start time reads back')
            t.close(d.tstop, i / float(fs), 'stop time reads back')
        d.tstart = None
        t.eq(d.start, 0, 'no start time: from the first sample')
        d.tstop = None
        t.eq(d.stop, nt, 'no stop time: until the last sample')
        d.start, d.stop, d.step = None, None, None
        t.raises('start beyond the end rejected', ValueError, setattr, d, 'start', nt)
        t.raises('stop beyond the end rejected', ValueError, setattr, d, 'stop', nt + 1)
        t.raises('stop before start rejected', ValueError, setattr, d, 'stop', 0)
        t.raises('step 0 rejected', ValueError, setattr, d, 'step', 0)


@obligation('C12', 'dump_iterable', 'set_dataset_from_iterable on random windows (step 1..3), column windows, buffer sizes 1..8, '
            'iterables with exactly the needed number of rows or more', ['set_dataset_from_iterable'], limit=150)
def dump(t):
    import h5py
    f = t.imp('pyphs.numerics.simulations.h5data.tools', 'set_dataset_from_iterable')
    with h5py.File('d.h5', 'w') as h:
        for k in range(t.pick(120, 800)):
            nr, nc = t.rng.randint(1, 12), t.rng.randint(1, 5)
            ds = h.create_dataset('d%d' % k, data=np.full((nr, nc), -1.))
            a = t.rng.randrange(nr)
            b = t.rng.randint(a + 1, nr)
            s = t.rng.choice([1, 1, 2, 3])
            rs = t.rng.choice([None, slice(a, b), slice(a, b, s), slice(0, nr)])
            ca = t.rng.randrange(nc)
            cb = t.rng.randint(ca + 1, nc)
            cs = t.rng.choice([None, slice(ca, cb)])
            cz = t.rng.randint(1, 8)
            exp = np.full((nr, nc), -1.)
            tgt = exp[rs if rs is not None else slice(None), cs if cs is not None else slice(None)]
            n, m = tgt.shape
            extra = t.rng.choice([0, 0, 2])
            data = np.arange((n + extra) * m, dtype=float).reshape(n + extra, m) + k
            t.case(shape=(nr, nc), rows=rs, cols=cs, chunk=cz, extra=extra)
            tgt[...] = data[:n]
            f(ds, data if t.rng.random() < .5 else [list(r) for r in data], rs, cs, cz)
            t.check(np.array_equal(ds[...], exp), 'exactly the window is written', got=ds[...], expected=exp)


@obligation('C12', 'constant_expressions', 'a store without storage (constant energy), all windows of 7 steps with step 1..3',
            ['H5Data._expression'], limit=100)
def const(t):
    nt = 7
    d = store(t, 'c', nt, nx=0, nw=1, ny=1, npar=0, obs=False)
    d.init_data(nt, sequ=np.zeros((nt, 1)))
    wins = [(a, b, s) for a in range(nt) for b in range(a + 1, nt + 1) for s in (1, 2, 3)]
    for a, b, s in (wins if t.thorough else t.rng.sample(wins, 8)):
        t.case(window=(a, b, s))
        n = len(range(a, b, s))
        t.eq(np.asarray(d['E', slice(a, b, s)]).shape, (n,), 'one energy value per selected sample')
        t.eq(np.asarray(d['t', slice(a, b, s)]).shape, (n,), 'one time value per selected sample')


@obligation('C12', 'stores_are_independent', 'two simulations of the same and of different methods, interleaved windows and writes',
            ['Simulation', 'H5Data'], limit=150)
def indep(t):
    Simulation = t.imp('pyphs', 'Simulation')
    m = method(t)
    ss = []
    for k in range(2):
        os.makedirs('p%d' % k, exist_ok=True)
        s = Simulation(m, config=dict(path=os.path.join(os.getcwd(), 'p%d' % k), lang='python', pbar=False))
        s.init(nt=8, u=[[float(i + 100 * k)] for i in range(8)])
        ss.append(s.data)
    a, b = ss
    t.case(case='window of one store')
    a.start = 3
    t.eq(b.start, 0, 'the window of one store does not change the other')
    b.stop = 5
    t.eq(a.stop, 8, 'the window of one store does not change the other')
    t.eq(a['u'][:, 0].tolist(), [3., 4., 5., 6., 7.], 'first store reads its own inputs')
    t.eq(b['u'][:, 0].tolist(), [100., 101., 102., 103., 104.], 'second store reads its own inputs')
    os.makedirs('p2', exist_ok=True)
    s = Simulation(m, config=dict(path=os.path.join(os.getcwd(), 'p2'), lang='python', pbar=False))
    s.init(nt=4)
    t.eq(a.start, 3, 'creating another simulation does not change the window')


@obligation('C12', 'reopen', 'a store written, closed and reopened without erasing', ['H5Data._read_h5infos', 'H5Data._h5new'])
def reopen(t):
    H5Data = t.imp('pyphs.numerics.simulations.h5data.h5data', 'H5Data')
    for k, nt in enumerate((1, 6, 1500)):
        d = store(t, 'r%d' % k, nt)
        u = np.arange(nt, dtype=float)[:, None] + .5
        d.init_data(nt, sequ=u)
        ref = model(d, nt, u, np.zeros((nt, 1)))
        for i in range(0, nt, max(1, nt // 5)):
            row = {n: np.array([t.rng.random() for _ in range(ref[n].shape[1])]) for n in d.names if n not in ('u', 'p')}
            for n in row:
                ref[n][i] = row[n]
            d.h5dump_vecs(i, row)
        t.case(nt=nt)
        cfg = dict(d.config)
        cfg['load'] = dict(cfg['load'])
        cfg.pop('nt')
        try:
            d.h5close()
        except Exception:
            pass
        d2 = H5Data(d.method, cfg, erase=False)
        t.eq(d2.nt, nt, 'number of steps recovered')
        same(t, d2, ref, 'values survive reopening')
        d3 = H5Data(d.method, cfg, erase=True)
        t.check(not np.any(np.asarray(d3.h5name is None)), 'erase builds a new store')
