"""C12 - recorded data.

Assumed contracts: an HDF5 dataset is a two-dimensional array of real numbers, indexed and assigned by integers, slices and
ranges as a numpy array; numpy zeros/asarray/hstack/arange/fromiter/reshape have their documented meaning."""
import types as pytypes
from ..spec import *
from ..domain import VRange, norm_index

H5 = 'pyphs/numerics/simulations/h5data/h5data.py:H5Data'
TL = 'pyphs/numerics/simulations/h5data/tools.py:set_dataset_from_iterable'
DIMS = {'x': 'nx', 'dx': 'nx', 'dxH': 'nx', 'w': 'nw', 'z': 'nw', 'u': 'ny', 'y': 'ny', 'p': 'np', 'o': 'no'}
ORDERS = (('u', 'p', 'x', 'dx', 'dxH', 'w', 'z', 'y'), ('u', 'p', 'y', 'z', 'w'), ('u', 'p', 'x', 'y'))


def pick(s, n):
    """(number of items, k -> position) selected by an integer or slice on an axis of length n"""
    if isinstance(s, (int, SInt)):
        e = norm_index(s, n)
        return None, lambda k: e
    if isinstance(s, slice):
        s = VRange(0, SInt(n))[s]
    if isinstance(s, VRange):
        g = s.getter()
        return s.zlen(), lambda k: zint(g(k))
    if isinstance(s, range):
        return z3.IntVal(len(s)), lambda k: s.start + s.step * k
    raise Unsupported('index %r' % (s,))


def inverse(s, n):
    """(condition q selected, rank of q) for an integer, or a slice or range of unit step"""
    m, g = pick(s, n)
    if m is None:
        return lambda q: (q == g(0), z3.IntVal(0))
    if isinstance(s, (VRange, range)) and not z3.is_true(z3.simplify(g(z3.IntVal(1)) - g(z3.IntVal(0)) == 1)):
        if not ctx().entails(g(z3.IntVal(1)) - g(z3.IntVal(0)) == 1):
            raise Unsupported('assignment with a step')
    return lambda q: (z3.And(q >= g(z3.IntVal(0)), q < g(z3.IntVal(0)) + m), q - g(z3.IntVal(0)))


class Arr:
    """numpy array of real numbers: shape (z3 terms) and entries"""

    def __init__(self, shape, at):
        self.dims, self.at = tuple(z3.simplify(x) for x in shape), at
        ctx().heap.append(self)

    def state(self):
        return self.dims, self.at

    def set_state(self, st):
        self.dims, self.at = st

    @property
    def shape(self):
        return tuple(D._concrete(SInt(x)) for x in self.dims)

    def vlen(self):
        return D._concrete(SInt(self.dims[0]))

    @property
    def dtype(self):
        return 'float64'

    def _key(self, key):
        key = key if isinstance(key, tuple) else (key,)
        return list(key) + [slice(None)] * (len(self.dims) - len([k for k in key if k is not None]))

    def __getitem__(self, key):
        shape, maps = [], []
        ax = 0
        for k in self._key(key):
            if k is None:
                shape.append(z3.IntVal(1))
                maps.append(None)
                continue
            m, g = pick(k, self.dims[ax])
            ax += 1
            if m is None:
                maps.append(('c', g))
            else:
                shape.append(m)
                maps.append(('v', g))
        at = self.at

        def new(*ij):
            out, p = [], 0
            for q in maps:
                if q is None:
                    p += 1
                elif q[0] == 'c':
                    out.append(q[1](0))
                else:
                    out.append(q[1](ij[p]))
                    p += 1
            return at(*out)
        return Arr(shape, new) if shape else SReal(new())

    def __setitem__(self, key, val):
        key = self._key(key)
        sel = [pick(k, n) for k, n in zip(key, self.dims)]
        inv = [inverse(k, n) for k, n in zip(key, self.dims)]
        shape = [m for m, _ in sel if m is not None]
        if isinstance(val, (int, float, SInt, SReal)):
            x = C.zreal(val)
            val = Arr(shape, lambda *i: x)
        if not isinstance(val, Arr):
            raise Unsupported('assignment of %r' % type(val))
        dims, new = val.dims, val.at
        while len(dims) > len(shape) and ctx().branch(dims[0] == 1):        # numpy drops leading unit axes
            dims, new = dims[1:], (lambda g: lambda *i: g(z3.IntVal(0), *i))(new)
        if len(dims) != len(shape) or not all(ctx().branch(a == b) for a, b in zip(dims, shape)):
            if len(dims) == len(shape) and any(ctx().branch(a == 1) for a in dims):
                raise Unsupported('broadcasting')
            raise ValueError('could not broadcast input array')
        old = self.at

        def at(*ij):
            conds, rank = [], []
            for q, f, (m, _) in zip(ij, inv, sel):
                c, r = f(q)
                conds.append(c)
                if m is not None:
                    rank.append(r)
            return z3.If(z3.And(*conds), new(*rank), old(*ij))
        self.at = at

    def __truediv__(self, o):
        at = self.at
        d = C.zreal(o)
        if not ctx().entails(d != 0):
            raise Unsupported('division')
        return Arr(self.dims, lambda *i: at(*i) / d)

    def __mul__(self, o):
        at = self.at
        d = C.zreal(o)
        return Arr(self.dims, lambda *i: at(*i) * d)
    __rmul__ = __mul__

    def resize(self, shape):
        self.dims = tuple(zint(x) for x in shape)

    def reshape(self, *s):
        raise Unsupported('reshape')

    def astype(self, t):
        return self

    def __len__(self):
        raise Unsupported('len of a symbolic array')


def freal(name, *args):
    f = z3.Function(ctx().name(name), *([z3.IntSort()] * len(args) + [z3.RealSort()]))
    return f


def fresh_arr(name, *shape):
    f = z3.Function(ctx().name(name), *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
    return Arr([zint(s) for s in shape], lambda *i: f(*i)), f


def as_arr(x, **k):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (VList, list)):
        l = D.as_vlist(x)
        g = l.getter()
        rows = l.c if l.c is not None else None
        if rows and isinstance(rows[0], Arr):
            raise Unsupported('array of arrays')
        if l.c == []:
            return Arr([z3.IntVal(0)], lambda i: z3.RealVal(0))
        k0 = z3.Const(ctx().name('k'), z3.IntSort())
        if isinstance(g(k0) if rows is None else rows[0], (VList, list)):
            row = lambda i: D.as_vlist(g(i))
            return Arr([l.zlen(), row(k0).zlen() if rows is None else D.as_vlist(rows[0]).zlen()],
                       lambda i, j: C.zreal(row(i).getter()(j)))
        return Arr([l.zlen()], lambda i: C.zreal(g(i)))
    raise Unsupported('asarray of %r' % type(x))


def hstack(arrays):
    l = D.as_vlist(arrays)
    if l.c is None:
        raise Unsupported('hstack of a symbolic list')
    arrs = l.c
    for a in arrs:
        if len(a.dims) != 2:
            raise Unsupported('hstack dims')
        if not ctx().branch(a.dims[0] == arrs[0].dims[0]):
            raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    offs = [z3.IntVal(0)]
    for a in arrs:
        offs.append(z3.simplify(offs[-1] + a.dims[1]))

    def at(i, j):
        r = arrs[-1].at(i, j - offs[len(arrs) - 1])
        for q in reversed(range(len(arrs) - 1)):
            r = z3.If(j < offs[q + 1], arrs[q].at(i, j - offs[q]), r)
        return r
    return Arr([arrs[0].dims[0], offs[-1]], at)


def np_round(x, d=0):
    """|round(x, d) - x| <= 10**-d / 2, multiple of 10**-d"""
    k = z3.Const(ctx().name('round'), z3.IntSort())
    s = 10 ** d
    e = C.zreal(x)
    assume(z3.And(2 * (z3.ToReal(k) - s * e) <= 1, 2 * (z3.ToReal(k) - s * e) >= -1))
    return SReal(z3.ToReal(k) / s)


def arange(a, b, s=1):
    r = VRange(a, b, s)
    g = r.getter()
    return Arr([r.zlen()], lambda i: z3.ToReal(zint(g(i))))


class File:
    def __init__(self, store):
        self.store, self.open = store, True

    def __getitem__(self, name):
        if not self.open:
            raise ValueError('Not a location')
        if name != 'global':
            raise Unsupported('group %s' % name)
        return self.store

    def close(self):
        self.open = False


class World:
    """a real H5Data object over a symbolic dataset"""

    def __init__(self, L, names=ORDERS[0], opened=False, nt_min=1):
        c = ctx()
        np = pytypes.ModuleType('numpy')
        np.zeros = lambda n, **k: Arr([zint(x) for x in n], lambda *i: z3.RealVal(0)) if isinstance(n, tuple) \
            else Arr([zint(n)], lambda i: z3.RealVal(0))
        np.asarray = np.array = as_arr
        np.hstack, np.round, np.arange, np.newaxis, np.float64 = hstack, np_round, arange, None, 'float64'
        self.m = L.load('pyphs.numerics.simulations.h5data.h5data')
        self.m.numpy = np
        d = self.d = track(self.m.H5Data.__new__(self.m.H5Data))
        self.n = {k: fresh_int(k, 0) for k in ('nx', 'nw', 'ny', 'np', 'no')}
        dims = pytypes.SimpleNamespace(x=lambda: self.n['nx'], w=lambda: self.n['nw'], y=lambda: self.n['ny'],
                                       p=lambda: self.n['np'], o=lambda: self.n['no'])
        d.method = pytypes.SimpleNamespace(dims=dims)
        self.nt = fresh_int('nt', nt_min)
        self.fs = SReal(z3.Const(c.name('fs'), z3.RealSort()))
        assume(self.fs.e > 0)
        self.load_ = VDict([('start', None), ('stop', None), ('step', 1)])
        d.config = VDict([('nt', self.nt), ('fs', self.fs), ('load', self.load_), ('path', '/nowhere')])
        d.h5name, d.h5path = 'results.h5', '/nowhere/data/results.h5'
        d.names = VList(list(names))
        d._open = False
        self.files = []
        self.m.geteval = lambda o, a: getattr(o, a)()
        helper(d, '_dimsinit')()
        helper(d, '_build_readers')()
        self.dim = z3.simplify(z3.Sum([self.size(n).e for n in names]))
        self.S, self.f = fresh_arr('data', self.nt, SInt(self.dim))
        self.m.h5py = pytypes.SimpleNamespace(File=self.opener)
        if opened:
            d.h5open()
        self.names = names

    def opener(self, path, mode):
        f = File(self.S)
        self.files.append(f)
        if path != self.d.h5path or mode not in ('a', 'r', 'r+'):
            raise Unsupported('opened %s %s' % (path, mode))
        return f

    def size(self, name):
        return self.n[DIMS[name]]

    def off(self, name):
        """documented position of a variable: the sum of the sizes of the names before it"""
        k = self.names.index(name) if isinstance(self.names, tuple) else 0
        return z3.simplify(z3.Sum([z3.IntVal(0)] + [self.size(n).e for n in self.names[:k]]))

    def window(self):
        """an arbitrary loading window with step"""
        a, b, s = fresh_int('start', 0), fresh_int('stop', 1), fresh_int('step', 1)
        assume(z3.And(a.e < b.e, b.e <= self.nt.e))
        for k, v in (('start', a), ('stop', b), ('step', s)):
            self.load_[k] = v
        return a.e, b.e, s.e


def prove_arr(name, A, shape, spec):
    if not isinstance(A, Arr):
        prove(name + '.array', z3.BoolVal(False))
        return
    prove(name + '.ndim', z3.BoolVal(len(A.dims) == len(shape)))
    prove(name + '.shape', z3.And(*[a == zint(b) for a, b in zip(A.dims, shape)]))
    ks = [skolem('e') for _ in shape]
    prove(name + '.entries', z3.Implies(z3.And(*[in_range(k, zint(n)) for k, n in zip(ks, shape)]), A.at(*ks) == spec(*ks)))


def count(a, b, s):
    return z3.If(b > a, (b - a + s - 1) / s, z3.IntVal(0))


def _layout(k):
    def h(L):
        w = World(L, ORDERS[k])
        d = w.d
        for n in w.names:
            prove('start.' + n, zint(d.inds[n][0]) == w.off(n))
            prove('stop.' + n, zint(d.inds[n][1]) == w.off(n) + w.size(n).e)
            prove('dim.' + n, zint(d.dims[n]) == w.size(n).e)
        prove('names', z3.BoolVal(sorted(d.inds) == sorted(w.names) and sorted(d.dims) == sorted(w.names)))
        prove('dim', zint(d.dim) == w.dim)
        cover('end')
    return h


for _k in range(3):
    contract('C12.layout_%d' % _k, [H5 + '._dimsinit', H5 + '._method_dims', H5 + '.dim'],
             note='variables occupy consecutive disjoint columns that cover the dataset, for any dimensions')(_layout(_k))


def _getitem(kind):
    def h(L):
        w = World(L)
        d = w.d
        a, b, s = w.window()
        name = pickname(w)
        o, n = w.off(name), w.size(name).e
        if kind == 'default':
            got = returns_normally('total', lambda: d[name])
            prove_arr('value', got, [count(a, b, s), n], lambda k, j: w.f(a + k * s, o + j))
        elif kind == 'time':
            t = skolem('t')
            assume(in_range(t, w.nt.e))
            got = returns_normally('total', lambda: d[name, SInt(t)])
            got2 = returns_normally('total2', lambda: d[name, SInt(t), slice(None)])
            prove_arr('value', got, [z3.IntVal(1), n], lambda k, j: w.f(t, o + j))
            prove_arr('value2', got2, [z3.IntVal(1), n], lambda k, j: w.f(t, o + j))
        elif kind == 'window':
            p, q, r = fresh_int('p', 0), fresh_int('q', 0), fresh_int('r', 1)
            assume(z3.And(p.e <= q.e, q.e <= w.nt.e))
            got = returns_normally('total', lambda: d[name, slice(p, q, r)])
            prove_arr('value', got, [count(p.e, q.e, r.e), n], lambda k, j: w.f(p.e + k * r.e, o + j))
            # omitted bounds are those of the loading window
            got = returns_normally('total2', lambda: d[name, slice(None, q, None)])
            prove_arr('value2', got, [count(a, q.e, s), n], lambda k, j: w.f(a + k * s, o + j))
            got = returns_normally('total3', lambda: d[name, slice(p, None, None)])
            prove_arr('value3', got, [count(p.e, b, s), n], lambda k, j: w.f(p.e + k * s, o + j))
        else:
            i = skolem('i')
            assume(in_range(i, n))
            got = returns_normally('total', lambda: d[name, None, SInt(i)])
            prove_arr('value', got, [count(a, b, s)], lambda k: w.f(a + k * s, o + i))
            lo, hi = fresh_int('lo', 0), fresh_int('hi', 0)
            assume(z3.And(lo.e <= hi.e, hi.e <= n))
            got = returns_normally('total2', lambda: d[name, None, slice(lo, hi)])
            prove_arr('value2', got, [count(a, b, s), hi.e - lo.e], lambda k, j: w.f(a + k * s, o + lo.e + j))
            got = returns_normally('total3', lambda: getattr(d, name)(vslice=slice(None, hi), postprocess=lambda x: x * 2))
            prove_arr('value3', got, [count(a, b, s), hi.e], lambda k, j: 2 * w.f(a + k * s, o + j))
        prove('closed', z3.BoolVal(d._open is False and all(not f.open for f in w.files)))
        prove_arr('unchanged', w.S, [w.nt.e, w.dim], w.f)
        cover('end')
    return h


def pickname(w):
    """any of the names (all cases are explored)"""
    for n in w.names[:-1]:
        if ctx().branch(z3.Const(ctx().name('is_' + n), z3.BoolSort())):
            return n
    return w.names[-1]


for _k, _n in (('default', 'data[name] is the loading window with its step'),
               ('time', 'data[name, t] is the row of time t'),
               ('window', 'data[name, a:b:s] is every s-th row from a to b; omitted bounds are those of the loading window'),
               ('variable', 'data[name, None, i] and [.., a:b] are the components of that variable')):
    contract('C12.read_' + _k, [H5 + '.__getitem__', H5 + '._read_data', H5 + '._tslice', H5 + '._tuple2slice',
                                H5 + '._build_reader', H5 + '.start', H5 + '.stop', H5 + '.step', H5 + '.h5open',
                                H5 + '.h5close'], note=_n)(_getitem(_k))


def _dump_vecs(opened):
    def h(L):
        w = World(L, ORDERS[1], opened=opened)
        d = w.d
        w.window()
        t = skolem('t')
        assume(in_range(t, w.nt.e))
        data, given = VDict(), {}
        for n in w.names:
            if ctx().branch(z3.Const(ctx().name('given_' + n), z3.BoolSort())):
                v, f = fresh_arr('v_' + n, w.size(n))
                given[n] = f
                data[n] = v
        returns_normally('total', lambda: d.h5dump_vecs(SInt(t), data))
        prove('shape', z3.And(w.S.dims[0] == w.nt.e, w.S.dims[1] == w.dim))
        for n in w.names:
            r, j = skolem('r'), skolem('j')
            new = given[n](j) if n in given else w.f(t, w.off(n) + j)
            prove('entry.' + n, z3.Implies(z3.And(in_range(r, w.nt.e), in_range(j, w.size(n).e)),
                                           w.S.at(r, w.off(n) + j) == z3.If(r == t, new, w.f(r, w.off(n) + j))))
        prove('file', z3.BoolVal(d._open is opened and [f.open for f in w.files] == ([True] if opened else [False] * len(w.files))))
        cover('end')
    return h


for _o in (False, True):
    contract('C12.dump_vecs' + ('_open' if _o else ''), [H5 + '.h5dump_vecs', H5 + '.__getitem__', H5 + '._read_data',
                                                         H5 + '._tslice', H5 + '._tuple2slice'],
             note='writes the given variables at time t and nothing else, any subset of variables, any dimensions')(_dump_vecs(_o))


def setds(w, calls):
    """contract of set_dataset_from_iterable (proved by C12.set_dataset)"""
    def f(dataset, iterable, rslice=None, cslice=None, chunksize=1024):
        iterable = as_arr(iterable)
        if rslice is None or cslice is None or rslice.start is None or rslice.stop is None or len(iterable.dims) != 2:
            raise Unsupported('set_dataset_from_iterable arguments')
        a, b, c0, c1 = [zint(x) for x in (rslice.start, rslice.stop, cslice.start, cslice.stop)]
        prove('pre.window', z3.And(0 <= a, a <= b, b <= dataset.dims[0], 0 <= c0, c0 < c1, c1 <= dataset.dims[1],
                                   zint(chunksize) >= 1))
        prove('pre.rows', iterable.dims[0] >= b - a)
        prove('pre.cols', iterable.dims[1] == c1 - c0)
        old, new = dataset.at, iterable.at
        dataset.at = lambda r, c: z3.If(z3.And(r >= a, r < b, c >= c0, c < c1), new(r - a, c - c0), old(r, c))
        calls.append(1)
    return f


@contract('C12.dump_seqs', [H5 + '.h5dump_seqs'],
          note='writes the given sequences in the given window and nothing else (contract of set_dataset_from_iterable)')
def dump_seqs(L):
    w = World(L, ORDERS[1])
    d = w.d
    a, b = fresh_int('a', 0), fresh_int('b', 0)
    assume(z3.And(a.e <= b.e, b.e <= w.nt.e))
    data, given = VDict(), {}
    for n in w.names:
        if ctx().branch(z3.Const(ctx().name('given_' + n), z3.BoolSort())):
            v, f = fresh_arr('v_' + n, SInt(b.e - a.e), w.size(n))
            given[n] = f
            data[n] = v
    w.m.set_dataset_from_iterable = setds(w, [])
    returns_normally('total', lambda: d.h5dump_seqs(data, slice(a, b)))
    for n in w.names:
        r, j = skolem('r'), skolem('j')
        old = w.f(r, w.off(n) + j)
        new = z3.If(z3.And(r >= a.e, r < b.e), given[n](r - a.e, j), old) if n in given else old
        prove('entry.' + n, z3.Implies(z3.And(in_range(r, w.nt.e), in_range(j, w.size(n).e)), w.S.at(r, w.off(n) + j) == new))
    prove('file', z3.BoolVal(d._open is False and all(not f.open for f in w.files)))
    cover('end')


class NewFile:
    """h5py.File(path, 'w'): an empty file; the dataset created in it becomes the content of the file"""

    def __init__(self, w):
        self.w = w
        w.S = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def create_group(self, name):
        return pytypes.SimpleNamespace(attrs={})

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if name == 'global':
            if not isinstance(data, Arr) or len(data.dims) != 2:
                raise Unsupported('dataset')
            self.w.S = Arr(data.dims, data.at)
            S = self.w.S

            def resize(shape):
                n0, at = S.dims[0], S.at
                S.dims = tuple(zint(x) for x in shape)
                S.at = lambda i, j: z3.If(i < n0, at(i, j), z3.RealVal(0))      # h5py: fill value 0
            S.resize = resize


def _init_data(u, p, given):
    def h(L):
        w = World(L, ORDERS[1])
        d = w.d
        ny, npar = w.n['ny'].e, w.n['np'].e
        n = fresh_int('rows', 1)

        def seq(kind, cols, name):
            if kind is None:
                return None, lambda i, j: z3.RealVal(0)
            extra = fresh_int('extra_' + name, 0) if given else SInt(z3.IntVal(0))
            if kind == 2:
                A, f = fresh_arr(name, SInt(n.e + extra.e), SInt(cols))
                return A, f
            assume(cols == 1)
            A, f = fresh_arr(name, SInt(n.e + extra.e))
            return A, lambda i, j: f(i)
        A, fu = seq(u, ny, 'useq')
        B, fp = seq(p, npar, 'pseq')
        new = []

        def opener(path, mode):
            if mode == 'w':
                new.append(path)
                return NewFile(w)
            return w.opener(path, mode)
        w.m.h5py = pytypes.SimpleNamespace(File=opener)
        import os
        w.m.os = pytypes.SimpleNamespace(path=pytypes.SimpleNamespace(exists=lambda q: False, join=os.path.join),
                                         mkdir=lambda q: None, remove=lambda q: None)
        w.m.set_dataset_from_iterable = setds(w, [])
        returns_normally('total', lambda: d.init_data(*((n, A, B) if given else (None, A, B))))
        prove('steps', zint(d.nt) == n.e)
        if w.S is None:
            raise Unsupported('no dataset created')
        prove('shape', z3.And(w.S.dims[0] == n.e, w.S.dims[1] == w.dim))
        for name in w.names:
            r, j = skolem('r'), skolem('j')
            val = fu(r, j) if name == 'u' else fp(r, j) if name == 'p' else z3.RealVal(0)
            prove('entry.' + name, z3.Implies(z3.And(in_range(r, n.e), in_range(j, w.size(name).e)),
                                              w.S.at(r, w.off(name) + j) == val))
        prove('file', z3.BoolVal(d._open is False and all(not f.open for f in w.files) and new == [d.h5path]))
        cover('end')
    return h


for _u, _p, _g in ((2, 2, False), (2, None, True), (None, 2, True), (1, 1, True), (1, None, False), (None, None, True),
                   (None, 2, False), (2, 2, True)):
    contract('C12.init_data_%s_%s%s' % (_u, _p, '_nt' if _g else ''),
             [H5 + '.init_data', H5 + '._h5new', H5 + '._dimsinit', H5 + '._method_dims', H5 + '.h5dump_seqs'],
             note='the given input and parameter sequences (None: zeros) are stored from the first step, everything else is zero; '
                  'any number of steps, dimensions, longer sequences when nt is given')(_init_data(_u, _p, _g))


class Flat:
    """itertools.chain.from_iterable(rows): the entries of the rows one after another; ghost: rows already consumed"""

    def __init__(self, seq):
        self.seq, self.pos, self.row = seq, z3.IntVal(0), z3.IntVal(0)
        self.wait = None


class Buf:
    def __init__(self, flat, count):
        self.flat, self.count = flat, count

    def reshape(self, r, c):
        fl = self.flat
        rows, cols = fl.seq.dims
        c = zint(c)
        prove('reshape.columns', c == cols)
        if isinstance(r, int) and r == -1:
            q = factor(self.count, cols)
            if q is None:
                raise Unsupported('reshape(-1, n)')
            r = q
        r = zint(r)
        prove('reshape.size', r * c == self.count)
        row = fl.row
        prove('flat.position', fl.wait == row * cols)       # the buffer starts at the beginning of row number `row`
        fl.row = z3.simplify(row + r)
        at = fl.seq.at
        return Arr([r, c], lambda i, j: at(row + i, j))


def factor(t, cols):
    """q with t == q * cols"""
    t = z3.simplify(t)
    for q in [z3.IntVal(1)] + ([z3.simplify(z3.Product([y for k, y in enumerate(t.children()) if k != i]))
                               for i in range(t.num_args())] if z3.is_mul(t) else []):
        if ctx().entails(t == q * cols):
            return q
    return None


@contract('C12.set_dataset', [TL], budget=300,
          note='rows and columns of the window receive the given rows, every other entry is unchanged, for any numbers of rows '
               'and columns, any buffer size (loop invariant, with termination)')
def set_dataset(L):
    m = L.load('pyphs.numerics.simulations.h5data.tools')
    nr, nc = fresh_int('nr', 1), fresh_int('nc', 1)
    S, f = fresh_arr('data', nr, nc)
    chunk = fresh_int('chunksize', 1)
    kind = ctx().branch(z3.Const('whole_rows', z3.BoolSort())), ctx().branch(z3.Const('whole_columns', z3.BoolSort()))
    if kind[0]:
        a, b, rs = z3.IntVal(0), nr.e, None
    else:
        A, B = fresh_int('a', 0), fresh_int('b', 0)
        assume(z3.And(A.e <= B.e, B.e <= nr.e))
        a, b, rs = A.e, B.e, slice(A, B)
    if kind[1]:
        c0, c1, cs = z3.IntVal(0), nc.e, None
    else:
        A, B = fresh_int('c0', 0), fresh_int('c1', 0)
        assume(z3.And(A.e < B.e, B.e <= nc.e))
        c0, c1, cs = A.e, B.e, slice(A, B)
    rows = fresh_int('rows', 0)
    assume(rows.e >= b - a)
    cols = z3.simplify(c1 - c0)
    seq, g = fresh_arr('seq', rows, SInt(cols))
    flats = []

    def from_iterable(it):
        if it is not seq:
            raise Unsupported('flattening of %r' % type(it))
        flats.append(Flat(it))
        return flats[-1]

    def fromiter(fl, dtype, count):
        n = zint(count)
        prove('fromiter.enough', z3.Implies(fl.pos == fl.row * cols, n <= (rows.e - fl.row) * cols))
        prove('fromiter.count', n >= 0)
        fl.wait, fl.pos = fl.pos, z3.simplify(fl.pos + n)
        return Buf(fl, n)
    m.from_iterable = from_iterable
    m.np = pytypes.SimpleNamespace(fromiter=fromiter)
    n = z3.simplify(b - a)

    def spec(off):
        return lambda r, c: z3.If(z3.And(r >= a, r < a + off, c >= c0, c < c1), g(r - a, c - c0), f(r, c))

    class Inv:
        def check(self, st, _, tag):
            off = zint(st['offset'])
            fl = flats[0]
            if tag == 'preserved':
                prove('variant', z3.And(off > self.off, off <= n))
            prove(tag + '.offset', z3.And(0 <= off, off <= n))
            prove(tag + '.position', z3.And(fl.row == off, fl.pos == off * cols))
            r, c = skolem('r'), skolem('c')
            prove(tag + '.data', z3.Implies(z3.And(in_range(r, nr.e), in_range(c, nc.e)), S.at(r, c) == spec(off)(r, c)))
            prove(tag + '.shape', z3.And(S.dims[0] == nr.e, S.dims[1] == nc.e))

        def havoc(self, st, _):
            off = fresh_int('offset', 0)
            assume(off.e <= n)
            self.off = off.e
            st['offset'] = off
            for k in ('buffer_rslice', 'count', 'buffer'):
                try:
                    st[k] = UNDEF_
                except KeyError:
                    pass
            fl = flats[0]
            fl.row, fl.pos, fl.wait = off.e, off.e * cols, None
            S.at = spec(off.e)
    from ..loops import UNDEF as UNDEF_
    ctx().invs['pyphs.numerics.simulations.h5data.tools:set_dataset_from_iterable:1'] = Inv()
    returns_normally('total', lambda: m.set_dataset_from_iterable(S, seq, rs, cs, chunksize=chunk))
    prove_arr('data', S, [nr.e, nc.e], spec(n))
    prove('one_pass', z3.BoolVal(len(flats) == 1))
    cover('end')


def _hstack(which):
    def h(L):
        w = World(L)
        d = w.d
        a, b, s = w.window()
        parts = {'args': ('x', 'dx', 'w', 'u', 'p'), 'a': ('dxH', 'z', 'u'), 'b': ('dtx', 'w', 'y')}[which]
        got = returns_normally('total', lambda: getattr(d, which)())
        N = count(a, b, s)
        total = z3.Sum([w.size('dx' if n == 'dtx' else n).e for n in parts])
        prove_arr('shape', got, [N, total], got.at)
        p = z3.IntVal(0)
        for n in parts:
            v = 'dx' if n == 'dtx' else n
            k, j = skolem('k'), skolem('j')
            one = w.f(a + k * s, w.off(v) + j) * (w.fs.e if n == 'dtx' else 1)
            prove('part.' + n, z3.Implies(z3.And(in_range(k, N), in_range(j, w.size(v).e)), got.at(k, p + j) == one))
            p = z3.simplify(p + w.size(v).e)
        prove_arr('unchanged', w.S, [w.nt.e, w.dim], w.f)
        cover('end')
    return h


for _n, _t in (('args', 'the columns of x, dx, w, u, p'), ('a', 'the columns of dxH, z, u'), ('b', 'the columns of dx*fs, w, y')):
    contract('C12.' + _n, [H5 + '.' + _n, H5 + '._hstack', H5 + '.dtx', H5 + '.__getitem__', H5 + '._read_data', H5 + '._tslice',
                           H5 + '._tuple2slice', H5 + '._process_data'], note=_t + ', row k being sample start + k*step')(_hstack(_n))


@contract('C12.times', [H5 + '.t', H5 + '._tslice'], note='time value k is that of the k-th selected row')
def times_(L):
    w = World(L)
    a, b, s = w.window()
    got = returns_normally('total', lambda: w.d.t())
    prove_arr('default', got, [count(a, b, s)], lambda k: z3.ToReal(a + k * s) / w.fs.e)
    p, q, r = fresh_int('p', 0), fresh_int('q', 0), fresh_int('r', 1)
    assume(z3.And(p.e <= q.e, q.e <= w.nt.e))
    got = returns_normally('total2', lambda: w.d.t(tslice=slice(p, q, r)))
    prove_arr('window', got, [count(p.e, q.e, r.e)], lambda k: z3.ToReal(p.e + k * r.e) / w.fs.e)
    cover('end')


@contract('C12.time2index', [H5 + '._time2index'],
          note='a time within 4e-7 samples of sample i (rounding of t and t*fs included) has index i; i + 1 as an upper bound')
def time2index(L):
    w = World(L)
    i = skolem('i')
    assume(i >= 0)
    t = SReal(z3.Const('t', z3.RealSort()))
    e = t.e * w.fs.e - z3.ToReal(i)
    assume(z3.And(e <= z3.Q(4, 10**7), e >= -z3.Q(4, 10**7)))
    prove('lower', zint(returns_normally('total', lambda: helper(w.d, '_time2index')(t, m='min'))) == i)
    prove('upper', zint(returns_normally('total2', lambda: helper(w.d, '_time2index')(t, m='max'))) == i + 1)
    cover('end')


@contract('C12.index2time', [H5 + '._index2time'], note='time of the sample; of the last sample for an upper bound')
def index2time(L):
    w = World(L)
    i = fresh_int('i', 0)
    prove('lower', C.zreal(returns_normally('total', lambda: helper(w.d, '_index2time')(i, m='min'))) * w.fs.e == z3.ToReal(i.e))
    prove('upper', C.zreal(returns_normally('total2', lambda: helper(w.d, '_index2time')(i, m='max'))) * w.fs.e == z3.ToReal(i.e - 1))
    cover('end')


def outcome(fn):
    try:
        fn()
        return True
    except ValueError:
        return False


def loaded(w):
    d = w.d
    return z3.IntVal(0) if w.load_['start'] is None else zint(w.load_['start']), \
        w.nt.e if w.load_['stop'] is None else zint(w.load_['stop']), zint(w.load_['step'])


def _bounds(which):
    def h(L):
        w = World(L)
        d = w.d
        a, b, s = w.window()
        i = fresh_int('i')
        ok = outcome(lambda: setattr(d, which, i))
        val = dict(start=z3.And(0 <= i.e, i.e < b), stop=z3.And(a < i.e, i.e <= w.nt.e), step=i.e >= 1)[which]
        new = dict(start=(i.e, b, s), stop=(a, i.e, s), step=(a, b, i.e))[which] if ok else (a, b, s)
        prove('accepted' if ok else 'rejected', val if ok else z3.Not(val))
        prove('window', z3.And(*[x == y for x, y in zip(loaded(w), new)]))
        prove('read', zint(getattr(d, which)) == dict(start=new[0], stop=new[1], step=new[2])[which])
        setattr(d, which, None)
        prove('default', zint(getattr(d, which)) == dict(start=z3.IntVal(0), stop=w.nt.e, step=z3.IntVal(1))[which])
        cover('end')
    return h


for _n in ('start', 'stop', 'step'):
    contract('C12.set_' + _n, [H5 + '._set_' + _n, H5 + '._get_' + _n],
             note='accepted exactly for bounds inside the record; sets that bound only')(_bounds(_n))


def _tbounds(which):
    def h(L):
        w = World(L)
        d = w.d
        a, b, s = w.window()
        i = fresh_int('i', 0)
        assume(i.e < w.nt.e)
        t = SReal(z3.ToReal(i.e) / w.fs.e)
        # facts on the quotients (field arithmetic): order of times is the order of indices
        for x in (a, b - 1, w.nt.e - 1, z3.IntVal(0)):
            for y in (i.e,):
                assume((z3.ToReal(x) / w.fs.e <= z3.ToReal(y) / w.fs.e) == (x <= y))
                assume((z3.ToReal(y) / w.fs.e <= z3.ToReal(x) / w.fs.e) == (y <= x))
        assume(t.e * w.fs.e == z3.ToReal(i.e))
        ok = outcome(lambda: setattr(d, which, t))
        inside = i.e <= b - 1 if which == 'tstart' else a <= i.e
        prove('accepted' if ok else 'rejected', inside if ok else z3.Not(inside))
        new = ((i.e, b, s) if which == 'tstart' else (a, i.e + 1, s)) if ok else (a, b, s)
        prove('window', z3.And(*[x == y for x, y in zip(loaded(w), new)]))
        if ok:
            w.load_['start' if which == 'tstart' else 'stop'] = SInt(new[0] if which == 'tstart' else new[1])   # equal: proved above
            got = C.zreal(returns_normally('readable', lambda: getattr(d, which)))
            prove('reads_back', got * w.fs.e == z3.ToReal(i.e))
        cover('end')
    return h


for _n in ('tstart', 'tstop'):
    contract('C12.set_' + _n, [H5 + '._set_' + _n, H5 + '._get_' + _n, H5 + '._time2index', H5 + '._index2time',
                               H5 + '._set_' + _n[1:]],
             note='the time of sample i as a bound selects from (up to and including) sample i, any sample rate')(_tbounds(_n))
