"""C14 - copies."""
import types as pytypes
from ..spec import *

CO = 'pyphs/core/core.py'
LISTS = ('x', 'w', 'u', 'y', 'cu', 'cy', 'p')


def choice(name, k):
    for q in range(k - 1):
        if ctx().branch(z3.Const('%s_%d' % (name, q), z3.BoolSort())):
            return q
    return k - 1


def whole(L, nobs, ncon):
    """a core with every kind of content, any dimensions"""
    s = SymCore(L, linear=True, dxH=ctx().branch(z3.Const('stored_gradient', z3.BoolSort())), distinct=False)
    c = s.core
    c.label = 'name'
    c.p, _ = fresh_symlist('p', fresh_int('np', 0), False)
    c.dims._xnl_mono = fresh_int('mono', 0)
    for nm in ('Q', 'Zl'):
        setattr(c, nm, fresh_mat(nm, fresh_int('m' + nm, 0), fresh_int('n' + nm, 0)))
    c.bl = fresh_exprlist('bl', fresh_int('nbl', 0))
    n = fresh_int('nextra', 0)
    c.setexpr('extra', fresh_exprlist('extra', n))
    c.force_wnl, _ = fresh_symlist('fw', fresh_int('nfw', 0), False)
    e = lambda nm: (lambda f: SExpr(lambda v: f(v)))(z3.Function(nm, Val, z3.RealSort()))       # noqa
    c.subs = VDict([(SSym(z3.Const('s%d' % q, SymSort)), e('sv%d' % q)) for q in range(2)])
    assume(c.subs.pairs[0][0].s != c.subs.pairs[1][0].s)
    c.observers = VDict([(SSym(z3.Const('o%d' % q, SymSort)), e('ov%d' % q)) for q in range(nobs)])
    for q in range(nobs - 1):
        assume(c.observers.pairs[q][0].s != c.observers.pairs[nobs - 1][0].s)
    c.connectors = VList([VDict(u=VList([SSym(z3.Const('cu%d_%d' % (q, r), SymSort)) for r in range(2)]),
                                y=VList([SSym(z3.Const('cy%d_%d' % (q, r), SymSort)) for r in range(2)]), alpha=e('alpha%d' % q)) for q in range(ncon)])
    return s


NAMES = LISTS + ('H', 'z', 'Q', 'Zl', 'bl', 'extra', 'M', '_dxH', 'force_wnl', 'subs', 'observers', 'connectors', 'symbs_names', 'exprs_names')


def snap(o):
    """a value that later in-place changes of o do not affect"""
    if isinstance(o, VList):
        return ('list', [snap(x) for x in o.c]) if o.c is not None else ('sym', o.n, o.at)
    if isinstance(o, SMat):
        return ('mat', o.m, o.n, o.at)
    if isinstance(o, VDict):
        return ('dict', [(k, snap(x)) for k, x in o.items()])
    if isinstance(o, (set, frozenset)):
        return ('set', set(o))
    if isinstance(o, (list, tuple)):
        return ('list', [snap(x) for x in o])
    return ('val', o)


def equal(name, a, b, v):
    """obligations: two snapshots have the same value"""
    if a[0] == b[0] == 'val':
        a, b = a[1], b[1]
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            prove(name, zint(a) == zint(b))
        elif isinstance(a, (SSym,)) and isinstance(b, SSym):
            prove(name, a.s == b.s)
        elif isinstance(a, SExpr) or isinstance(b, SExpr):
            prove(name, zden(as_expr(a))(v) == zden(as_expr(b))(v) if a is not None and b is not None else z3.BoolVal(False))
        else:
            prove(name, z3.BoolVal(a is b or a == b))
        return
    if a[0] != b[0]:
        if {a[0], b[0]} == {'list', 'sym'}:
            get = [(z3.IntVal(len(q[1])), VList(q[1]).getter()) if q[0] == 'list' else (q[1], q[2]) for q in (a, b)]
            prove(name + '.length', get[0][0] == get[1][0])
            if not ctx().entails(get[0][0] == 0):
                raise Unsupported('lists of different forms')
            return
        prove(name, z3.BoolVal(False))
        return
    if a[0] == 'sym':
        prove(name + '.length', a[1] == b[1])
        i = skolem('i')
        if not ctx().entails(a[1] == 0):
            prove(name, z3.Implies(in_range(i, a[1]), veq(a[2](i), b[2](i), v)))
    elif a[0] == 'mat':
        prove(name + '.shape', z3.And(a[1] == b[1], a[2] == b[2]))
        i, j = skolem('i'), skolem('j')
        prove(name, z3.Implies(z3.And(in_range(i, a[1]), in_range(j, a[2])), zden(as_expr(a[3](i, j)))(v) == zden(as_expr(b[3](i, j)))(v)))
    elif a[0] == 'list':
        prove(name + '.length', z3.BoolVal(len(a[1]) == len(b[1])))
        for p, q in zip(a[1], b[1]):
            equal(name, p, q, v)
    elif a[0] == 'dict':
        prove(name + '.length', z3.BoolVal(len(a[1]) == len(b[1])))
        for (k, p), (kk, q) in zip(a[1], b[1]):
            prove(name + '.key', k.s == kk.s if isinstance(k, SSym) and isinstance(kk, SSym) else z3.BoolVal(k is kk or (isinstance(k, str) and k == kk)))
            equal(name, p, q, v)
    else:
        prove(name, z3.BoolVal(a[1] == b[1]))


MUTABLE = (VList, VDict, SMat, set, list)


def reach(o, out=None, path=''):
    """mutable objects reachable from o (contents of containers, attributes of pyphs objects)"""
    out = {} if out is None else out
    if isinstance(o, MUTABLE) or type(o).__module__.startswith('pyphs'):
        if id(o) in out:
            return out
        out[id(o)] = (path, o)
    if isinstance(o, VList):
        for x in (o.c if o.c is not None else []):
            reach(x, out, path + '[]')
    elif isinstance(o, VDict):
        for k, x in o.items():
            reach(x, out, path + '[]')
    elif isinstance(o, (list, tuple)):
        for x in o:
            reach(x, out, path + '[]')
    elif type(o).__module__.startswith('pyphs') and hasattr(o, '__dict__'):
        for k, x in list(o.__dict__.items()):
            reach(x, out, path + '.' + k)
    elif hasattr(o, '__self__'):
        reach(o.__self__, out, path + '.self')
    elif getattr(o, '__closure__', None):
        for cell in o.__closure__:
            try:
                x = cell.cell_contents
            except ValueError:
                continue
            if not isinstance(x, type) and (isinstance(x, MUTABLE) or type(x).__module__.startswith('pyphs') or hasattr(x, '__self__')):
                reach(x, out, path + '.closure')
    return out


def attr(c, nm):
    x = getattr(c, nm)
    return x() if callable(x) and not isinstance(x, SExpr) else x


def compare(name, orig, c, v):
    for nm, sn in orig.items():
        if nm.startswith('dims.'):
            equal(name + nm, sn, snap(getattr(c.dims, nm[5:])), v)
        else:
            equal(name + nm, sn, snap(getattr(c, nm)), v)


def snapshot(c):
    r = {nm: snap(getattr(c, nm)) for nm in NAMES}
    r.update({'dims.' + nm: snap(getattr(c.dims, nm)) for nm in ('_xl', '_wl', '_xnl_mono')})
    return r


def separate(name, a, b):
    ra, rb = reach(a), reach(b)
    # objects holding contents of one of them (constants of the class may be shared)
    top = set(NAMES) | {'dims', 'inds'}
    common = [p for i, (p, o) in ra.items() if i in rb and {p.split('[')[0].split('.')[1:2][0] if '.' in p else 'dims',
                                                            rb[i][0].split('[')[0].split('.')[1:2][0] if '.' in rb[i][0] else 'dims'} & top]
    if common:
        ctx().rep.fail(ctx(), name, {'what': 'mutable objects shared by the two systems', 'reached by': common[:5]})
    else:
        prove(name, z3.BoolVal(True))


def copied(L, nobs, ncon):
    s = whole(L, nobs, ncon)
    c = s.core
    v = valuation()
    before = snapshot(c)
    r = returns_normally('total', lambda: c.__copy__())
    prove('class', z3.BoolVal(r is not c and type(r) is type(c)))
    prove('label', z3.BoolVal(r.label == c.label))
    compare('same.', before, r, v)
    compare('original.', before, c, v)
    separate('separate', c, r)
    prove('views', z3.BoolVal(r.dims.core is r and r.inds.core is r if hasattr(r.dims, 'core') and hasattr(r.inds, 'core') else True))
    cover('end')


for _o, _c in ((0, 0), (1, 1), (2, 2)):
    contract('C14.copy_%d_%d' % (_o, _c), [CO + ':Core.__copy__'], note='a copy of a core with any dimensions, partition, structure, laws, extra '
             'expressions, 2 stored substitutions, %d observers and %d pending connections has the same contents and shares no mutable object '
             'with the original, whose contents are unchanged' % (_o, _c))(lambda L, o=_o, k=_c: copied(L, o, k))


def pickled(o):
    """contract of shelve: what is read is an independent copy of what was written"""
    if isinstance(o, (VList, VDict, SMat)):
        r = o.copy()
        if isinstance(r, VList) and r.c is not None:
            r.c = [pickled(x) for x in r.c]
        if isinstance(r, VDict):
            dict.update(r, {k: pickled(x) for k, x in dict.items(r)})
            r.pairs = [(k, pickled(x)) for k, x in r.pairs]
        return r
    if isinstance(o, (set, list)):
        return type(o)(pickled(x) for x in o)
    return o


class Shelf(dict):
    files = {}

    def __init__(self, path):
        dict.__init__(self)
        self.path = path

    def __enter__(self):
        self.d = Shelf.files.setdefault(self.path, {})
        return self

    def __exit__(self, *a):
        return False

    def __setitem__(self, k, x):
        self.d[k] = pickled(x)

    def __getitem__(self, k):
        return pickled(self.d[k])


@contract('C14.save_load', [CO + ':Core.save', CO + ':Core.load'], note='a core of any dimensions (1 observer, 1 pending connection, 2 stored substitutions) saved '
          'then loaded in a fresh core has the same contents and shares no mutable object with it; the label names the file unless another is given '
          '(shelve by its contract)')
def save_load(L):
    s = whole(L, 1, 1)
    c = s.core
    m = L.load('pyphs.core.core')
    Shelf.files = {}
    m.shelve = pytypes.SimpleNamespace(open=Shelf)
    dirs = []
    import os as _os
    m.os = pytypes.SimpleNamespace(getcwd=lambda: 'CWD', path=pytypes.SimpleNamespace(join=_os.path.join, exists=lambda p: p in dirs), mkdir=dirs.append,
                                   makedirs=lambda p, **k: dirs.append(p))
    v = valuation()
    before = snapshot(c)
    own = ctx().branch(z3.Const('own_label', z3.BoolSort()))
    kw = {} if own else dict(label='other')
    if ctx().branch(z3.Const('own_folder', z3.BoolSort())):
        kw['folder'] = 'FOLDER'
    returns_normally('save', lambda: c.save(**kw))
    compare('original.', before, c, v)
    r = track(m.Core(label='name' if own else 'other'))
    returns_normally('load', lambda: r.load(**({k: x for k, x in kw.items() if k == 'folder'})))
    prove('label', z3.BoolVal(r.label == ('name' if own else 'other')))
    compare('same.', before, r, v)
    separate('separate', c, r)
    prove('place', z3.BoolVal(all(p.startswith(kw.get('folder', 'CWD')) for p in Shelf.files)))
    cover('end')
