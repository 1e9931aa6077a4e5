"""C15 - netlists: editing acts on one line."""
import types as pytypes
from ..spec import *

NL = 'pyphs/graphs/netlists.py:Netlist'
FIELDS = (('dictionaries', 'dictionary'), ('components', 'component'), ('labels', 'label'), ('nodes', 'nodes'),
          ('arguments', 'arguments'))


def netlist(L, name='net'):
    """a Netlist with any number of lines; every field is an arbitrary value"""
    m = L.load('pyphs.graphs.netlists')
    net = track(m.Netlist.__new__(m.Netlist))
    n = fresh_int(name + '.n', 0)
    at = {}
    for attr, _ in FIELDS:
        l, at[attr] = fresh_values(name + '.' + attr, n)
        setattr(net, attr, l)
    ctx().__dict__.setdefault('seqlen', []).append((net, n.e))
    return net, n.e, at


def line(name='line'):
    return VDict([(key, fresh_value(name + '.' + key)) for _, key in FIELDS])


def fields(name, net, n, spec):
    """postcondition: every field of net has n entries, entry i being spec(attr, i)"""
    for attr, _ in FIELDS:
        forall_elem('%s.%s' % (name, attr), getattr(net, attr), n, lambda i, a=attr: spec(a, i))


@contract('C15.getitem', [NL + '.__getitem__', NL + '.nlines'], note='line n holds the n-th entry of every field, any netlist, any n')
def getitem(L):
    net, n, at = netlist(L)
    i = skolem('i')
    assume(in_range(i, n))
    d = returns_normally('total', lambda: net[SInt(i)])
    prove('keys', z3.BoolVal(sorted(d.keys()) == sorted(k for _, k in FIELDS)))
    for attr, key in FIELDS:
        prove('entry.' + key, veq(d[key], SOpaque(at[attr](i))))
    prove('nlines', zint(returns_normally('nlines.total', lambda: net.nlines())) == n)
    fields('unchanged', net, n, lambda a, q: SOpaque(at[a](q)))
    cover('end')


@contract('C15.add_line', [NL + '.add_line'], note='appends the given line, every other line unchanged')
def add_line(L):
    net, n, at = netlist(L)
    d = line()
    key = dict(FIELDS)
    returns_normally('total', lambda: net.add_line(d))
    fields('lines', net, n + 1, lambda a, q: ite(q < n, SOpaque(at[a](q)), d[key[a]]))
    cover('end')


@contract('C15.delline', [NL + '.delline'], note='removes line k and only line k, any netlist, any k')
def delline(L):
    net, n, at = netlist(L)
    k = skolem('k')
    assume(in_range(k, n))
    returns_normally('total', lambda: net.delline(SInt(k)))
    fields('lines', net, n - 1, lambda a, q: ite(q < k, SOpaque(at[a](q)), SOpaque(at[a](q + 1))))
    cover('end')


@contract('C15.setline', [NL + '.setline'],
          note='replaces the nodes and arguments of line k by the given ones (component names and label: by the value they '
               'denote); every other line unchanged')
def setline(L):
    net, n, at = netlist(L)
    m = L.load('pyphs.graphs.netlists')
    # ast.literal_eval: an arbitrary value of its argument, or ValueError / SyntaxError (assumed contract)
    lit = z3.Function(ctx().name('literal_eval'), D.Opq, D.Opq)

    def literal_eval(x):
        b = z3.Const(ctx().name('literal'), z3.BoolSort())
        if ctx().branch(b):
            return SOpaque(lit(x.e))
        raise ValueError('malformed node or string')
    m.ast = pytypes.SimpleNamespace(literal_eval=literal_eval)
    d = line()
    key = dict(FIELDS)
    k = skolem('k')
    assume(in_range(k, n))
    returns_normally('total', lambda: net.setline(SInt(k), d))
    for attr, _ in FIELDS:
        l = D.as_vlist(getattr(net, attr))
        prove('lines.%s.length' % attr, l.zlen() == n)
        q = skolem('q')
        prove('others.%s' % attr, z3.Implies(z3.And(in_range(q, n), q != k), veq(l.getter()(q), SOpaque(at[attr](q)))))
        got, new = l.getter()(k), d[key[attr]]
        if attr in ('nodes', 'arguments'):
            prove('line.%s' % attr, veq(got, new))
        else:
            prove('line.%s' % attr, z3.Or(veq(got, new), got.e == lit(new.e)))
    cover('end')


def _concat(L, alias):
    n1, len1, at1 = netlist(L, 'net1')
    n2, len2, at2 = (n1, len1, at1) if alias else netlist(L, 'net2')
    net = returns_normally('total', lambda: n1 + n2)
    fields('lines', net, len1 + len2, lambda a, q: ite(q < len1, SOpaque(at1[a](q)), SOpaque(at2[a](q - len1))))
    fields('first_unchanged', n1, len1, lambda a, q: SOpaque(at1[a](q)))
    fields('second_unchanged', n2, len2, lambda a, q: SOpaque(at2[a](q)))
    prove('new_object', z3.BoolVal(net is not n1 and net is not n2))
    cover('end')


@contract('C15.concatenation', [NL + '.__add__', NL + '.add_line', NL + '.__getitem__'],
          note='lines of the first netlist then lines of the second, any lengths; operands unchanged')
def concatenation(L):
    _concat(L, False)


@contract('C15.concatenation_with_itself', [NL + '.__add__', NL + '.add_line', NL + '.__getitem__'], note='net + net')
def concatenation_self(L):
    _concat(L, True)
