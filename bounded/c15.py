import copy
import os
from fw import obligation
from lib import *

KEYS = ('dictionary', 'component', 'label', 'nodes', 'arguments')
DICS = ['electronics', 'mechanics', 'connectors', 'thermics', 'pwl', 'my_dic2']
COMPS = ['capacitor', 'resistor', 'source', 'stiffness', 'Transformer', 'nl_2']


def ident(r):
    return r.choice('abcdeXYZ_') + ''.join(r.choice('abcXYZ_0123456789') for _ in range(r.randrange(6)))


def node(r):
    k = r.randrange(6)
    if k == 0:
        return '#'
    if k == 1:
        return r.randrange(-1, 40)
    if k == 2:
        return ident(r) + r.choice(["'", '"', '-', '+', '.1', '/2'])
    return ident(r)


def value(r):
    return r.choice([1e-9, 2.5, -3.25, 0, 7, -12, 1e12, 0.1, 1. / 3, 1e-300, 123456789.123456789, 5e-324])


def arg(r):
    k = r.randrange(17)
    if k == 16:
        return None
    k %= 4
    if k == 0:
        return ident(r)
    if k == 1:
        return (ident(r), value(r))
    return value(r)


def line(r):
    n = r.choice([1, 2, 2, 2, 3, 4])
    if r.random() < .3:
        # several components between the same nodes
        ns = r.choice([('A', 'B'), ('A', '#'), (1, 2)])
    else:
        ns = tuple(node(r) for _ in range(n))
    return dict(dictionary=r.choice(DICS), component=r.choice(COMPS), label=ident(r), nodes=ns,
                arguments={ident(r): arg(r) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))})


def content(net):
    return [{k: net[i][k] for k in KEYS} for i in range(net.nlines())]


def norm(ls):
    return [dict(l, nodes=tuple(l['nodes']), arguments=dict(l['arguments'])) for l in ls]


def eqc(t, net, ref, what, **w):
    got = norm(content(net))
    t.check(got == ref and all(list(g['arguments']) == list(e['arguments']) for g, e in zip(got, ref)), what, got=got, expected=ref, **w)
    for g, e in zip(got, ref):
        for k in e['arguments']:
            t.check(type(g['arguments'][k]) == type(e['arguments'][k]), what + ': type of the value', argument=k,
                    got=g['arguments'][k], expected=e['arguments'][k])
        t.check([type(q) for q in g['nodes']] == [type(q) for q in e['nodes']], what + ': type of the nodes', got=g['nodes'])
    t.eq(net.nlines(), len(ref), 'number of lines')
    for n in ('dictionaries', 'components', 'labels', 'nodes', 'arguments'):
        t.eq(len(getattr(net, n)), len(ref), 'one entry per line in ' + n)


_k = [0]


def fresh(t, ls):
    Netlist = t.imp('pyphs', 'Netlist')
    _k[0] += 1
    net = Netlist(os.path.join(os.getcwd(), 'n%d.net' % _k[0]), clear=True)
    for l in ls:
        net.add_line(copy.deepcopy(l))
    return net


@obligation('C15', 'round_trip', 'random netlists (<=8 lines; string, integer, datum and quoted nodes; arguments by value, label or both; '
            'no argument): write then read, read then print', ['Netlist.read', 'Netlist.write', 'Netlist.netlist', 'Netlist.line',
                                                              'print_netlist_line', 'Netlist.add_line'], limit=120)
def trip(t):
    Netlist = t.imp('pyphs', 'Netlist')
    for k in range(t.pick(150, 800)):
        ls = [line(t.rng) for _ in range(t.rng.choice([0, 1, 2, 3, 8]))]
        net = fresh(t, ls)
        t.case(lines=ls)
        eqc(t, net, ls, 'lines are added in order')
        text = net.netlist()
        net.write()
        eqc(t, Netlist(net.path), ls, 'printed then read back', text=text)
        other = net.path + '2'
        net.write(other)
        n2 = Netlist(other)
        eqc(t, n2, ls, 'written elsewhere then read back', text=text)
        t.eq(n2.netlist(), text, 'reading then printing gives the same text')
        eqc(t, net, ls, 'printing changes nothing')
        for i in range(len(ls)):
            p3 = net.path + '3'
            with open(p3, 'w') as h:
                h.write(net.line(i))
            eqc(t, Netlist(p3), [ls[i]], 'a single printed line')


@obligation('C15', 'reading', 'hand-rendered files: comments, empty lines, no final newline, nodes without parentheses, spacing',
            ['Netlist.read'], limit=60)
def reading(t):
    Netlist = t.imp('pyphs', 'Netlist')
    for k in range(t.pick(100, 500)):
        ls = [line(t.rng) for _ in range(t.rng.randint(1, 5))]
        out = []
        for l in ls:
            while t.rng.random() < .3:
                out.append(t.rng.choice(['# a comment: x=1', '', '#']))
            nd = [repr(n) for n in l['nodes']]
            s = t.rng.choice([', ', ',', ' , '])
            nodes = s.join(nd)
            if len(nd) == 1:
                nodes = '(' + nodes + ',)'
            elif t.rng.random() < .5:
                nodes = '(' + nodes + ')'
            gap = t.rng.choice([' ', '  ', '\t'])
            a = []
            for q, v in l['arguments'].items():
                v = v if isinstance(v, str) else ('(%r, %r)' % v if isinstance(v, tuple) else repr(v))
                e = t.rng.choice(['=', ' = '])
                a.append('%s%s%s' % (q, e, v))
            txt = ''.join(q + (t.rng.choice(['; ', ';', ' ; ']) if i + 1 < len(a) else '') for i, q in enumerate(a))
            if a and t.rng.random() < .6:
                txt += ';'
            out.append('%s.%s%s%s%s%s%s %s' % (l['dictionary'], l['component'], gap, l['label'], gap, nodes,
                                              t.rng.choice([':', ' :']), txt))
        text = '\n'.join(out) + t.rng.choice(['', '\n', '\n\n'])
        p = os.path.join(os.getcwd(), 'r%d.net' % k)
        with open(p, 'w') as h:
            h.write(text)
        t.case(text=text)
        eqc(t, Netlist(p), ls, 'read lines')
        with open(p) as h:
            t.eq(h.read(), text, 'reading leaves the file as it was')
        Netlist(p, clear=True)


@obligation('C15', 'editing', 'random histories (<=12 operations) of add/replace/delete/concatenate/write/read against a list of lines',
            ['Netlist.add_line', 'Netlist.setline', 'Netlist.delline', 'Netlist.__add__', 'Netlist.__getitem__'], limit=120)
def editing(t):
    Netlist = t.imp('pyphs', 'Netlist')
    for k in range(t.pick(500, 3000)):
        ref = [line(t.rng) for _ in range(t.rng.randint(1, 6))]
        net = fresh(t, ref)
        hist = []
        t.case(start=copy.deepcopy(ref))
        for s in range(t.rng.randint(1, 12)):
            op = t.rng.choice(['add', 'set', 'del', 'cat', 'disk'])
            if op == 'add':
                l = line(t.rng)
                net.add_line(copy.deepcopy(l))
                ref = ref + [l]
                hist.append(op)
            elif op == 'set' and ref:
                i = t.rng.randrange(-len(ref), len(ref))
                l = line(t.rng)
                net.setline(i, copy.deepcopy(l))
                ref = list(ref)
                ref[i] = l
                hist.append((op, i, l))
            elif op == 'del' and ref:
                i = t.rng.randrange(-len(ref), len(ref))
                net.delline(i)
                ref = list(ref)
                del ref[i]
                hist.append((op, i))
            elif op == 'cat':
                ls = [line(t.rng) for _ in range(t.rng.randint(0, 3))]
                n2 = fresh(t, ls)
                n3 = net + n2
                eqc(t, net, ref, 'concatenation leaves the first operand', history=hist)
                eqc(t, n2, ls, 'concatenation leaves the second operand', history=hist)
                ref = ref + ls
                net = n3
                hist.append((op, len(ls)))
            elif op == 'disk' and ref:
                p = os.path.join(os.getcwd(), 'h%d_%d.net' % (k, s))
                net.write(p)
                net = Netlist(p)
                hist.append(op)
            eqc(t, net, ref, 'after ' + op, history=hist)
            for i in range(-len(ref), len(ref)):
                g = net[i]
                t.check(all((tuple(g[q]) if q == 'nodes' else g[q]) == ref[i][q] for q in KEYS), 'line by position', index=i, got=g)
