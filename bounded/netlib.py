"""independent tableau oracle for networks of one-port components and two-port connectors"""
import random
import sympy as sp
from lib import fev, fmat, fsolve, S

DATUM = '#'


class Net:
    """list of elements: (kind, label, nodes, value); edge direction nodes[0] -> nodes[1]; a source with one node is datum -> node
    kinds: R, C, L, V, I, T(ransformer), G(yrator); e: effort across (potential of tail minus head or the converse, global sign
    irrelevant), f: flux through"""

    def __init__(self, els):
        self.els = els

    def edges(self):
        out = []
        for k, l, n, v in self.els:
            if k in 'TG':
                out.append((k + '1', l, n[0], n[1], v))
                out.append((k + '2', l, n[2], n[3], v))
            else:
                a, b = (DATUM, n[0]) if len(n) == 1 else n
                out.append((k, l, a, b, v))
        return out

    def solve(self, s, u):
        """tableau at Laplace variable s with source values u[label]; returns {label: (e, f)} of the sources, or None when singular"""
        ed = self.edges()
        nodes = sorted({n for e in ed for n in e[2:4]} | {DATUM}, key=str)
        free = [n for n in nodes if n != DATUM]
        m, k = len(ed), len(free)
        N = 2 * m + k          # unknowns: e_i, f_i, potentials

        def E(i):
            return i

        def F(i):
            return m + i

        def P(n):
            return 2 * m + free.index(n)
        A, b = [], []

        def row(d, r=0.):
            q = [0.] * N
            for i, v in d:
                q[i] += v
            A.append(q)
            b.append(r)
        for i, (kd, l, a, c, v) in enumerate(ed):
            d = [(E(i), 1.)]
            if c != DATUM:
                d.append((P(c), -1.))
            if a != DATUM:
                d.append((P(a), 1.))
            row(d)
        for n in free:
            row([(F(i), (1. if e[3] == n else 0.) - (1. if e[2] == n else 0.)) for i, e in enumerate(ed)])
        for i, (kd, l, a, c, v) in enumerate(ed):
            if kd in ('R', 'E', 'F'):
                row([(E(i), 1.), (F(i), -v)])
            elif kd == 'C':
                row([(F(i), 1.), (E(i), -s * v)])
            elif kd == 'L':
                row([(E(i), 1.), (F(i), -s * v)])
            elif kd == 'V':
                row([(E(i), 1.)], u[l])
            elif kd == 'I':
                row([(F(i), 1.)], u[l])
            elif kd == 'T1':        # f_A = -alpha f_B, e_B = alpha e_A   (A = i, B = i+1)
                row([(F(i), 1.), (F(i + 1), v)])
                row([(E(i + 1), 1.), (E(i), -v)])
            elif kd == 'G1':        # e_A = -alpha f_B, e_B = alpha f_A
                row([(E(i), 1.), (F(i + 1), v)])
                row([(E(i + 1), 1.), (F(i), -v)])
        if len(A) != N:
            return None
        x = fsolve(A, b)
        if x is None:
            return None
        return {l: (x[E(i)], x[F(i)]) for i, (kd, l, a, c, v) in enumerate(ed) if kd in 'VI'}

    def graph(self, t, order=None):
        el = t.imp('pyphs.dictionary', 'electronics')
        con = t.imp('pyphs.dictionary', 'connectors')
        Graph = t.imp('pyphs', 'Graph')
        g = Graph(label='net')
        for k, l, n, v in self.els:
            if k in 'EF':       # resistor with fixed control
                w = S('w' + l)
                c = Graph(label=l)
                law = w / v if k == 'E' else v * w
                ck = 'e' if k == 'E' else 'f'
                c.core.add_dissipations([w], [law])
                c.add_edges_from([(n[0], n[1], {'label': w, 'type': 'dissipative', 'ctrl': ck, 'z': {ck + '_ctrl': law}, 'link': None})])
            elif k == 'R':
                c = el.Resistor(l, n, R=(l + '_R', v))
            elif k == 'C':
                c = el.Capacitor(l, n, C=(l + '_C', v))
            elif k == 'L':
                c = el.Inductor(l, n, L=(l + '_L', v))
            elif k == 'V':
                c = el.Source(l, n, type='voltage')
            elif k == 'I':
                c = el.Source(l, n, type='current')
            elif k == 'T':
                c = con.Transformer(l, n, alpha=(l + '_a', v))
            elif k == 'G':
                c = con.Gyrator(l, n, alpha=(l + '_a', v))
            g += c
        return g


def core_response(c, s, u):
    """outputs of a linear core at Laplace variable s; u: {str(input): value}; None when singular or not linear"""
    env = {k: float(v) for k, v in c.subs.items()}
    x, w, y, us = list(c.x), list(c.w), list(c.y), list(c.u)
    n = len(x) + len(w)
    M = fmat(c.M, env)
    G = [sp.diff(c.H, xi) for xi in x]
    Q = [[fev(sp.sympify(sp.diff(g, xj)), env) for xj in x] for g in G]
    Z = [[fev(sp.sympify(sp.diff(z, wj)), env) for wj in w] for z in c.z]
    uv = [u[str(q)] for q in us]
    # unknown v = (x, w); b = (Q x, Z w, u);   s x = M_x b, w = M_w b
    nx, nw = len(x), len(w)
    A, r = [], []
    for i in range(n):
        rowv = []
        for j in range(n):
            if j < nx:
                q = sum(M[i][k] * Q[k][j] for k in range(nx))
            else:
                q = sum(M[i][nx + k] * Z[k][j - nx] for k in range(nw))
            rowv.append((s if i == j and i < nx else (1. if i == j else 0.)) - q)
        A.append(rowv)
        r.append(sum(M[i][n + k] * uv[k] for k in range(len(uv))))
    v = fsolve(A, r) if n else []
    if v is None:
        return None
    b = [sum(Q[i][j] * v[j] for j in range(nx)) for i in range(nx)] + \
        [sum(Z[i][j] * v[nx + j] for j in range(nw)) for i in range(nw)] + uv
    return {str(y[k]): sum(M[n + k][j] * b[j] for j in range(len(b))) for k in range(len(y))}
