"""independent interpreter of a Method's update actions (plain floats, no numpy, no lambdify)"""
import math
import sympy as sp
from fw import Violation
from lib import fev, rows


def geteval_(o, name):
    a = getattr(o, name)
    return a() if callable(a) else a


def is_mat(v):
    return isinstance(v, list) and len(v) > 0 and isinstance(v[0], list)


def dot(a, b):
    if not isinstance(a, list):
        return prod(a, b)
    if not isinstance(b, list):
        return prod(b, a)
    if is_mat(a):
        if is_mat(b):
            return [[sum(r[k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for r in a]
        return [sum(x * y for x, y in zip(r, b)) for r in a]
    return sum(x * y for x, y in zip(a, b))


def prod(a, b):
    if not isinstance(a, list) and not isinstance(b, list):
        return a * b
    if not isinstance(a, list):
        return [prod(a, e) for e in b]
    if not isinstance(b, list):
        return [prod(e, b) for e in a]
    return [prod(e, f) for e, f in zip(a, b)]


def add(a, b):
    if not isinstance(a, list) and not isinstance(b, list):
        return a + b
    return [add(e, f) for e, f in zip(a, b)]


def inv(A):
    n = len(A)
    M = [list(A[i]) + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(M[i][k]))
        if abs(M[p][k]) < 1e-13:
            raise ZeroDivisionError
        M[k], M[p] = M[p], M[k]
        q = M[k][k]
        M[k] = [v / q for v in M[k]]
        for i in range(n):
            if i != k and M[i][k]:
                f = M[i][k]
                M[i] = [x - f * y for x, y in zip(M[i], M[k])]
    return [r[n:] for r in M]


OPS = {'add': add, 'prod': prod, 'dot': dot, 'inv': inv, 'copy': lambda a: a,
       'norm': lambda a: math.sqrt(sum(e * e for e in a)), 'div': lambda a, b: a / b}


def consts(m):
    """the parameter values stored in a method, expressions among them evaluated from the others"""
    raw = {k: sp.sympify(v) for k, v in m.subs.items() if k != m.fs}
    out = {}
    for k, v in raw.items():
        for _ in raw:
            if not v.free_symbols:
                break
            v = v.subs(raw)
        if not v.free_symbols:
            out[k] = float(v)
    return out


class Interp:
    def __init__(self, m, fs, subs=None):
        self.m = m
        self.env = {s: 0.0 for s in m.args()}
        self.const = {m.fs: fs}
        for k, v in consts(m).items():
            self.const[k] = v
        for k, v in (subs or {}).items():
            self.const[k] = v
        self.mem = {}

    def arg_symbols(self, name):
        if name in ('x', 'dx', 'w', 'u', 'p', 'o', 'v', 'xl', 'xnl', 'dxl', 'dxnl', 'wl', 'wnl', 'vl', 'vnl'):
            return list(geteval_(self.m, name))
        return None

    def get(self, name):
        s = self.arg_symbols(name)
        if s is not None:
            return [self.env[e] for e in s]
        if name not in self.mem:
            self.mem[name] = self.eval(name)
        return self.mem[name]

    def set(self, name, v):
        s = self.arg_symbols(name)
        if s is not None:
            assert len(s) == len(v), (name, s, v)
            for e, q in zip(s, v):
                self.env[e] = q
        else:
            self.mem[name] = v

    def expr(self, e):
        full = dict(self.env)
        full.update(self.const)
        try:
            if isinstance(e, (list, tuple)):
                return [fev(sp.sympify(q), full) for q in e]
            if hasattr(e, 'shape'):
                return [[fev(q, full) for q in r] for r in rows(e)]
            return fev(sp.sympify(e), full)
        except KeyError as err:
            raise Violation('an expression of the scheme uses a symbol that is neither a variable of the method nor a '
                            'parameter with a value', dict(symbol=str(err), expression=str(e)[:600]))

    def op(self, o):
        a = []
        for q in o.args:
            if isinstance(q, str):
                a.append(self.get(q))
            elif hasattr(q, 'operation'):
                a.append(self.op(q))
            else:
                a.append(q)
        return OPS[o.operation](*a)

    def eval(self, name):
        if name in self.m.ops_names:
            return self.op(getattr(self.m, name + '_op'))
        if name == 'y':
            return self.expr(geteval_(self.m, 'output'))
        return self.expr(geteval_(self.m, name))

    def execs(self, cmds):
        for c in cmds:
            a, b = (c, c) if isinstance(c, str) else (c[0], c[1])
            self.set(a, self.eval(b))

    def step(self, u, p, eps=1e-11, maxit=60):
        """returns (iterations or None when there is no implicit part, residual)"""
        self.set('u', u)
        self.set('p', p)
        it, res = None, 0.0
        for kind, arg in self.m.update_actions:
            if kind == 'exec':
                self.execs(arg)
            else:
                cmds, rn, sn = arg
                it, step = 0, 1.0
                self.set(sn, 1.0)
                while self.get(rn) > eps and step > eps and it < maxit:
                    self.execs(cmds)
                    step = self.get(sn)
                    it += 1
                res = self.get(rn)
        return it, res
