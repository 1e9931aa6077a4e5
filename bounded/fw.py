"""Run-time contract checking of the real pyphs code (PyPy, real dependencies).

Each obligation is a postcondition of real functions, evaluated on enumerated / generated
inputs with a stated bound.  It serves three purposes: (1) replay and counterexample search
for obligations the deductive verifier refuses, (2) the labelled-bounded stand-in for functions
outside the verifier's reach, (3) cross-check of the verifier's assumptions on dependencies.
"""
import os
import random
import signal
import sys
import time
import traceback

OBL = {}


class Violation(Exception):
    def __init__(self, what, wit):
        Exception.__init__(self, what)
        self.what, self.wit = what, wit


class Skip(Exception):
    pass


class Timeout(BaseException):
    pass


def obligation(prop, name, bound, funcs=(), tier='quick', limit=150):
    def deco(f):
        OBL.setdefault(prop, []).append(
            dict(prop=prop, name='%s.%s' % (prop, name), bound=bound, funcs=list(funcs), fn=f, tier=tier,
                 limit=limit))
        return f
    return deco


class T:
    def __init__(self, tier, seed, name):
        self.tier, self.seed = tier, seed
        self.rng = random.Random('%s/%s' % (seed, name))
        self.n = 0
        self.cases = 0
        self.samples = []
        self.ctx = {}
        self.known = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def case(self, **kw):
        self.cases += 1
        self.ctx = {k: show(v) for k, v in kw.items()}
        if len(self.samples) < 3:
            self.samples.append(self.ctx)

    def check(self, cond, what, **wit):
        self.n += 1
        if not cond:
            w = dict(self.ctx)
            w.update({k: show(v) for k, v in wit.items()})
            raise Violation(what, w)

    def eq(self, a, b, what, **wit):
        self.check(a == b, what, got=a, expected=b, **wit)

    def close(self, a, b, what, tol=1e-8, **wit):
        try:
            a, b = complex(a), complex(b)
            ok = abs(a - b) <= tol * (1 + abs(a) + abs(b))
        except TypeError:
            ok = False
        self.check(ok, what, got=a, expected=b, **wit)

    def raises(self, what, exc, fn, *a, **k):
        self.n += 1
        try:
            fn(*a, **k)
        except exc:
            return
        raise Violation(what + ': expected an exception', dict(self.ctx))

    def imp(self, mod, *names):
        import importlib
        try:
            m = importlib.import_module(mod)
            out = [getattr(m, n) for n in names]
        except (ImportError, AttributeError) as e:
            raise Skip('%s' % e)
        return out[0] if len(out) == 1 else out


def show(v, n=600):
    try:
        s = v if isinstance(v, (int, float, str, type(None))) else str(v)
    except Exception as e:     # noqa
        s = '<%s>' % type(v)
    return s[:n] if isinstance(s, str) else s


REPO = os.environ.get('VERIF_REPO', '/repo')


def run_one(ob, tier, seed):
    t = T(tier, seed, ob['name'])
    r = dict(name=ob['name'], bound=ob['bound'], funcs=ob['funcs'], status='held', detail=None)
    t0 = time.time()
    limit = ob['limit'] if tier == 'quick' else 4 * ob['limit']

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        ob['fn'](t)
        if t.n == 0:
            r['status'], r['detail'] = 'undecided', 'no check was evaluated'
    except Violation as v:
        r['status'], r['detail'] = 'violated', dict(what=v.what, witness=v.wit)
    except Skip as s:
        r['status'], r['detail'] = 'undecided', 'interface not found: %s' % s
    except Timeout:
        r['status'], r['detail'] = 'undecided', 'time limit %ss' % limit
    except MemoryError:
        r['status'], r['detail'] = 'undecided', 'memory'
    except Exception as e:      # noqa
        tb = traceback.extract_tb(sys.exc_info()[2])
        files = [f.filename for f in tb]
        inrepo = [f for f in tb if f.filename.startswith(REPO + '/pyphs')]
        last = tb[-1].filename
        if inrepo and '/verif/' not in last:
            r['status'] = 'violated'
            r['detail'] = dict(what='the code raised %s: %s' % (type(e).__name__, str(e)[:300]),
                               witness=dict(t.ctx), trace=['%s:%d %s' % (f.filename, f.lineno, f.name)
                                                           for f in tb[-6:]])
        else:
            r['status'] = 'undecided'
            r['detail'] = 'harness: %s: %s (%s)' % (type(e).__name__, str(e)[:300],
                                                    ['%s:%d' % (f.filename, f.lineno) for f in tb[-4:]])
    finally:
        signal.alarm(0)
    r.update(checks=t.n, cases=t.cases, samples=t.samples, known=t.known, wall_s=round(time.time() - t0, 2))
    return r
