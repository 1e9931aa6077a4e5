"""usage: run.py PROP --tier quick --seed 1 --out FILE [--only OBLIGATION] [--jobs N]"""
import argparse
import importlib
import json
import os
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix='verif_b_')
    os.chdir(scratch)
    import fw
    res = []
    try:
        real_stdout = os.dup(1)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)          # the code under test prints a lot
        import pyphs                 # noqa
        import pyphs.config
        assert os.path.realpath(pyphs.__file__).startswith(os.path.realpath(fw.REPO)), pyphs.__file__
        importlib.import_module(a.prop.lower())
        obls = [o for o in fw.OBL.get(a.prop, []) if (a.tier == 'thorough' or o['tier'] == 'quick')]
        if a.only:
            obls = [o for o in obls if o['name'] == a.only]
        if a.jobs > 1 and len(obls) > 1:
            kids = {}
            todo = list(enumerate(obls))
            order = sorted(todo, key=lambda p: -p[1]['limit'])
            out = {}
            while order or kids:
                while order and len(kids) < a.jobs:
                    i, o = order.pop(0)
                    path = os.path.join(scratch, 'r%d.json' % i)
                    d = os.path.join(scratch, 'w%d' % i)
                    os.mkdir(d)
                    pid = os.fork()
                    if pid == 0:
                        code = 0
                        try:
                            os.chdir(d)
                            r = fw.run_one(o, a.tier, a.seed)
                            with open(path, 'w') as h:
                                json.dump(r, h, default=str)
                        except BaseException as e:  # noqa
                            sys.stderr.write('worker %s: %r\n' % (o['name'], e))
                            code = 1
                        os._exit(code)
                    kids[pid] = (i, o, path)
                pid, st = os.wait()
                if pid in kids:
                    i, o, path = kids.pop(pid)
                    try:
                        with open(path) as h:
                            out[i] = json.load(h)
                    except Exception:       # noqa
                        out[i] = dict(name=o['name'], bound=o['bound'], funcs=o['funcs'], status='undecided',
                                      detail='worker died (%s)' % st, checks=0, cases=0, samples=[], known=[],
                                      wall_s=0)
            res = [out[i] for i in sorted(out)]
        else:
            for o in obls:
                res.append(fw.run_one(o, a.tier, a.seed))
        os.dup2(real_stdout, 1)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    doc = dict(prop=a.prop, tier=a.tier, seed=a.seed, results=res)
    if a.out:
        with open(a.out, 'w') as h:
            json.dump(doc, h, indent=1, default=str)
    else:
        for r in res:
            print('%-10s %-46s checks=%-6d cases=%-5d %.1fs %s' % (r['status'], r['name'], r['checks'], r['cases'],
                                                              r['wall_s'], r['detail'] or ''))


main()
