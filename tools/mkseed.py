#!/usr/bin/env python3
"""mkseed.py SPEC.py ...   (development tool; no check uses it)
SPEC defines: id, prop, needs, breaks, edits=[(file, old, new), ...], demo (python source run with the real code).
Writes /verif/seeded/<id>/ and confirms that the demo passes on /repo and fails on a patched scratch copy.
--test also runs the stable tests in the scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd = root of the repository
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD" DEMO_TMP="$T"
cd "$T" || exit 2
exec timeout 280 /opt/venv/bin/python "$D/demo.py"
'''


def one(spec, test):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(HERE, 'seeded', ns['id'])
    os.makedirs(d, exist_ok=True)
    base = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        r = os.path.join(base, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        for f, old, new in ns['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (ns['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', r, 'diff']).decode()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(ns['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ok = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True)
        bad = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, capture_output=True)
        res = [ok.returncode == 0, bad.returncode != 0]
        msg = (ok.stderr.decode()[-300:] if not res[0] else '') + ' | ' + (bad.stdout + bad.stderr).decode()[-200:]
        if test:
            e = dict(os.environ, MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
                     OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONPATH=r)
            x = os.path.join(base, 'j.xml')
            subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                            '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + x,
                            'pyphs/tests/test_cases.py'], cwd=r, env=e, capture_output=True)
            o = os.path.join(base, 'o.json')
            subprocess.run(['python3', '/opt/vp/results.py', o, 'junit:' + x], capture_output=True)
            st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            miss = st - set(json.load(open(o))['passed'])
            res.append(not miss)
            msg += ' missing %s' % sorted(miss)
        print(ns['id'], 'OK' if all(res) else 'BAD', res, msg, flush=True)
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    a = [x for x in sys.argv[1:] if x != '--test']
    def safe(x):
        try:
            one(x, '--test' in sys.argv)
        except Exception as e:
            print(x, 'ERR', repr(e), flush=True)
    list(ThreadPoolExecutor(6).map(safe, a))
