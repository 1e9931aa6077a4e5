#!/usr/bin/env python3-vt
"""writes OBLIGATIONS.md: every contract (pyvc) and every bounded obligation, with what it says (development tool)"""
import ast, glob, importlib, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc import spec

out = ['# Obligations', '', 'Generated by tools/gen_obligations.py from pyvc/contracts and bounded/.', '']
for k in range(1, 18):
    p = 'C%02d' % k
    out.append('## ' + p)
    if os.path.exists('%s/pyvc/contracts/%s.py' % (HERE, p.lower())):
        importlib.import_module('pyvc.contracts.' + p.lower())
        cs = [c for n, c in sorted(spec.REG.items()) if n.startswith(p + '.')]
        if len(cs) > 60:
            out.append('%d contracts, first ones:' % len(cs))
            cs = cs[:12]
        for c in cs:
            fs = ', '.join('`%s`' % f.split('/')[-1] for f in c['funcs'][:4]) + (', ...' if len(c['funcs']) > 4 else '')
            out.append('- proved %s%s: %s [%s]' % (c['name'], ' (thorough)' if c['tier'] == 'thorough' else '', c['note'], fs))
    for n in ast.walk(ast.parse(open('%s/bounded/%s.py' % (HERE, p.lower())).read())):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'obligation':
            a = []
            for x in n.args:
                try:
                    a.append(ast.literal_eval(x))
                except ValueError:
                    a.append('...')
            a = [str(y) if not isinstance(y, list) else ', '.join(map(str, y)) for y in a]
            out.append('- bounded %s.%s: %s [%s]' % (a[0], a[1], a[2] if len(a) > 2 else '', a[3] if len(a) > 3 else ''))
    out.append('')
open(HERE + '/OBLIGATIONS.md', 'w').write('\n'.join(out))
