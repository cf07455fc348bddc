#!/usr/bin/env python3
"""dev tool: try textual changes against checks on a scratch copy of the sources (no build).
mut.py FILE : python file defining M = [(prop, file, old, new, expect), ...]; expect 1 = bug, 0 = refactoring"""
import os, shutil, subprocess, sys, tempfile
src = sys.argv[1]
only = sys.argv[2:]
ns = {}
exec(open(src).read(), ns)
w = tempfile.mkdtemp(prefix='mut', dir='/tmp')
os.makedirs(w + '/sparta')
for d in ('sparta', 'src', 'cache'):
    if os.path.isdir(os.environ.get('MUT_BASE', '/repo') + '/sparta/' + d):
        shutil.copytree(os.environ.get('MUT_BASE', '/repo') + '/sparta/' + d, w + '/sparta/' + d)
for n, (prop, f, a, b, exp) in enumerate(ns['M']):
    if only and str(n) not in only and prop not in only:
        continue
    p = '%s/sparta/%s' % (w, f if f.startswith('src/') else 'sparta/' + f)
    s0 = open(p).read()
    if s0.count(a) < 1:
        print(n, prop, 'PATTERN MISSING', a[:60])
        continue
    open(p, 'w').write(s0.replace(a, b, 1))
    r = subprocess.run(['python3', '/verif/run.py', prop], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w), cwd='/verif')
    open(p, 'w').write(s0)
    st = 'ok' if r.returncode == exp else '***'
    v = [l for l in r.stdout.split('\n') if l.startswith('  ') or 'BROKEN' in l]
    print(n, prop, st, 'rc=%d' % r.returncode, (v or [r.stdout.split('\n')[0] + r.stderr[-300:]])[0][:260], '|', b.strip()[:60].replace('\n', ' '), flush=True)
shutil.rmtree(w)
