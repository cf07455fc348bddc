#!/usr/bin/env python3
"""dev tool: confirm a planted bug in a private copy of /repo (mount namespace), then run its check on it.
mkseed.py ID [ID...] [--notest] ; expects seeded/ID/{patch.diff,demo.sh,meta.json}"""
import json, os, shutil, subprocess, sys
V = '/verif'
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
notest = '--notest' in sys.argv
base = json.load(open('/opt/vp/BASELINE.json'))['stable']


def ns(w, cmd, to=1500):
    s = 'mount --bind %s/repo /repo && mount --bind %s/ccache /opt/vp/ccache && cd /repo && %s' % (w, w, cmd)
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', s], capture_output=True, text=True, timeout=to)


for i in ids:
    d = '%s/seeded/%s' % (V, i)
    w = '/tmp/mut/' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    subprocess.run(['cp', '-a', '/opt/vp/ccache', w + '/ccache'], check=True)
    dd = w + '/elsewhere'
    shutil.copytree(d, dd)
    meta = json.load(open(d + '/meta.json'))
    res = []
    r = ns(w, 'bash %s/demo.sh' % dd, 300)
    res.append('demo-clean rc=%d %s' % (r.returncode, '' if r.returncode == 0 else (r.stdout + r.stderr)[-600:]))
    r = ns(w, 'git apply %s/patch.diff' % dd)
    if r.returncode:
        res.append('PATCH FAILS ' + r.stderr[-300:])
    r = ns(w, 'bash /opt/vp/build.sh')
    if r.returncode:
        res.append('BUILD FAILS ' + r.stdout[-800:])
    else:
        r = ns(w, 'bash %s/demo.sh' % dd, 300)
        res.append('demo-patched rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-200:] if r.returncode else 'STILL PASSES'))
        if not notest:
            r = ns(w, 'bash /opt/vp/test.sh %s/out.json' % w)
            o = json.load(open(w + '/out.json'))
            miss = [t for t in base if t not in o['passed']]
            res.append('tests missing: %s' % miss)
    e = dict(os.environ, VERIF_REPO=w + '/repo')
    r = subprocess.run(['python3', V + '/run.py', meta['property']], cwd=V, env=e, capture_output=True, text=True)
    res.append('check %s rc=%d %s' % (meta['property'], r.returncode, r.stdout[-500:]))
    print('== %s\n  ' % i + '\n  '.join(res), flush=True)
    shutil.rmtree(w, ignore_errors=True)
