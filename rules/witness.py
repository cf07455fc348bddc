"""compile-pass / compile-fail witnesses (clang front end only, nothing is run)"""
import os
import re
import subprocess
import tempfile
from check import CXXFLAGS, REPO

CLANG = 'clang++-18'


def compile_(src):
    d = tempfile.mkdtemp(prefix='vpw')
    p = os.path.join(d, 'w.cpp')
    open(p, 'w').write(src)
    r = subprocess.run([CLANG, '-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=0'] + CXXFLAGS + [p], capture_output=True, text=True)
    os.unlink(p)
    os.rmdir(d)
    return r.returncode, r.stderr, p


def witness(c, rid, name, prelude, good, bad, where=None, must=False):
    """every line of `good` compiles; every line of `bad` makes the translation unit fail at that line"""
    where = where or re.search(r'#include "([^"]+)"', prelude).group(1)
    rc, err, p = compile_(prelude + '\n'.join(good) + '\n')
    if rc and must:
        rej = [g for g in good if compile_(prelude + g + '\n')[0]]
        if rej and len(rej) < len(good):
            c.bad(rid, name, where, 'does not compile although it must: ' + rej[0])
            return
    if rc:
        c.unk(rid, name, where, 'the accepted uses do not compile: %s' % [l for l in err.split('\n') if 'error' in l][:2])
        return
    rc, err, p = compile_(prelude + '\n'.join(bad) + '\n')
    base = prelude.count('\n') + 1
    hit = {int(x) for x in re.findall(re.escape(p) + r':(\d+):', err)}
    miss = [b for i, b in enumerate(bad) if base + i not in hit]
    if miss:
        # alone, to rule out an error swallowed by another one
        miss = [b for b in miss if compile_(prelude + b + '\n')[0] == 0]
    if miss:
        c.bad(rid, name, where, 'compiles although it must not: ' + miss[0])
    else:
        c.ok(rid, name, where, '%d accepted uses compile, %d violating programs are rejected' % (len(good), len(bad)))
