"""Shared machinery of the checks: extraction of the current tree, obligations,
known findings, evidence, exit status."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)

from prog import Program, walk                      # noqa: E402
from interp import Interp, Config, Unknown, St, Path   # noqa: E402
import terms                                        # noqa: E402
from terms import Lin, show, show_any, show_fact, entails, neg, canon  # noqa: E402


class Broken(Exception):
    """the analysis could not be carried out (missing anchor, extraction failure)"""


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'sparta/sparta'), os.path.join(REPO, 'sparta/src'), os.path.join(REPO, 'sparta/cache'),
             os.path.join(VERIF, 'tool'), os.path.join(VERIF, 'inst')]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()[:20]


def build_dir():
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    return d


def extractor():
    src = os.path.join(VERIF, 'tool', 'vpextract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(build_dir(), 'vpextract-' + h)
    if os.path.exists(out):
        return out
    flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    flags = [f for f in flags if f != '-DNDEBUG' and not f.startswith('-std=')]
    lib = '/usr/lib/llvm-18/lib'
    cl = None
    for n in sorted(os.listdir(lib)):
        if n.startswith('libclang-cpp.so'):
            cl = os.path.join(lib, n)
    tmp = out + '.%d' % os.getpid()
    cmd = ['clang++-18', '-O1', '-std=c++17', '-fno-rtti'] + flags + [src, '-o', tmp, cl, '-L' + lib, '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken('extractor does not build: ' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


CXXFLAGS = ['-xc++', '-DRAPIDJSON_NOMEMBERITERATORCLASS', '-DSIMDB_ENABLED=0', '-DSPARTA_VERSION="x"', '-I' + REPO + '/sparta/.',
            '-O1', '-DNDEBUG', '-std=gnu++17', '-fPIC', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w']


def tu_path(t):
    if t.startswith('inst/'):
        return os.path.join(VERIF, t)
    return os.path.join(REPO, 'sparta/src', t)


def extract(tus):
    """extract translation units of the current tree; -> json paths"""
    ex = extractor()
    th = tree_hash()
    cache = os.path.join(build_dir(), 'ir', th)
    os.makedirs(cache, exist_ok=True)
    # keep only the current tree's output
    ird = os.path.join(build_dir(), 'ir')
    for d in os.listdir(ird):
        p = os.path.join(ird, d)
        if d != th and time.time() - os.path.getmtime(p) > 3600 * 2:
            shutil.rmtree(p, ignore_errors=True)

    def one(t):
        out = os.path.join(cache, re.sub(r'[^A-Za-z0-9]', '_', t) + '.json')
        if os.path.exists(out):
            return out
        tmp = out + '.%d.%d' % (os.getpid(), threading.get_ident())
        r = subprocess.run([ex, '-root=' + REPO + '/', '-root2=' + VERIF + '/', '-o', tmp, tu_path(t), '--'] + CXXFLAGS, capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp) or os.path.getsize(tmp) < 100:
            raise Broken('cannot analyse %s: %s' % (t, r.stderr[-1500:]))
        os.rename(tmp, out)
        return out
    with ThreadPoolExecutor(8) as p:
        return list(p.map(one, tus))


class Check:
    def __init__(self, prop, technique=''):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.obs = []          # (rule, construct, where, status, detail)
        self.needs = []
        self.rules = {}
        self.functions = set()
        self.paths = 0
        self.callsites = 0
        self.tus = []
        self.verbose = bool(os.environ.get('VERIF_VERBOSE'))
        self.assumptions = []
        self.lossy = set()
        self.degraded = set()

    # -- program
    def program(self, *tus):
        self.tus += [t for t in tus if t not in self.tus]
        return Program(extract(list(tus)))

    # -- obligations
    def rule(self, rid, text, need=1):
        self.rules[rid] = text
        self.needs.append((rid, need))
        return rid

    def ob(self, rule, construct, where, status, detail=''):
        if status == 'bad' and any(construct.endswith('@' + d) for d in self.degraded):
            status = 'unknown'
            detail = 'class invariant not expressible on this tree; ' + str(detail)
        if status == 'bad' and where in self.lossy:
            status = 'unknown'
            detail = 'paths were joined; ' + str(detail)
        self.obs.append((rule, construct, where, status, detail))
        if self.verbose or os.environ.get('VERIF_SHOW') == status:
            print('  [%s] %s | %s | %s | %s' % (status, rule, construct, where, str(detail)[:400]))

    def ok(self, rule, construct, where, detail=''):
        self.ob(rule, construct, where, 'ok', detail)

    def bad(self, rule, construct, where, detail=''):
        self.ob(rule, construct, where, 'bad', detail)

    def unk(self, rule, construct, where, detail=''):
        self.ob(rule, construct, where, 'unknown', detail)

    # -- analysis of one function
    def analyse(self, P, f, cfg=None, facts=(), st=None, args=None, this=('this',)):
        I = Interp(P, cfg or Config(thiscls=f.cls))
        if I.cfg.thiscls is None:
            I.cfg.thiscls = f.cls
        try:
            ps = I.run(f, st=st, facts=facts, args=args, this=this)
        except Unknown:
            # too many paths: join paths that differ only in what they established.
            # What is then found missing may be an artefact of the join, so it is not reported.
            import copy
            cf = copy.copy(I.cfg)
            cf.lossy = True
            I = Interp(P, cf)
            ps = I.run(f, st=st, facts=facts, args=args, this=this)
            self.lossy.add(f.where())
        self.functions.add(f.name + '(' + f.sig + ')')
        for k in I.visited:
            g = P.fns.get(k)
            if g:
                self.functions.add(g.name + '(' + g.sig + ')')
        self.paths += len(ps)
        self.callsites += I.callsites
        return I, ps

    # -- finish
    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        try:
            d = json.load(open(p))
        except OSError:
            return []
        return [x for x in d.get('findings', []) if x['property'] == self.prop]

    def finish(self):
        counts = {}
        for r, c, w, s, d in self.obs:
            counts.setdefault(r, {'ok': 0, 'bad': 0, 'unknown': 0})[s] += 1
        broken = []
        for rid, need in self.needs:
            n = sum(counts.get(rid, {}).values())
            if n == 0 and need > 0:
                broken.append('rule %s matched %d instances, expected at least %d' % (rid, n, need))
        known = self.known()
        new, kn = [], []
        for o in self.obs:
            if o[3] != 'bad':
                continue
            hit = None
            for k in known:
                if k['rule'] == o[0] and k['construct'] == o[1]:
                    hit = k
            (kn if hit else new).append((o, hit))
        seen = set()
        for o, k in kn:
            t = (o[0], o[1])
            if t in seen:
                continue
            seen.add(t)
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        vdir = os.path.join(VERIF, 'evidence', 'violations')
        os.makedirs(vdir, exist_ok=True)
        for f in os.listdir(vdir):
            if f.startswith(self.prop + '-'):
                os.unlink(os.path.join(vdir, f))
        viol = []
        seen = {}
        for o, _ in new:
            seen.setdefault((o[0], o[1]), []).append(o)
        for n, (k, os_) in enumerate(seen.items()):
            p = os.path.join(vdir, '%s-%d.txt' % (self.prop, n + 1))
            with open(p, 'w') as fh:
                for o in os_:
                    fh.write('property: %s\nrule: %s: %s\nconstruct: %s\nat: %s\n%s\n\n' % (self.prop, o[0], self.rules.get(o[0], ''), o[1], o[2], o[4]))
            viol.append({'rule': k[0], 'construct': k[1], 'at': os_[0][2], 'detail': str(os_[0][4])[:1500], 'replay': p})
        nob = len(self.obs)
        nok = sum(c['ok'] for c in counts.values())
        unks = [{'rule': o[0], 'construct': o[1], 'at': o[2], 'why': str(o[4])[:200]} for o in self.obs if o[3] == 'unknown']
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis (path-sensitive abstract interpretation and syntactic/type rules over the type-checked program of the '
                               'current tree). Each obligation is one rule instance at one construct; "ok" means the rule was established on every '
                               'analysed path, "unknown" that the analysis could not decide it (not reported as a violation).',
                'translation_units': self.tus,
                'functions_analysed': len(self.functions),
                'functions': sorted(self.functions)[:400],
                'paths': self.paths,
                'call_sites': self.callsites,
                'obligations': nob, 'discharged': nok, 'undecided': len(unks),
                'rules': [{'id': r, 'rule': t, 'instances': sum(counts.get(r, {}).values()), 'ok': counts.get(r, {}).get('ok', 0),
                           'undecided': counts.get(r, {}).get('unknown', 0), 'violated': counts.get(r, {}).get('bad', 0)} for r, t in self.rules.items()],
                'undecided_instances': unks[:100],
                'samples': [{'rule': o[0], 'construct': o[1], 'at': o[2], 'status': o[3], 'detail': str(o[4])[:200]} for o in self.obs[:12]],
            },
            'assumptions': self.assumptions,
            'known_findings_seen': [k['what'] for o, k in kn],
            'violations': viol,
            'wall_s': round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d known); %d functions, %d paths, %.1fs' % (
            self.prop, nob, nok, len(unks), len(new) + len(kn), len(kn), len(self.functions), self.paths, time.time() - self.t0))
        for v in viol:
            print('VIOLATION property=%s replay=%s' % (self.prop, v['replay']))
            print('  %s at %s: %s' % (v['construct'], v['at'], v['detail'][:600]))
        if viol:
            return 1
        if broken:
            for b in broken:
                print('ANALYSIS-BROKEN: ' + b)
            return 2
        return 0


def main(prop, body):
    c = Check(prop)
    res = [3]

    def go():
        try:
            body(c)
            res[0] = c.finish()
        except Broken as e:
            print('ANALYSIS-BROKEN: %s' % e)
            res[0] = 2
        except Exception:
            import traceback
            traceback.print_exc()
            res[0] = 3
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0])
