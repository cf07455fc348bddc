"""Rule templates: guards, observer contracts, ordering, pairing."""
import re
from check import Broken, Config, Unknown, Interp, St
from terms import (Lin, const, atom, ZERO, ONE, canon, neg, norm_fact, entails, atom_key, show, show_loc, show_any, show_fact, consistent)
from prog import walk, calls
from interp import root, has_prefix, norm_loc, addr, at

THIS = ('this',)


def F(*names):
    l = THIS
    for n in names:
        l = ('f', l, n)
    return l


def init(loc, ty='u64'):
    return atom(('ld', loc, 0), ty)


def fns(P, qual, need=1, **kw):
    r = P.find(qual, **kw)
    if len(r) < need:
        raise Broken('no function %s%s in the current tree' % (qual, kw or ''))
    return r


def fn1(P, qual, **kw):
    return fns(P, qual, 1, **kw)[0]


def label(f):
    return f.name.replace('sparta::', '', 1) + '(' + short_sig(f.sig) + ')' + ('' if not f.cls else '@' + short_cls(f.cls))


def short_cls(c):
    return re.sub(r'std::__cxx11::|std::allocator<[^<>]*>', '', c.replace('sparta::', ''))[:90]


def short_sig(s):
    return s.replace('R:', '').replace('sparta::', '')[:80]


# ---- stability: a value built only from the entry state -------------------

def stable_key(k, depth=0):
    if depth > 12:
        return False
    if isinstance(k, Lin):
        return stable(k, depth + 1)
    if isinstance(k, tuple):
        if not k:
            return True
        if k[0] == 'ld':
            return k[2] == 0 and stable_loc(k[1], depth + 1)
        if k[0] == 'addr':
            return stable_loc(k[1], depth + 1)
        if k[0] == 'arg':
            return True
        if k[0] == 'mod':
            return all(stable_key(x, depth + 1) for x in k[1:])
        if k[0] in ('has', 'found', 'end', 'cmp', 'op', 'min', 'max', 'trunc'):
            return all(stable_key(x, depth + 1) for x in k[1:] if isinstance(x, (Lin, tuple)))
        return False
    return True


def stable_loc(l, depth=0):
    if not isinstance(l, tuple) or not l:
        return True
    if l[0] in ('this', 'p', 'g'):
        return True
    if l[0] == 'f':
        return stable_loc(l[1], depth)
    if l[0] == 'i':
        return stable_loc(l[1], depth) and stable_key(l[2], depth + 1)
    if l[0] == 'at':
        return stable_key(l[1], depth + 1)
    return False


def stable(L, depth=0):
    if not isinstance(L, Lin):
        return False
    return all(stable_key(atom_key(a), depth) for a, _ in L.t)


def simple_key(k):
    """plain entry-state scalar (field of this / argument)"""
    if isinstance(k, tuple) and k and k[0] == 'arg':
        return True
    return isinstance(k, tuple) and k and k[0] == 'ld' and k[2] == 0 and root(k[1])[0] in ('this', 'p') and all(
        True for _ in ())


def verdict(facts, fact):
    """ok / bad / unknown for 'facts imply fact' """
    fact = norm_fact(fact)
    if entails(facts, fact):
        return 'ok'
    if fact[1].t and stable(fact[1]) or not fact[1].t:
        return 'bad'
    return 'unknown'


# ---- effects ---------------------------------------------------------------
IGN_CALLS = re.compile(r'^sparta::log::|^sparta::(Message|Notification|SpartaException)|MessageSource|std::basic_ostream|observed|PEVENT|ILOG')
EFFECT = ('write', 'cont', 'call', 'icall', 'new', 'newarr', 'pnew', 'del', 'dtor', 'ctor')


def is_effect(e, pure=()):
    if e.kind not in EFFECT:
        return False
    if e.kind == 'write':
        r = root(e.obj)
        return r[0] in ('this', 'at', 'g', 'p')
    if e.kind == 'cont':
        if e.obj is None:
            return False
        return root(e.obj)[0] in ('this', 'at', 'g', 'p')
    if e.kind in ('ctor', 'dtor'):
        return e.obj is not None and root(e.obj)[0] in ('this', 'at', 'g') and root(e.obj)[0] != 'tmp'
    if e.kind in ('call',):
        if IGN_CALLS.search(e.name or ''):
            return False
        x = e.x
        if isinstance(x, dict) and (x.get('const') or x.get('pure')):
            return False
        return not any(re.search(p, e.name or '') for p in pure)
    return True


def ev_show(e):
    o = show_any(e.obj) if e.obj else ''
    return '%s %s %s(%s) line %d' % (e.kind, e.name, o, ', '.join(show_any(a) for a in e.args)[:120], e.line)


def path_show(p, n=14):
    fs = '; '.join(show_fact(f) for f in sorted(p.st.facts, key=lambda f: show_fact(f)))[:500]
    es = ' -> '.join(ev_show(e) for e in p.events() if e.kind not in ('enter', 'leave', 'iter'))[:900]
    return 'outcome %s under [%s] via %s' % (p.outcome, fs, es)


def run(c, P, f, rid=None, cfg=None, **kw):
    """analyse, turning Unknown into an undecided obligation"""
    try:
        return c.analyse(P, f, cfg, **kw)
    except Unknown as u:
        if rid:
            c.unk(rid, label(f), f.where(), 'analysis limit: %s' % u)
        return None, None


def normals(ps):
    return [p for p in ps if p.outcome == 'ret']


def throws(ps):
    return [p for p in ps if p.outcome in ('throw',)]


def observe1(I, f, st, args=None):
    """single-valued observation, else None"""
    try:
        r = [x for x in I.observe(f, st, args=args) if x[0] == 'ret']
    except Unknown:
        return None
    if len(r) != 1:
        vals = {x[2] for x in r if isinstance(x[2], Lin)}
        if len(vals) == 1 and all(isinstance(x[2], Lin) for x in r):
            return vals.pop()
        return None
    return r[0][2]


def observe_all(I, f, st, args=None):
    """[(st, value)] of the normal outcomes, or None"""
    try:
        return [(s, v) for o, s, v in I.observe(f, st, args=args) if o == 'ret']
    except Unknown:
        return None


# ---- rule templates ---------------------------------------------------------

def guard(c, P, rid, f, mkfacts, seed=None, cfg=None, what='', facts=()):
    """every normal exit has established each fact produced by mkfacts(I, st0)
    (a list of alternatives: each alternative a list of facts)"""
    st0 = St()
    if seed:
        seed(st0)
    cfgs = cfg or Config(thiscls=f.cls)
    try:
        I = Interp(P, cfgs)
        I.cfg.thiscls = I.cfg.thiscls or f.cls
        alts = mkfacts(I, st0)
    except Unknown as u:
        c.unk(rid, label(f), f.where(), 'guard not expressible: %s' % u)
        return
    if alts is None:
        c.unk(rid, label(f), f.where(), 'guard not expressible')
        return
    if alts and isinstance(alts[0], tuple):
        alts = [alts]
    I, ps = run(c, P, f, rid, cfg, st=st0, facts=facts)
    if ps is None:
        return
    ok = True
    for p in normals(ps):
        good = any(all(entails(p.st.facts, x) for x in alt) for alt in alts)
        if not good:
            # feasible only if the negation is consistent
            alive = any(all(consistent(p.st.facts, neg(norm_fact(x))) for x in alt[:1]) for alt in alts)
            st = 'bad'
            for alt in alts:
                for x in alt:
                    if not entails(p.st.facts, x) and not stable(norm_fact(x)[1]):
                        st = 'unknown'
            if st == 'bad' and havocked(p):
                st = 'bad' if not any(unst(p)) else 'bad'
            c.ob(rid, label(f), f.where(), st, 'a normal return without having established %s (%s): %s' % (
                ' or '.join(' and '.join(show_fact(norm_fact(x)) for x in alt) for alt in alts), what, path_show(p)))
            ok = False
            break
    if ok:
        c.ok(rid, label(f), f.where(), '%d normal paths, all guarded: %s' % (len(normals(ps)), what))


def havocked(p):
    return False


def unst(p):
    return []


def refuse_clean(c, P, rid, f, ps, pure=(), what='', ignore=lambda e: False):
    """throwing exits have no effect before the throw"""
    for p in throws(ps):
        eff = []
        for e in p.events():
            if e.kind == 'throw':
                break
            if is_effect(e, pure) and not ignore(e):
                eff.append(e)
        if eff:
            c.bad(rid, label(f), f.where(), 'refused call already had an effect (%s): %s' % (ev_show(eff[0]), path_show(p)))
            return False
    c.ok(rid, label(f), f.where(), '%d refusing paths, none has an effect before refusing%s' % (len(throws(ps)), what))
    return True


def _sev(v):
    return {'ok': 0, 'unknown': 1, 'bad': 2}[v]


class Delta:
    """contract between observers before and after a call"""

    def __init__(self, c, P, rid, f, obs, seed=None, cfg=None, facts=()):
        self.c, self.P, self.rid, self.f = c, P, rid, f
        self.obs = obs      # name -> Fn
        self.cfg = cfg
        st0 = St()
        self.seedfacts = []
        if seed:
            r = seed(st0)
            if r:
                self.seedfacts = list(r)
        self.st0 = st0
        self.I, self.ps = run(c, P, f, rid, cfg, st=st0, facts=tuple(facts) + tuple(self.seedfacts))
        self.dead = self.ps is None
        if not self.dead:
            self.pre = {n: observe1(self.I, o, self.prest()) for n, o in obs.items()}

    def prest(self):
        s = self.st0.copy()
        for x in self.seedfacts:
            s.add(x)
        return s

    def check(self, post, what):
        """post(pre, postobs, path) -> list of facts (all required) | None (unknown)"""
        if self.dead:
            return
        c, f = self.c, self.f
        n = 0
        for p in normals(self.ps):
            po = {k: observe1(self.I, o, p.st) for k, o in self.obs.items()}
            try:
                fs = post(self.pre, po, p)
            except (TypeError, AttributeError):
                fs = None
            if fs is None:
                c.unk(self.rid, label(f), f.where(), 'observer not expressible: ' + what)
                return
            for x in fs:
                if isinstance(x, list):
                    vs = [max((verdict(p.st.facts, y) for y in alt), key=_sev) if alt else 'ok' for alt in x]
                    v = min(vs, key=_sev)
                    txt = ' or '.join(' and '.join(show_fact(norm_fact(y)) for y in alt) for alt in x)
                    if v != 'ok' and any(z == 'unknown' for z in vs):
                        v = 'unknown'
                else:
                    v = verdict(p.st.facts, x)
                    txt = show_fact(norm_fact(x))
                if v != 'ok':
                    c.ob(self.rid, label(f), f.where(), v, '%s: on return expected %s; pre %s post %s; %s' % (
                        what, txt, {k: show_any(v) for k, v in self.pre.items()}, {k: show_any(v) for k, v in po.items()}, path_show(p)))
                    return
            n += 1
        c.ok(self.rid, label(f), f.where(), '%s on %d paths' % (what, n))


def eq(a, b):
    return ('eq', a - b)


def le(a, b):
    return ('le', a - b)


def lt(a, b):
    return ('le', a - b + 1)


def ne(a, b):
    return ('ne', a - b)


def before(p, first, second):
    """index of first matching < index of each matching second; events selected by predicates"""
    seen = False
    for e in p.events():
        if first(e):
            seen = True
        if second(e) and not seen:
            return e
    return None


def has_field(P, cls, name):
    return any(x[0]['name'] == name for x in P.all_fields(cls))


def deref(c, P, rid, f, isvalid, args=None, facts=(), seed=None):
    """normal exit of f implies isvalid() in the entry state: no isvalid()-false outcome is consistent with a normal path"""
    st0 = St()
    if seed:
        seed(st0)
    I, ps = run(c, P, f, rid, st=st0, facts=facts)
    if ps is None:
        return
    rs = observe_all(I, isvalid, st0, args)
    if rs is None:
        c.unk(rid, label(f), f.where(), 'isValid() not expressible')
        return
    for p in normals(ps):
        for s, v in rs:
            t = s.copy()
            if not isinstance(v, Lin):
                c.unk(rid, label(f), f.where(), 'isValid() value not expressible')
                return
            okk = True
            for x in p.st.facts:
                if not t.add(x):
                    okk = False
                    break
            if okk and t.add(('eq', v)):
                if not all(stable(x[1]) for x in t.facts):
                    c.unk(rid, label(f), f.where(), 'depends on opaque values: %s; isValid(): %s' % ('; '.join(show_fact(x) for x in t.facts if not stable(x[1])), [show_fact(x) for x in s.facts]))
                    return
                c.bad(rid, label(f), f.where(), 'returns normally although %s() is false when %s; %s' % (
                    isvalid.short, '; '.join(show_fact(x) for x in t.facts), path_show(p)))
                return
    c.ok(rid, label(f), f.where(), '%d normal paths against %d isValid() outcomes' % (len(normals(ps)), len(rs)))


def hint(c, P, cls, *names):
    """the invariant hints name existing fields; otherwise findings about this class are only 'undecided'"""
    have = {x[0]['name'] for x in P.all_fields(cls)}
    if all(n in have for n in names):
        return True
    c.degraded.add(short_cls(cls))
    return False


def arg_texts(snap, pred=lambda e: e.kind == 'call'):
    """watch callback: string literals among the arguments of a call -> snap[id(event)] = (event, [texts])"""
    def w(I, st, e):
        if not pred(e):
            return
        out = []
        for a in e.args:
            v = a
            if isinstance(a, tuple) and a and a[0] in ('R', 'REF'):
                v = st.store.get(a[1], a)
            m = re.search(r'<str ([^<>]*)>', show_any(v))
            out.append(m.group(1) if m else None)
        snap[id(e)] = (e, out)
    return w
