"""R06 the stages of a Pipe, and the free-entry searches of FrontArray."""
from lib import *
from resources import TU, arg, meth, is_idx, argval, same_loc, PI
from dag import stm, names
from events import calls
from loops import norm
from witness import witness
from kernel import counters
from functional import evs_since
from terms import _atom_list

FA = 'sparta::FrontArray'
TWO32 = 1 << 32
MINUS1 = const(TWO32 - 1)


def elem(l):
    """the array element a location lies in"""
    while l is not None and l[0] == 'f':
        l = l[1]
    return l if l is not None and l[0] == 'i' else None


def m32(L):
    return Lin(L.c % TWO32, L.t)


def flat(L):
    """(mask, x) with L == x & mask, masks of the same value applied below taken away (x modulo 2^32)"""
    k = L.single()
    if not (isinstance(k, tuple) and k[0] == 'op' and k[1] == '&'):
        return None
    for m, x in ((k[2], k[3]), (k[3], k[2])):
        if not (isinstance(m.single(), tuple) and m.single()[0] == 'ld'):
            continue
        out = Lin(x.c)
        for a, n in x.t:
            if a == m.t[0][0]:
                out = out - const(n)        # the mask is -1 and the number of entries 0 under the mask
                continue
            if t_is(_atom_list[a], 'physical_size_'):
                continue
            t = Lin(0, ((a, 1),))
            g = flat(t)
            if g and g[0] == m and n == 1:
                t = g[1]
            for _ in range(abs(n)):
                out = out + t if n > 0 else out - t
        return m, m32(out)
    return None


def t_is(k, name):
    return isinstance(k, tuple) and k[0] == 'ld' and k[1] == F(name)


def same_slot(facts, a, b):
    if a is None or b is None:
        return 'unknown'
    v = same_loc(facts, a, b)
    if v == 'ok':
        return v
    if a[0] != 'i' or b[0] != 'i' or same_loc(facts, a[1], b[1]) != 'ok':
        return 'unknown'
    x, y = flat(a[2]), flat(b[2])
    if not x or not y or x[0] != y[0]:
        return 'unknown'
    d = m32(x[1] - y[1])
    if not d.t:
        return 'ok' if d.c == 0 else 'bad'
    return 'bad' if stable(d) else 'unknown'


class Pipe:
    def __init__(self, P):
        self.P = P
        self.cls = sorted({g.cls for g in P.by_rec.get(PI, []) if g.cls})[0]
        self.isv = self.m('isValid', lambda g: len(g.params) == 1)[0]
        self.obs = {n: self.m(n, lambda g: not g.params)[0] for n in ('capacity', 'numValid', 'isAppended', 'isAnyValid', 'isLastValid')}

    def m(self, n, pred=None):
        return meth(self.P, (PI, self.cls), n, pred=pred)

    def vloc(self, I, st, stage):
        """location of the flag that says whether a stage is valid"""
        v = observe1(I, self.isv, st, [stage])
        k = v.single() if isinstance(v, Lin) else None
        return k[1] if isinstance(k, tuple) and k[0] == 'ld' else None

    def cap(self, I, st):
        return observe1(I, self.obs['capacity'], st)

    def num(self, I, st):
        return observe1(I, self.obs['numValid'], st)

    def apart(self, stage):
        """the appended data and a stage have different entries (rule 'size')"""
        I = Interp(self.P, Config(thiscls=self.cls))
        st = St()
        n = self.cap(I, st)
        a, b = self.vloc(I, st, MINUS1), None if n is None else self.vloc(I, st, stage(n))
        if a is None or b is None or elem(a) is None or elem(b) is None:
            return []
        return [ne(elem(a)[2], elem(b)[2])]

    def entries(self, I, st, base):
        """[(element, event)] of the writes into the pipe's own entries"""
        return [(elem(e.obj), e) for e in st.events() if e.kind in ('write', 'pnew', 'dtor', 'ctor') and e.obj is not None and elem(e.obj) is not None and same_loc([], elem(e.obj)[1], base) == 'ok']


def own(P, X):
    """the flag that makes the pipe update itself, and the calls that schedule the update"""
    f = X.m('performOwnUpdates')[0]
    return f


def R06(c):
    P = c.program(TU)
    X = Pipe(P)
    hint(c, P, X.cls, 'perform_own_updates_', 'ev_update_')
    r1 = c.rule('stage', 'an operation on a stage reads and writes exactly the entry isValid of that stage looks at', 12)
    r2 = c.rule('count', 'numValid follows the stages: a write or invalidation of a stage changes it by what became valid or invalid, appended data are not counted', 6)
    r3 = c.rule('advance', 'an update drops the last stage, every other stage (and the appended data) moves one stage on, and the count follows', 1)
    r4 = c.rule('all', 'flushAll clears every stage and the appended data; flushIf exactly the entries that match; clear and resize leave no entry valid', 5)
    r5 = c.rule('own-updates', 'with own updates, an update is scheduled when data are appended or written and again after every update that leaves valid data', 6)
    r6 = c.rule('append', 'appending is refused while appended data wait; shiftAppend moves the appended data into stage 0 exactly when that is free', 3)
    r7 = c.rule('front-array', 'writeFront and writeBack write and return the first free entry from that end, readValid reads the n-th valid entry', 6)
    stages(c, P, X, r1, r2, r5)
    advance(c, P, X, r3, r5)
    flushes(c, P, X, r4)
    appends(c, P, X, r1, r2, r5, r6)
    front(c, P, r7)
    witness(c, r7, 'FrontArray with an element or a temporary', '''#include "sparta/resources/FrontArray.hpp"
#include <memory>
using FA = sparta::FrontArray<std::shared_ptr<int>, sparta::ArrayType::NORMAL>;
''', ['uint32_t g%d(FA& a, std::shared_ptr<int> x) { return a.%s; }' % (i, e) for i, e in enumerate(('push_front(x)', 'push_back(x)', 'push_front(std::move(x))', 'push_back(std::move(x))', 'writeFront(x)', 'writeBack(std::move(x))'))], [], must=True)


def stage_args(X, f, I):
    """the stage an operation works on"""
    st = St()
    if f.params and is_idx(f):
        return argval(I, f, 0, st)
    if f.short in ('append', 'push_front', 'flushAppend', 'readAppendedData', 'isAppended'):
        return MINUS1
    n = X.cap(I, st)
    return None if n is None else n - ONE


def sched(p):
    return [e for e in p.events('call') if re.search(r'[sS]chedule', e.name.rsplit('::', 1)[-1]) and e.obj is not None and 'ev_update_' in show_any(e.obj)]


def stages(c, P, X, r1, r2, r5):
    OPS = [('read', None, 0), ('access', None, 0), ('readLast', None, 0), ('readAppendedData', None, 0), ('writePS', 1, 1), ('append', 1, 1), ('push_front', 1, 1),
           ('invalidatePS', 0, 1), ('invalidateLastPS', 0, 1), ('flushPS', 0, 1), ('flushAppend', 0, 1)]
    for n, val, wr in OPS:
        for f in X.m(n):
            if any('R:std' in q[2] for q in f.params):
                continue
            I, ps = run(c, P, f, r1, Config(thiscls=f.cls))
            if ps is None:
                continue
            s = stage_args(X, f, I)
            bad = unk = None
            cb = cu = None
            for p in normals(ps):
                st = St()
                st.facts = frozenset(p.st.facts)
                t = X.vloc(I, st, s) if s is not None else None
                if t is None:
                    unk = 'the stage is not expressible'
                    continue
                te = elem(t)
                v0 = I.load(St(), t)
                if not wr:
                    r = p.ret[1] if isinstance(p.ret, tuple) and p.ret and p.ret[0] == 'REF' else None
                    v = same_slot(p.st.facts, elem(r), te)
                    if v == 'bad':
                        bad = 'returns %s, not the entry of the stage: %s' % (show_any(p.ret), path_show(p, 4))
                    elif v != 'ok':
                        unk = 'returns %s' % show_any(p.ret)
                    if X.entries(I, p.st, te[1]):
                        bad = 'reading changes an entry: ' + path_show(p, 4)
                    continue
                vw = []
                for l, e in X.entries(I, p.st, te[1]):
                    v = same_slot(p.st.facts, l, te)
                    if v == 'bad':
                        bad = 'changes %s, the stage is %s: %s' % (show_any(l), show_any(te), path_show(p, 4))
                    elif v != 'ok':
                        unk = unk or 'changes ' + show_any(l)
                    vw.append(e)
                v1 = I.load(p.st, t)
                w = verdict(p.st.facts, eq(v1, const(val)))
                if w == 'bad':
                    bad = bad or 'the stage is left %s: %s' % (show_any(v1), path_show(p, 4))
                elif w != 'ok':
                    unk = unk or 'validity ' + show_any(v1)
                if val:
                    a = f.params[-1][1]
                    xs = [e for e in vw if e.kind == 'write' and e.args and names(e.args[0], a)] + [e for e in vw if e.kind in ('pnew', 'ctor') and names(e, a)]
                    if not xs:
                        dt = [e for e in vw if e.kind in ('write', 'pnew', 'ctor') and not ('valid' in show_any(e.obj).rsplit('.', 1)[-1])]
                        if not dt:
                            bad = bad or 'the data are not stored: ' + path_show(p, 5)
                        else:
                            unk = unk or 'stores ' + '; '.join(ev_show(e) for e in dt)[:120]
                # count
                n0, n1 = X.num(I, St()), X.num(I, p.st)
                if n0 is None or n1 is None:
                    cu = 'numValid is not expressible'
                    continue
                d = ZERO if n in ('append', 'push_front', 'flushAppend') else const(val) - v0
                w = verdict(p.st.facts, eq(n1 - n0, d))
                if w == 'bad':
                    cb = cb or 'numValid changes by %s, the stage was %s and is %d: %s' % (show_any(n1 - n0), show_any(v0), val, path_show(p, 5))
                elif w != 'ok':
                    cu = cu or 'numValid becomes ' + show_any(n1)
            stm(c, r1, f, bad, len(normals(ps)), unk)
            if wr:
                stm(c, r2, f, cb, len(normals(ps)), cu)
            if n in ('append', 'writePS', 'push_front'):
                bad = unk = None
                o = init(F('perform_own_updates_'), 'bool')
                n0 = X.num(I, St())
                for p in normals(ps):
                    if not sched(p) and not entails(p.st.facts, eq(o, ZERO)) and not (n0 is not None and entails(p.st.facts, le(ONE, n0))):
                        # anything valid before: the update is already scheduled
                        t = X.vloc(I, St(), s) if s is not None else None
                        if t is not None and n == 'writePS' and entails(p.st.facts, ne(I.load(St(), t), ZERO)):
                            continue
                        bad = 'with own updates no update is scheduled: ' + path_show(p, 5)
                stm(c, r5, f, bad, len(normals(ps)), unk)


def advance(c, P, X, rid, r5):
    f = X.m('update')[0]
    g = P.find(PI + '::internalUpdate_')
    for f in [f] + [h for h in g if h.cls == X.cls]:
        I, ps = run(c, P, f, rid, Config(thiscls=f.cls), facts=X.apart(lambda n: n - ONE))
        if ps is None:
            continue
        bad = unk = b5 = None
        S = atom(('sym', 'stage'), 'u32')
        o = init(F('perform_own_updates_'), 'bool')
        for p in normals(ps):
            st = St()
            st.facts = frozenset(p.st.facts)
            n = X.cap(I, st)
            last, app = X.vloc(I, st, n - ONE), X.vloc(I, st, MINUS1)
            a, b = X.vloc(I, st, S), X.vloc(I, p.st.copy(), S + ONE)
            if None in (last, app, a, b):
                unk = 'stages are not expressible'
                continue
            v = same_slot(p.st.facts, elem(a), elem(b))
            if v == 'bad':
                bad = bad or 'stage s+1 is %s after it, stage s was %s: %s' % (show_any(elem(b)[2]), show_any(elem(a)[2]), path_show(p, 4))
            elif v != 'ok':
                unk = unk or 'stage s+1 is %s afterwards' % show_any(elem(b)[2])
            for l, e in X.entries(I, p.st, elem(last)[1]):
                v = same_slot(p.st.facts, l, elem(last))
                if v == 'bad':
                    bad = bad or 'changes %s, the last stage is %s: %s' % (show_any(l), show_any(elem(last)), path_show(p, 4))
                elif v != 'ok':
                    unk = unk or 'changes ' + show_any(l)
            w = verdict(p.st.facts, eq(I.load(p.st, last), ZERO))
            if w != 'ok':
                bad, unk = (bad or 'the last stage is still valid: ' + path_show(p, 4), unk) if w == 'bad' else (bad, unk or 'last stage')
            n0, n1 = X.num(I, St()), X.num(I, p.st)
            d = I.load(St(), app) - I.load(St(), last)
            fx = list(p.st.facts)
            for k in {k for g in p.st.facts for k in g[1].atoms() if isinstance(k, tuple) and k[0] == 'ld' and elem(k[1]) is not None}:
                for l in (app, last):
                    if k[1] != l and k[1][0] == 'f' and k[1][2] == l[2] and same_slot(p.st.facts, elem(k[1]), elem(l)) == 'ok':
                        fx.append(norm_fact(eq(atom(k), I.load(St(), l))))
            w = verdict(frozenset(fx), eq(n1 - n0, d))
            if w != 'ok' and same_slot(p.st.facts, elem(app), elem(last)) != 'ok':
                bad, unk = (bad or 'numValid changes by %s, appended %s, last %s: %s' % (show_any(n1 - n0), show_any(I.load(St(), app)), show_any(I.load(St(), last)), path_show(p, 5)), unk) if w == 'bad' else (bad, unk or 'numValid becomes ' + show_any(n1))
            if not sched(p) and not entails(p.st.facts, eq(o, ZERO)) and not entails(p.st.facts, le(n1, ZERO)):
                b5 = 'with own updates and valid data left no further update is scheduled: ' + path_show(p, 5)
        stm(c, rid, f, bad, len(normals(ps)), unk)
        stm(c, r5, f, b5, len(normals(ps)), None)
    f = X.m('performOwnUpdates')[0]
    I, ps = run(c, P, f, r5, Config(thiscls=f.cls))
    if ps is not None:
        bad = None
        o = init(F('perform_own_updates_'), 'bool')
        for p in normals(ps):
            if not entails(p.st.facts, eq(I.load(p.st, F('perform_own_updates_'), 'bool'), ONE)):
                bad = 'own updates are not switched on: ' + path_show(p, 4)
            st = St()
            st.facts = frozenset(p.st.facts)
            app = X.vloc(I, st, MINUS1)
            n0 = X.num(I, St())
            if not sched(p) and not entails(p.st.facts, eq(o, ONE)) and app is not None:
                for q, w in ((I.load(St(), app), 'appended'), (n0, 'valid')):
                    if not entails(p.st.facts, le(q, ZERO)) and stable(q):
                        bad = bad or 'with %s data in the pipe no update is scheduled: %s' % (w, path_show(p, 5))
        stm(c, r5, f, bad, len(normals(ps)), None)


def flushes(c, P, X, rid):
    for f in X.m('flushAll') + X.m('flushIf'):
        I, ps = run(c, P, f, rid, Config(thiscls=f.cls, history=True), facts=[le(ONE, X.cap(Interp(P, Config(thiscls=f.cls)), St()))])
        if ps is None:
            continue
        every = f.short == 'flushAll'
        norm(I)
        bad = unk = None
        done = False
        for info in I.loopinfo:
            hs = info['head']
            cs = [x for x in counters(I, info) if x[3] == 1 and isinstance(x[1], Lin) and x[1].is_const()]
            for k, v0, hv, d in cs:
                stg = m32(hv) if hv.c else hv
                if not info['ends']:
                    continue
                t = X.vloc(I, hs.copy(), stg)
                if t is None or not any(same_slot(e.facts, elem(x.obj), elem(t)) in ('ok', 'bad') for e in info['ends'] for x in evs_since(e, hs) if x.kind == 'write' and x.obj is not None and elem(x.obj) is not None):
                    continue
                for e in info['ends']:
                    st = hs.copy()
                    st.facts = frozenset(e.facts)
                    t = X.vloc(I, st, stg)
                    if t is None:
                        break
                    hit = [(l, x) for l, x in ((elem(x.obj), x) for x in evs_since(e, hs) if x.kind == 'write' and x.obj is not None) if l is not None and l[0] == 'i' and same_loc([], l[1], elem(t)[1]) == 'ok']
                    for l, x in hit:
                        w = same_slot(e.facts, l, elem(t))
                        if w == 'bad':
                            bad = 'clears %s for stage %s' % (show_any(l), show_any(stg))
                        elif w != 'ok':
                            unk = 'clears ' + show_any(l)
                    was, now = I.load(hs.copy(), t), I.load(e, t)
                    cl = entails(e.facts, eq(now, ZERO))
                    fs = '; '.join(show_fact(x) for x in e.facts)
                    if every and not cl and [x for x in evs_since(e, hs) if x.kind in ('write', 'call', 'icall') and (x.kind != 'write' or not any(same_slot(e.facts, elem(x.obj), elem(t)) == 'ok' for _ in (1,)))]:
                        unk = 'an iteration writes elsewhere'
                    elif every and not cl:
                        bad = 'an iteration leaves a stage valid: ' + fs[:200]
                    n0, n1 = X.num(I, hs.copy()), X.num(I, e)
                    if not every:
                        m = [x for x in e.facts if x[0] in ('eq', 'ne') and re.search(r'operator==|icall|call|arg:%s' % f.params[0][1], show_fact(x))]
                        if n0 is None or n1 is None:
                            unk = 'numValid'
                        elif hit:
                            dn = n1 - n0
                            if dn.is_const() and dn.c == -1 and entails(e.facts, lt(hv, ZERO)):
                                bad = 'counts down for the appended data: ' + fs[:200]
                            elif dn.is_const() and dn.c == -1 and not entails(e.facts, le(ZERO, hv)):
                                bad = 'counts down for the appended data as well: ' + fs[:200]
                            elif dn.is_const() and dn.c == 0 and not entails(e.facts, lt(hv, ZERO)):
                                if entails(e.facts, eq(was, ONE)) or not entails(e.facts, eq(was, ZERO)):
                                    bad = 'clears a counted stage without counting down: ' + fs[:200]
                            elif not dn.is_const() or dn.c not in (0, -1):
                                unk = unk or 'numValid changes by ' + show_any(dn)
                            if not entails(e.facts, eq(was, ZERO)) and not any(_match(x, True) for x in m):
                                if any(_match(x, False) for x in m):
                                    bad = 'clears an entry that does not match: ' + fs[:200]
                                else:
                                    bad = 'clears an entry without asking: ' + fs[:200]
                        else:
                            if not entails(e.facts, eq(was, ZERO)) and not any(_match(x, False) for x in m):
                                bad = 'leaves an entry that is valid and matches: ' + fs[:200]
                            if isinstance(n1 - n0, Lin) and (n1 - n0).is_const() and (n1 - n0).c:
                                bad = 'counts without clearing: ' + fs[:200]
                if t is None:
                    continue
                done = True
                cap = X.cap(I, St())
                if v0.c > -1:
                    if not _outside(I, X, ps):
                        bad = bad or 'starts at stage %d: the appended data stay' % v0.c
                elif v0.c < -1:
                    unk = unk or 'starts at %d' % v0.c
                for x in info['exits']:
                    if not entails(x.facts, le(cap, hv)):
                        txt = [g for g in x.facts if 'num_entries' in show_fact(g)]
                        if any(hv.t[0][0] in [a for a, _ in g[1].t] for g in txt if g[1].t):
                            bad = bad or 'stops before the last stage: ' + '; '.join(show_fact(g) for g in txt)[:200]
                        else:
                            unk = unk or 'loop bound'
                break
            if done:
                break
        for p in normals(ps) if done else ():
            if not p.events('iter') and not any(e.loops for e in p.events()):
                t = X.vloc(I, St(), MINUS1)
                n0 = X.num(I, St())
                if t is None or n0 is None:
                    unk = unk or 'a path without the walk'
                elif not entails(p.st.facts, le(n0, ZERO)) or not entails(p.st.facts, eq(I.load(St(), t), ZERO)):
                    bad = bad or 'returns without the walk although %s may be valid: %s' % ('a stage' if not entails(p.st.facts, le(n0, ZERO)) else 'the appended data', path_show(p, 4))
        if not done:
            unk = unk or 'the walk over the stages is not recognised'
        if every:
            for p in normals(ps):
                v = X.num(I, p.st)
                w = verdict(p.st.facts, eq(v, ZERO)) if v is not None else 'unknown'
                if w == 'bad':
                    bad = bad or 'numValid is %s afterwards' % show_any(v)
                elif w != 'ok':
                    unk = unk or 'numValid'
        stm(c, rid, f, bad, len(normals(ps)), unk)
    for f in X.m('clear') + X.m('resize'):
        I, ps = run(c, P, f, rid, Config(thiscls=f.cls, opaque=['sparta::utils::pow2', 'sparta::utils::ceil_log2', 'sparta::utils::*log2*']))
        if ps is None:
            continue
        bad = unk = None
        for p in normals(ps):
            v = X.num(I, p.st)
            w = verdict(p.st.facts, eq(v, ZERO)) if v is not None else 'unknown'
            if w == 'bad':
                bad = 'numValid is %s afterwards: %s' % (show_any(v), path_show(p, 4))
            elif w != 'ok':
                unk = 'numValid'
            if not p.events('newarr') and not any('make_unique' in e.name for e in p.events('call')):
                if not I.loopinfo and not [e for e in p.events('call')]:
                    bad = bad or 'the entries are kept: ' + path_show(p, 4)
                else:
                    unk = unk or 'entries'
            for e in p.events('newarr') if f.short == 'resize' else ():
                z = size_of(f, p, I, e)
                if z == 'unknown':
                    unk = unk or 'allocation size'
                elif z:
                    bad = bad or z + ': ' + path_show(p, 4)
            for e in p.events('newarr') if f.short == 'clear' else ():
                if not e.args or e.args[0] != init(F('physical_size_'), 'u32'):
                    d = e.args[0] - init(F('physical_size_'), 'u32') if e.args and isinstance(e.args[0], Lin) else None
                    if d is not None and (d.is_const() and d.c < 0 or e.args[0] == init(F('num_entries_'), 'u32')):
                        bad = bad or 'allocates %s entries' % show_any(e.args[0])
                    else:
                        unk = unk or 'allocation size'
            if f.short == 'resize':
                a = arg(f, 0)
                k = X.cap(I, p.st)
                if k is None or not entails(p.st.facts, eq(k, a)):
                    bad = bad or 'the capacity is %s: %s' % (show_any(k), path_show(p, 4))
        stm(c, rid, f, bad, len(normals(ps)), unk)


def size_of(f, p, I, e):
    """the entries allocated are a power of two greater than the number of stages, and the mask is one less"""
    N = e.args[0] if e.args else None
    mask = I.load(p.st, F('stage_mask_'), 'u32')
    cl = [x for x in p.events('call') if re.search('log2$', x.name)]
    if not isinstance(N, Lin) or not isinstance(mask, Lin) or 'pow2' not in show_any(N) or len(cl) != 1:
        return 'unknown'
    if m32(mask + ONE) != m32(N):
        return 'mask %s for %s entries' % (show_any(mask), show_any(N))
    k = cl[0].args[0] - arg(f, 0) if isinstance(cl[0].args[0], Lin) else None
    if k is None or not k.is_const() or not cl[0].name.endswith('ceil_log2'):
        return 'unknown'
    return None if k.c >= 1 else 'no entry is left for the appended data: %s entries for %s stages' % (show_any(cl[0].args[0]), show_any(arg(f, 0)))


def _match(fact, yes):
    """the fact is the outcome (yes / no) of the comparison or predicate on the entry"""
    k, L = fact[0], fact[1]
    if len(L.t) == 2 and L.c == 0 and 'arg:' in show_fact(fact):
        return k == ('eq' if yes else 'ne')
    if len(L.t) != 1:
        return False
    one = L.c != 0
    if yes:
        return (k == 'eq' and one) or (k == 'ne' and not one)
    return (k == 'eq' and not one) or (k == 'ne' and one)


def _outside(I, X, ps):
    """every normal path clears the appended data outside the loop"""
    for p in normals(ps):
        t = X.vloc(I, St(), MINUS1)
        if t is None or not [1 for l, e in X.entries(I, p.st, elem(t)[1]) if not e.loops and same_slot(p.st.facts, l, elem(t)) == 'ok']:
            return False
    return True


def appends(c, P, X, r1, r2, r5, rid):
    for f in X.m('append'):
        I = Interp(P, Config(thiscls=f.cls))
        t = X.vloc(I, St(), MINUS1)
        if t is None:
            c.unk(rid, label(f), f.where(), 'stage -1 is not expressible')
            continue
        guard(c, P, rid, f, lambda I, st: [eq(I.load(St(), t), ZERO)], what='nothing appended yet')
    f = X.m('shiftAppend')[0]
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls), facts=X.apart(lambda n: ZERO))
    if ps is None:
        return
    bad = unk = None
    for p in normals(ps):
        st = St()
        st.facts = frozenset(p.st.facts)
        a, z = X.vloc(I, st, MINUS1), X.vloc(I, st, ZERO)
        if a is None or z is None:
            unk = 'stages'
            continue
        va, vz = I.load(St(), a), I.load(St(), z)
        fs = p.st.facts
        ch = X.entries(I, p.st, elem(a)[1])
        if isinstance(p.ret, Lin) and p.ret.is_const() and p.ret.c == 0:
            if ch:
                bad = 'reports no shift but changes an entry: ' + path_show(p, 5)
            if not entails(fs, eq(va, ZERO)) and not entails(fs, eq(vz, ONE)) and not entails(fs, ne(vz, ZERO)):
                bad = bad or 'does not shift although stage 0 may be free: ' + path_show(p, 5)
        elif isinstance(p.ret, Lin) and p.ret.is_const():
            if not entails(fs, ne(va, ZERO)) or not entails(fs, eq(vz, ZERO)):
                bad = bad or 'shifts although nothing is appended or stage 0 is taken: ' + path_show(p, 5)
            if not entails(fs, eq(I.load(p.st, a), ZERO)) or not entails(fs, eq(I.load(p.st, z), ONE)):
                bad = bad or 'after the shift stage 0 is %s and the appended entry %s' % (show_any(I.load(p.st, z)), show_any(I.load(p.st, a)))
            n0, n1 = X.num(I, St()), X.num(I, p.st)
            w = verdict(fs, eq(n1 - n0, ONE))
            if w == 'bad':
                bad = bad or 'numValid changes by %s' % show_any(n1 - n0)
        else:
            unk = 'returns ' + show_any(p.ret)
    stm(c, rid, f, bad, len(normals(ps)), unk)


def front(c, P, rid):
    cls = sorted({g.cls for g in P.by_rec.get(FA, []) if g.cls})
    if not cls:
        raise Broken('FrontArray is not instantiated')
    hint(c, P, cls[0], 'valid_index_set_', 'num_entries_')
    cap = init(F('num_entries_'), 'u32')
    for f in [g for g in P.by_rec[FA] if g.cls == cls[0] and g.short in ('writeFront', 'writeBack', 'push_front', 'push_back', 'readValid')]:
        I, ps = run(c, P, f, rid, Config(thiscls=f.cls, history=True, opaque=['sparta::Array::write', 'sparta::Array::read', 'sparta::Array::isValid'], pure=['sparta::Array::isValid']))
        if ps is None:
            continue
        norm(I)
        bad = unk = None
        up = f.short in ('writeFront', 'push_front')
        if f.short == 'readValid':
            bad, unk = nth(I, f, ps, cap)
            stm(c, rid, f, bad, len(normals(ps)), unk)
            continue
        for p in normals(ps):
            ws = [e for e in p.events('call') if e.name.rsplit('::', 1)[-1] == 'write']
            if len(ws) != 1:
                bad = bad or 'writes %d entries: %s' % (len(ws), path_show(p, 5))
                continue
            ix = ws[0].args[0]
            if not isinstance(ix, Lin) or not isinstance(p.ret, Lin):
                unk = 'index ' + show_any(ix)
                continue
            if ix != p.ret and not entails(p.st.facts, eq(ix, p.ret)):
                bad = bad or 'writes entry %s and returns %s' % (show_any(ix), show_any(p.ret))
            if not names(ws[0].args[1], f.params[0][1]):
                unk = unk or 'writes ' + show_any(ws[0].args[1])
            if not any(re.search(r'isValid', show_fact(x)) and x[0] == 'eq' and x[1].c == 0 and _arg_is(x, ix) for x in p.st.facts):
                if any(re.search(r'isValid', show_fact(x)) for x in p.st.facts):
                    bad = bad or 'the entry written has not been found free: ' + path_show(p, 5)
                else:
                    unk = unk or 'free test'
        cs = [(info, x) for info in I.loopinfo for x in counters(I, info) if abs(x[3]) == 1]
        if not cs or len(cs) != len(I.loopinfo):
            unk = unk or 'the search is not recognised'
        for info, (k, v0, hv, d) in cs:
            off = [o for o in (0, -1, 1) if any('isValid' in show_fact(x) and _arg_is(x, hv + const(o)) for e in info['ends'] for x in e.facts)]
            if len(off) != 1 or not isinstance(v0, Lin):
                unk = unk or 'the entry tested'
                continue
            v0, hv = v0 + const(off[0]), hv + const(off[0])
            if d != (1 if up else -1):
                bad = bad or 'the search runs %s' % ('downwards' if up else 'upwards')
            elif (v0 != ZERO and up) or (not up and m32(v0 - cap + ONE) != ZERO):
                bad, unk = (bad or 'the search starts at ' + show_any(v0), unk) if isinstance(v0, Lin) and stable(v0) else (bad, 'start ' + show_any(v0))
            for e in info['ends']:
                if not any(re.search('isValid', show_fact(x)) and _match(x, True) and _arg_is(x, hv) for x in e.facts):
                    if any(re.search('isValid', show_fact(x)) for x in e.facts):
                        bad = bad or 'passes over an entry that may be free: ' + '; '.join(show_fact(x) for x in e.facts)[:160]
                    else:
                        unk = unk or 'pass-over'
        stm(c, rid, f, bad, len(normals(ps)), unk)


def _arg_is(x, ix):
    return ',%s)' % show_any(ix) in show_fact(x)


def nth(I, f, ps, cap):
    bad = unk = None
    if len(I.loopinfo) != 1:
        return None, 'the search is not recognised'
    info = I.loopinfo[0]
    cs = counters(I, info)
    pos = [x for x in cs if x[3] == 1]
    nn = arg(f, 0)
    if len(pos) != 1:
        return None, 'position counter'
    k, v0, hv, d = pos[0]
    if v0 != ZERO:
        bad = 'the search starts at ' + show_any(v0)
    # the counter of valid entries: one more exactly on the ends where the entry at the position is valid
    h = info['head']
    cnt = None
    for kk in set().union(*[set(e.store) for e in info['ends']]):
        x = h.store.get(kk)
        if x is None:
            x = I.load(h.copy(), kk)
        if not isinstance(x, Lin) or not x.t or kk == k:
            continue
        ds = [(e, e.store.get(kk, x) - x if isinstance(e.store.get(kk, x), Lin) else None) for e in info['ends']]
        if all(v is not None and v.is_const() for _, v in ds) and any(v.c for _, v in ds):
            cnt = (kk, info['entry'].store.get(kk), x)
            for e, v in ds:
                yes = [y for y in e.facts if 'isValid' in show_fact(y) and _arg_is(y, hv)]
                if not yes:
                    bad = bad or 'counts %d without testing entry %s: %s' % (v.c, show_any(hv), '; '.join(show_fact(y) for y in e.facts)[:160])
                elif any(_match(y, True) for y in yes) != (abs(v.c) == 1):
                    bad = bad or 'counts %d for an entry that is %svalid' % (v.c, '' if any(_match(y, True) for y in yes) else 'not ')
    if cnt is None:
        return bad, 'count of valid entries'
    rd = [(p, e) for p in normals(ps) for e in p.events('call') if e.name.rsplit('::', 1)[-1] == 'read']
    for p, e in rd:
        ix = e.args[0]
        iv = [x for x in p.st.facts if 'isValid' in show_fact(x)]
        if not isinstance(ix, Lin) or not iv:
            unk = unk or 'reads ' + show_any(ix)
        elif not any(_match(x, True) and _arg_is(x, ix) for x in iv):
            bad = bad or 'reads entry %s, the last one counted is another: %s' % (show_any(ix), '; '.join(show_fact(x) for x in iv))
    if not rd:
        unk = 'read'
    down = any(info['ends'] and isinstance(e.store.get(cnt[0]), Lin) and (e.store[cnt[0]] - cnt[2]).c == -1 for e in info['ends'])
    if down:
        z = cnt[1] - nn if isinstance(cnt[1], Lin) else None
        if z is None or not z.is_const() or not all(entails(x.facts, eq(cnt[2], ZERO)) for x in info['exits']):
            unk = unk or 'count down'
        elif z.c != 1:
            bad = bad or 'counts %s entries' % show_any(cnt[1])
        return bad, unk
    if cnt[1] != ZERO:
        return bad, unk or 'count from ' + show_any(cnt[1])
    for x in info['exits']:
        if not entails(x.facts, lt(nn, cnt[2])):
            if entails(x.facts, le(nn, cnt[2])):
                bad = bad or 'stops one valid entry early: ' + '; '.join(show_fact(y) for y in x.facts)[:160]
            else:
                unk = unk or 'exit'
    return bad, unk
