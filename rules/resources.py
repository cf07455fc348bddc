"""Containers of sparta/resources: capacity, validity, occupancy, order, lifetime."""
from lib import *
from lib import _sev

TU = 'inst/resources.cpp'
Q = 'sparta::Queue'
B = 'sparta::Buffer'
CB = 'sparta::CircularBuffer'
A = 'sparta::Array'
PI = 'sparta::Pipe'
EL = 'VpElem'


def arg(f, i, ty='u32'):
    return init(('p', f.params[i][1] or 'arg%d' % i), ty)


def reflike(f, i):
    return f.params[i][2].startswith('&')


def obs(P, cls, *names):
    out = {}
    for n in names:
        fs = [g for g in P.find(cls[0] + '::' + n) if g.cls == cls[1] and len(g.params) == 0]
        if not fs:
            raise Broken('%s::%s() not found' % cls[:1] + (n,))
        out[n] = sorted(fs, key=lambda g: not g.const)[0]
    return out


def meth(P, cls, name, sig=None, pred=None):
    r = [g for g in P.find(cls[0] + '::' + name) if g.cls == cls[1] and (sig is None or g.sig == sig) and (pred is None or pred(g))]
    if not r:
        raise Broken('%s::%s not found' % (cls[0], name))
    return r


def classes(P):
    out = {}
    for q in (Q, B, CB, PI, 'sparta::Pipeline', 'sparta::PriorityQueue'):
        cl = {g.cls for g in P.by_rec.get(q, []) if g.cls}
        if not cl:
            raise Broken('class template %s is not instantiated' % q)
        out[q] = (q, sorted(cl)[0])
    for g in P.by_rec.get(A, []):
        out.setdefault(A + ('#aged' if 'AGED' in g.cls or '1' in g.cls.split(',')[-1] else '#normal'), (A, g.cls))
    return out


class Res:
    """seeded pre-state of one container: class invariants as facts"""

    def __init__(self, c, P, cls):
        self.c, self.P, self.cls = c, P, cls
        self.I = Interp(P, Config(thiscls=cls[1]))

    def val(self, fn, st=None, args=None):
        v = observe1(self.I, fn, st or St(), args)
        return v


def size_le_cap(P, cls):
    """invariant size() <= capacity() as a fact over the entry state"""
    I = Interp(P, Config(thiscls=cls[1]))
    o = obs(P, cls, 'size', 'capacity')
    s, k = observe1(I, o['size'], St()), observe1(I, o['capacity'], St())
    if s is None or k is None:
        raise Broken('size()/capacity() of %s not expressible' % cls[0])
    return [le(s, k)], s, k


def call_isvalid(I, P, cls, st, a):
    g = meth(P, cls, 'isValid', pred=lambda g: len(g.params) == 1)[0]
    return observe1(I, g, st, [a])


def finite(c, P, cls):
    """hint: bounded mode of Buffer"""
    def seed(st):
        if cls[0] == B and hint(c, P, cls[1], 'is_infinite_mode_'):
            st.store[F('is_infinite_mode_')] = ZERO
    return seed


def has_fld(P, cls, n):
    return any(x[0]['name'] == n for x in P.all_fields(cls[1]))


def R01(c):
    P = c.program(TU)
    K = classes(P)
    r = c.rule('capacity', 'an insertion returns normally only if there was room before it, and size() never exceeds capacity() afterwards', 11)
    r2 = c.rule('index-bound', 'a write by index returns normally only for an index below capacity()', 4)
    r3 = c.rule('refuse', 'an insertion that is refused has changed nothing before refusing', 10)
    for q, names in ((Q, ['push']), (B, ['push_back', 'insert'])):
        cls = K[q]
        inv, s, k = size_le_cap(P, cls)
        for n in names:
            for f in meth(P, cls, n):
                I = Interp(P, Config(thiscls=cls[1]))
                guard(c, P, r, f, lambda I, st: [lt(s, k)], seed=finite(c, P, cls), facts=inv, what='size() < capacity()')
                st0 = St()
                finite(c, P, cls)(st0)
                I, ps = run(c, P, f, r3, st=st0, facts=inv)
                if ps is not None and throws(ps):
                    refuse_clean(c, P, r3, f, ps)
    cls = K[CB]
    inv, s, k = size_le_cap(P, cls)
    for f in meth(P, cls, 'push_back'):
        d = Delta(c, P, r, f, obs(P, cls, 'size', 'capacity'), facts=inv)
        d.check(lambda pre, po, p: [le(po['size'], po['capacity']), [[lt(pre['size'], k), eq(po['size'], pre['size'] + 1)], [eq(pre['size'], k), eq(po['size'], k)]]],
                'full buffer keeps its size, otherwise the size grows by one')
    for f in meth(P, cls, 'insert'):
        d = Delta(c, P, r, f, obs(P, cls, 'size', 'capacity'), facts=inv)
        d.check(lambda pre, po, p: [le(po['size'], po['capacity'])], 'size() <= capacity() after insert')
    for nm, cls in K.items():
        if not nm.startswith(A):
            continue
        inv, s, k = size_le_cap(P, cls)
        for f in meth(P, cls, 'write', pred=lambda g: g.params[0][2].endswith('u32')):
            guard(c, P, r2, f, lambda I, st, f=f: [lt(arg(f, 0), k)], what='index < capacity()')
            I, ps = run(c, P, f, r3)
            if ps is not None:
                refuse_clean(c, P, r3, f, [p for p in ps if not entails(p.st.facts, lt(arg(f, 0), k))])


IDX_READS = (('read', 'index'), ('access', 'index'))


def is_idx(g):
    return len(g.params) >= 1 and bare_int(g.params[0][2])


def bare_int(t):
    for p in ('c ', '&&', '&', 'c '):
        if t.startswith(p):
            t = t[len(p):]
    return t in ('u32', 'u64', 'i32', 'u16')


def argval(I, f, i, st):
    """value of an integer argument, by value or by reference"""
    l = ('p', f.params[i][1] or 'arg%d' % i)
    t = f.params[i][2]
    for p in ('c ', '&&', '&', 'c '):
        if t.startswith(p):
            t = t[len(p):]
    return I.load(st, l, t)


def R02(c):
    P = c.program(TU)
    K = classes(P)
    r = c.rule('index-valid', 'reading, accessing, erasing or invalidating by index returns normally only for an index isValid() accepts', 9)
    r2 = c.rule('non-empty', 'front/back/pop/top return normally only if the container is not empty', 7)
    r3 = c.rule('deref', 'dereferencing an iterator returns normally only if the iterator reports itself valid', 8)
    r4 = c.rule('refuse', 'a refused access or removal has changed nothing', 12)

    def by_index(cls, names, bad=r):
        for n in names:
            for f in meth(P, cls, n, pred=is_idx):
                g = meth(P, cls, 'isValid', pred=lambda g: len(g.params) == 1)[0]
                a = argval(Interp(P, Config(thiscls=cls[1])), f, 0, St())
                deref(c, P, r, f, g, [a if not g.params[0][2].startswith('&') else ('REF', ('p', f.params[0][1]))])
                I, ps = run(c, P, f, r4)
                if ps is not None and throws(ps):
                    refuse_clean(c, P, r4, f, [p for p in ps if p.outcome == 'throw'], ignore=lambda e: late(e))

    def late(e):
        return False
    by_index(K[Q], ['read', 'access'])
    by_index(K[B], ['read', 'access'])
    for f in meth(P, K[B], 'erase', pred=is_idx):
        inv, s, k = size_le_cap(P, K[B])
        guard(c, P, r, f, lambda I, st, f=f: [lt(argval(I, f, 0, st), s)], facts=inv, what='isValid(index)')
        I, ps = run(c, P, f, r4, facts=inv)
        if ps is not None:
            refuse_clean(c, P, r4, f, [p for p in throws(ps) if not p.events('iter')])
    for nm, cls in K.items():
        if nm.startswith(A):
            by_index(cls, ['read', 'access'])
            inv, s, k = size_le_cap(P, cls)
            for f in meth(P, cls, 'erase', pred=is_idx):
                g = meth(P, cls, 'isValid', pred=lambda g: len(g.params) == 1)[0]
                a = argval(Interp(P, Config(thiscls=cls[1])), f, 0, St())
                deref(c, P, r, f, g, [a if not g.params[0][2].startswith('&') else ('REF', ('p', f.params[0][1]))])
    for n in ('read', 'access', 'invalidatePS'):
        for f in meth(P, K[PI], n, pred=is_idx):
            g = meth(P, K[PI], 'isValid', pred=lambda g: len(g.params) == 1)[0]
            deref(c, P, r, f, g, [argval(Interp(P, Config(thiscls=f.cls)), f, 0, St())])
    for q, names in ((Q, ['front', 'back', 'pop', 'pop_back']), (B, ['accessBack']), ('sparta::PriorityQueue', ['top', 'back', 'pop'])):
        inv = []
        I = Interp(P, Config(thiscls=K[q][1]))
        if q == B:
            inv, s, k = size_le_cap(P, K[q])
        s = observe1(I, obs(P, K[q], 'size')['size'], St())
        for n in names:
            for f in meth(P, K[q], n):
                guard(c, P, r2, f, lambda I, st: [('le', ONE - s)], facts=inv, what='size() > 0')
                I2, ps = run(c, P, f, r4, facts=inv)
                if ps is not None:
                    refuse_clean(c, P, r4, f, ps)
    # iterators
    seen = set()
    for q, itname in ((Q, 'QueueIterator'), (B, 'BufferIterator'), (CB, 'CircularBufferIterator'), (A, 'ArrayIterator'), (PI, 'PipeIterator')):
        for f in P.by_rec.get(q + '::' + itname, []):
            if f.short not in ('operator*', 'operator->') or f.cls is None:
                continue
            vs = [g for g in P.by_cls[f.cls] if g.short == 'isValid' and not g.params]
            if not vs:
                continue
            seen.add(q)

            def mk(I, st, vs=vs):
                rs = observe_all(I, vs[0], st)
                if not rs:
                    return None
                return ('ALT', rs)
            deref(c, P, r3, f, vs[0])
    for q in (Q, B, CB, A, PI):
        if q not in seen:
            raise Broken('iterator of %s not analysed' % q)





# ---- R03 occupancy ----------------------------------------------------------

def stat_fields(P, cls):
    """(histogram pointer fields, counter vector fields) of a container class"""
    h, v = [], []
    for x in P.all_fields(cls[1]):
        n, t = x[0]['name'], x[0]['ty']
        if 'CycleHistogram' in t:
            h.append(n)
        elif 'CycleCounter' in t and 'vector' in t:
            v.append(n)
    return h, v


def stat_follow(c, P, rid, cls, f, ps, I, sizeobs, presize):
    """the occupancy statistic is told the size the container has on return, whenever the size changed"""
    h, v = stat_fields(P, cls)
    if not h and not v:
        raise Broken('no occupancy statistic found in ' + cls[0])
    n = 0
    for p in normals(ps):
        po = observe1(I, sizeobs, p.st)
        if po is None:
            c.unk(rid, label(f), f.where(), 'size() not expressible on return')
            return
        if entails(p.st.facts, eq(po, presize)):
            continue
        for fld in h:
            if any(entails(p.st.facts, ('eq', I.load(p.st, l, 'ptr'))) for l in (F(fld), F(fld, '$ptr'), F(fld, '$p'))):
                continue
            if not any(any(isinstance(k, tuple) and k[0] == 'ld' and has_prefix(k[1], F(fld)) for k in x[1].atoms()) for x in p.st.facts) and not any(
                    root(e.obj or THIS)[0] == 'at' and 'ycleHistogram' in (e.name or '') for e in p.events('call')):
                c.bad(rid, label(f), f.where(), 'size changed to %s but %s was never told; %s' % (show_any(po), fld, path_show(p)))
                return
            sv = [e for e in p.events('call') if 'ycleHistogram' in e.name and e.name.split('::')[-1] in ('setValue', 'addValue')]
            if not sv:
                if any(x[0] == 'eq' and any(isinstance(k, tuple) and k[0] == 'ld' and has_prefix(k[1], F(fld)) for k in x[1].atoms()) for x in p.st.facts):
                    continue
                c.bad(rid, label(f), f.where(), 'size changed to %s but %s was not told; %s' % (show_any(po), fld, path_show(p)))
                return
            a = sv[-1].args[0]
            vd = verdict(p.st.facts, eq(a, po)) if isinstance(a, Lin) else 'unknown'
            if vd != 'ok':
                c.ob(rid, label(f), f.where(), vd, 'statistic told %s but size() is %s on return; %s' % (show_any(a), show_any(po), path_show(p)))
                return
            n += 1
        for fld in v:
            sz = I.size_of(p.st, F(fld))
            if entails(p.st.facts, ('eq', sz)):
                continue
            on = [e for e in p.events('call') if e.name.endswith('CycleCounter::startCounting')]
            if not on:
                if any(x[0] == 'eq' and x[1] == sz for x in p.st.facts):
                    continue
                c.bad(rid, label(f), f.where(), 'size changed to %s but no occupancy counter was started; %s' % (show_any(po), path_show(p)))
                return
            l = on[-1].obj
            k = l[1].single() if l[0] == 'at' else None
            ix = None
            while k is not None and isinstance(k, tuple) and k[0] == 'ld':
                l = k[1]
                while l[0] == 'f':
                    l = l[1]
                if l[0] == 'i':
                    ix = l[2]
                break
            vd = verdict(p.st.facts, eq(ix, po)) if isinstance(ix, Lin) else 'unknown'
            if vd != 'ok':
                c.ob(rid, label(f), f.where(), vd, 'occupancy counter %s started but size() is %s on return; %s' % (show_any(ix), show_any(po), path_show(p)))
                return
            n += 1
    c.ok(rid, label(f), f.where(), 'statistic follows size() on %d updating paths' % n)


def cb_inv(c, P, cls):
    """hints: entry list and occupancy counter agree with the size, capacity is positive"""
    if not hint(c, P, cls[1], 'num_valid_', 'previous_valid_entry_', 'circularbuffer_data_', 'max_size_'):
        return []
    nv = init(F('num_valid_'), 'u32')
    return [eq(init(F('previous_valid_entry_'), 'u32'), nv), eq(init(F('circularbuffer_data_', '$size'), 'u64'), nv),
            le(ONE, init(F('max_size_'), 'u32'))]


def R03(c):
    P = c.program(TU)
    K = classes(P)
    r = c.rule('size-delta', 'size() changes by exactly the number of entries the call adds or removes', 28)
    r2 = c.rule('num-free', 'numFree() is capacity() - size() in every state', 3)
    r3 = c.rule('statistic', 'whenever a call changes size(), the occupancy statistic is told the new size', 12)
    r4 = c.rule('empty', 'empty() is size() == 0', 3)

    def inc(pre, po, p):
        return [eq(po['size'], pre['size'] + 1)]

    def dec(pre, po, p):
        return [eq(po['size'], pre['size'] - 1)]

    def zero(pre, po, p):
        return [eq(po['size'], ZERO)]

    def same(pre, po, p):
        return [eq(po['size'], pre['size'])]
    tab = [(Q, 'push', inc), (Q, 'pop', dec), (Q, 'pop_back', dec), (Q, 'clear', zero),
           (B, 'push_back', inc), (B, 'insert', inc), (B, 'erase', dec), (B, 'clear', zero),
           (CB, 'insert', inc), (CB, 'erase', dec), (CB, 'clear', zero),
           (PI, 'append', same), (PI, 'flushAppend', same), (PI, 'flushAll', zero), (PI, 'clear', zero), (PI, 'invalidatePS', dec),
           ('sparta::PriorityQueue', 'insert', inc), ('sparta::PriorityQueue', 'pop', dec), ('sparta::PriorityQueue', 'clear', zero)]
    stats = (Q, B, CB)
    for q, n, post in tab:
        cls = K[q]
        o = obs(P, cls, 'size')
        inv = []
        if q in stats:
            inv, s, k = size_le_cap(P, cls)
        for f in meth(P, cls, n):
            def seed(st, q=q, cls=cls):
                finite(c, P, cls)(st)
                if q == CB:
                    return cb_inv(c, P, cls)
            d = Delta(c, P, r, f, o, seed=seed, facts=inv)
            d.check(post, '%s changes size() as documented' % n)
            if not d.dead and q in stats:
                stat_follow(c, P, r3, cls, f, d.ps, d.I, o['size'], d.pre['size'])
    # full CircularBuffer
    cls = K[CB]
    inv, s, k = size_le_cap(P, cls)
    for f in meth(P, cls, 'push_back'):
        d = Delta(c, P, r, f, obs(P, cls, 'size', 'capacity'), facts=inv, seed=lambda st: cb_inv(c, P, cls))
        if not d.dead:
            stat_follow(c, P, r3, cls, f, d.ps, d.I, obs(P, cls, 'size')['size'], d.pre['size'])
    # Pipe stages
    cls = K[PI]
    o = obs(P, cls, 'size')
    g = meth(P, cls, 'isValid', pred=lambda g: len(g.params) == 1)[0]
    for n, a, b in (('writePS', 1, 0), ('flushPS', 0, -1)):
        for f in meth(P, cls, n):
            d = Delta(c, P, r, f, o)
            if d.dead:
                continue
            v = observe1(d.I, g, St(), [argval(d.I, f, 0, St())])
            if v is None:
                c.unk(r, label(f), f.where(), 'isValid(stage) not expressible')
                continue
            d.check(lambda pre, po, p: [[[('eq', v), eq(po['size'], pre['size'] + a)], [('ne', v), eq(po['size'], pre['size'] + b)]]],
                    'size() counts the stage exactly while it is valid')
    # Array
    for nm, cls in K.items():
        if not nm.startswith(A):
            continue
        o = obs(P, cls, 'size')
        g = meth(P, cls, 'isValid', pred=lambda g: len(g.params) == 1)[0]
        for f in meth(P, cls, 'write', pred=is_idx):
            d = Delta(c, P, r, f, o)
            if d.dead:
                continue
            rs = observe_all(d.I, g, d.prest(), [argval(d.I, f, 0, St())])
            if not rs:
                c.unk(r, label(f), f.where(), 'isValid(index) not expressible')
                continue

            def post(pre, po, p, rs=rs):
                alts = []
                for s2, v in rs:
                    extra = list(s2.facts)
                    if not isinstance(v, Lin):
                        return None
                    if v.t:
                        alts.append(extra + [('ne', v), eq(po['size'], pre['size'])])
                        alts.append(extra + [('eq', v), eq(po['size'], pre['size'] + 1)])
                    else:
                        alts.append(extra + [eq(po['size'], pre['size'] + (0 if v.c else 1))])
                return [alts]
            d.check(post, 'write counts the index once')
            stat_follow(c, P, r3, cls, f, d.ps, d.I, o['size'], d.pre['size'])
        for n, post in (('erase', dec), ('clear', zero)):
            for f in meth(P, cls, n, pred=lambda g: n == 'clear' or is_idx(g)):
                d = Delta(c, P, r, f, o)
                d.check(post, '%s changes size() as documented' % n)
                if not d.dead:
                    stat_follow(c, P, r3, cls, f, d.ps, d.I, o['size'], d.pre['size'])
    # numFree / empty
    for nm, cls in K.items():
        for x, other in (('numFree', r2), ('empty', r4)):
            fs = [g for g in P.find(cls[0] + '::' + x) if g.cls == cls[1] and not g.params]
            if not fs:
                continue
            I = Interp(P, Config(thiscls=cls[1]))
            st = St()
            if x == 'numFree':
                try:
                    oo = obs(P, cls, 'size', 'capacity')
                except Broken:
                    continue
                vals = [observe1(I, z, st) for z in (fs[0], oo['size'], oo['capacity'])]
                finite(c, P, cls)(st)
                rs = observe_all(I, fs[0], st)
                if None in vals[1:] or rs is None:
                    c.unk(other, label(fs[0]), fs[0].where(), 'not expressible')
                    continue
                for s2, v in rs:
                    vd = verdict(s2.facts | {le(vals[1], vals[2])}, eq(v, vals[2] - vals[1]))
                    c.ob(other, label(fs[0]), fs[0].where(), vd, 'numFree() = %s, capacity() - size() = %s' % (show_any(v), show_any(vals[2] - vals[1])))
            else:
                try:
                    oo = obs(P, cls, 'size')
                except Broken:
                    continue
                s0 = observe1(I, oo['size'], st)
                rs = observe_all(I, fs[0], st)
                if s0 is None or rs is None:
                    c.unk(other, label(fs[0]), fs[0].where(), 'not expressible')
                    continue
                st_ = 'ok'
                for s2, v in rs:
                    for fact, bad in ((('ne', v), ('ne', s0)), (('eq', v), ('eq', s0))):
                        t = s2.copy()
                        if t.add(fact) and t.add(bad):
                            st_ = 'bad' if all(stable(x[1]) for x in t.facts) else 'unknown'
                c.ob(other, label(fs[0]), fs[0].where(), st_, 'empty() against size() == 0')


# ---- R04 order --------------------------------------------------------------
KK = atom(('arg', 'k'), 'u32')


def loc_of(I, P, cls, name, st, args=()):
    """location a reference-returning accessor designates in a state"""
    fs = [g for g in P.find(cls[0] + '::' + name) if g.cls == cls[1] and len(g.params) == len(args) and all(bare_int(p[2]) for p in g.params)]
    if not fs:
        raise Broken('%s::%s not found' % (cls[0], name))
    r = observe_all(I, sorted(fs, key=lambda g: not g.const)[0], st, list(args))
    if not r:
        return None
    vs = {v[1] for s, v in r if isinstance(v, tuple) and v and v[0] == 'REF'}
    return vs.pop() if len(vs) == 1 else None


def same_loc(facts, a, b):
    """ok / bad / unknown: two locations are the same element"""
    if a is None or b is None:
        return 'unknown'
    if a == b:
        return 'ok'
    if a[0] != b[0]:
        return 'unknown'
    if a[0] == 'f':
        return same_loc(facts, a[1], b[1]) if a[2] == b[2] else 'unknown'
    if a[0] == 'i':
        v = same_loc(facts, a[1], b[1])
        if v != 'ok':
            return v
        w = verdict(facts, eq(a[2], b[2]))
        return w
    if a[0] == 'at':
        if entails(facts, eq(a[1], b[1])):
            return 'ok'
        ka, kb = a[1].single(), b[1].single()
        if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == kb[0] == 'ld' and ka[2] == kb[2]:
            return same_loc(facts, ka[1], kb[1])
        return 'unknown'
    return 'unknown'


def destroyed(p):
    return [e for e in p.events('dtor') if e.obj is not None and root(e.obj)[0] in ('at', 'this') and not e.loops]


def created(p):
    return [e for e in p.events('pnew') if e.obj is not None]


def queue_inv(c, P, cls):
    if not hint(c, P, cls[1], 'vector_size_', 'total_valid_', 'num_entries_', 'current_head_idx_', 'current_write_idx_'):
        return lambda st: []
    n = init(F('vector_size_'), 'u32')
    h, v, cap = init(F('current_head_idx_'), 'u32'), init(F('total_valid_'), 'u32'), init(F('num_entries_'), 'u32')

    def seed(st):
        I = Interp(P, Config(thiscls=cls[1]))
        w = I.mod(st, h + v, n, 'u32')
        st.store[F('current_write_idx_')] = w
        return [le(const(2), n), lt(h, n), le(v, cap), le(cap + cap, n), le(ONE, cap)]
    return seed


def R04(c):
    P = c.program(TU)
    K = classes(P)
    r = c.rule('push-at-end', 'an inserted element becomes the last one and no other element moves', 4)
    r2 = c.rule('pop-order', 'removal from the front (back) removes the first (last) element and keeps the order of the others', 2)
    r3 = c.rule('ends', 'front() and back() designate the first and the last element', 2)
    r4 = c.rule('shift', 'inserting or erasing in the middle shifts exactly the elements behind the position by one', 3)
    r5 = c.rule('list-order', 'a CircularBuffer appends at the end and, when full, drops the oldest', 2)
    r6 = c.rule('growth-table', 'the table an unbounded Buffer is rebuilt from when it grows follows the element table', 3)
    # Queue
    cls = K[Q]
    seed = queue_inv(c, P, cls)

    def ctx(f, extra=()):
        st0 = St()
        inv = list(seed(st0)) + list(extra)
        I, ps = run(c, P, f, r, st=st0, facts=tuple(inv))
        s = st0.copy()
        for x in inv:
            s.add(x)
        return I, ps, s
    size = obs(P, cls, 'size')['size']
    for f in meth(P, cls, 'push'):
        I, ps, s0 = ctx(f)
        if ps is None:
            continue
        n0 = observe1(I, size, s0)
        worst, why = 'ok', ''
        for p in normals(ps):
            cr = created(p)
            if len(cr) != 1:
                worst, why = 'bad', '%d elements constructed; %s' % (len(cr), path_show(p))
                break
            l = loc_of(I, P, cls, 'access', p.st, [n0])
            l = l[1] if l and l[0] == 'f' else l
            v = same_loc(p.st.facts, l, cr[0].obj)
            if _worse(v, worst):
                worst, why = v, 'constructed at %s but access(size()-1) designates %s; %s' % (show_loc(cr[0].obj), show_loc(l) if l else None, path_show(p))
            a = s0.copy()
            if n0 is not None and a.add(lt(KK, n0)):
                b = p.st.copy()
                b.add(lt(KK, n0))
                la, lb = loc_of(I, P, cls, 'access', a, [KK]), loc_of(I, P, cls, 'access', b, [KK])
                v = same_loc(b.facts, la, lb)
                if _worse(v, worst):
                    worst, why = v, 'element k moved from %s to %s; %s' % (la and show_loc(la), lb and show_loc(lb), path_show(p))
        c.ob(r, label(f), f.where(), worst, why or 'constructed at the end, others unmoved on %d paths' % len(normals(ps)))
    for n, front in (('pop', True), ('pop_back', False)):
        for f in meth(P, cls, n):
            I, ps, s0 = ctx(f)
            if ps is None:
                continue
            n0 = observe1(I, size, s0)
            worst, why = 'ok', ''
            for p in normals(ps):
                ds = destroyed(p)
                if len(ds) != 1:
                    worst, why = 'bad', '%d elements destroyed; %s' % (len(ds), path_show(p))
                    break
                a = s0.copy()
                for x in p.st.facts:
                    a.add(x)
                l = loc_of(I, P, cls, 'access', a, [ZERO if front else n0 - 1])
                v = same_loc(p.st.facts, l, ds[0].obj)
                if _worse(v, worst):
                    worst, why = v, 'destroyed %s, the %s element is %s; %s' % (show_loc(ds[0].obj), 'first' if front else 'last', l and show_loc(l), path_show(p))
                b = p.st.copy()
                if b.add(lt(KK, n0 - 1)) and a.add(lt(KK, n0 - 1)):
                    la = loc_of(I, P, cls, 'access', a, [KK + (1 if front else 0)])
                    lb = loc_of(I, P, cls, 'access', b, [KK])
                    v = same_loc(b.facts, la, lb)
                    if _worse(v, worst):
                        worst, why = v, 'element k afterwards is %s, expected %s; %s' % (lb and show_loc(lb), la and show_loc(la), path_show(p))
            c.ob(r2, label(f), f.where(), worst, why or 'removes the right element, order kept on %d paths' % len(normals(ps)))
    for n, which in (('front', 0), ('back', 1)):
        for f in meth(P, cls, n):
            I, ps, s0 = ctx(f)
            if ps is None:
                continue
            n0 = observe1(I, size, s0)
            worst, why = 'ok', ''
            for p in normals(ps):
                a = s0.copy()
                for x in p.st.facts:
                    a.add(x)
                l = loc_of(I, P, cls, 'access', a, [ZERO if not which else n0 - 1])
                v = same_loc(p.st.facts, l, p.ret[1] if isinstance(p.ret, tuple) else None)
                if _worse(v, worst):
                    worst, why = v, '%s() is %s, expected %s; %s' % (n, show_any(p.ret), l and show_loc(l), path_show(p))
            c.ob(r3, label(f), f.where(), worst, why)
    # Buffer
    cls = K[B]
    inv, sz, cap = size_le_cap(P, cls)
    for f in meth(P, cls, 'push_back'):
        st0 = St()
        finite(c, P, cls)(st0)
        I, ps = run(c, P, f, r, st=st0, facts=inv)
        if ps is None:
            continue
        worst, why = 'ok', ''
        for p in normals(ps):
            cr = created(p)
            if len(cr) != 1:
                worst, why = 'bad', '%d elements constructed; %s' % (len(cr), path_show(p))
                break
            s2 = p.st.copy()
            l = loc_of(I, P, cls, 'access', s2, [sz])
            tgt = cr[0].obj
            if l is not None and l != tgt and not (l[0] == 'at' and entails(p.st.facts, eq(l[1], addr(tgt)))):
                if _worse('unknown', worst):
                    worst, why = 'unknown', 'constructed at %s, last is %s' % (show_loc(tgt), show_loc(l))
            elif l is None and _worse('unknown', worst):
                worst, why = 'unknown', 'access() not expressible'
            a, b = st0.copy(), p.st.copy()
            for x in inv:
                a.add(x)
            a.add(lt(KK, sz))
            b.add(lt(KK, sz))
            cont = table_of(I, P, cls, sz)
            if cont is None:
                v = 'unknown'
            else:
                la, lb = I.load(a, ('i', cont, KK), 'ptr'), I.load(b, ('i', cont, KK), 'ptr')
                v = verdict(b.facts, eq(la, lb))
            if _worse(v, worst):
                worst, why = v, 'entry k of the table changed from %s to %s; %s' % (show(la), show(lb), path_show(p))
        c.ob(r, label(f), f.where(), worst, why)
        slot_map_rule(c, P, r6, cls, f, I, ps, sz)
    for n, up in (('insert', True), ('erase', False)):
        for f in meth(P, cls, n, pred=is_idx):
            st0 = St()
            finite(c, P, cls)(st0)
            I, ps = run(c, P, f, r4, st=st0, facts=inv)
            if ps is None:
                continue
            shift_rule(c, P, r4, cls, f, I, ps, sz, arg(f, 0), up)
            slot_map_rule(c, P, r6, cls, f, I, ps, sz)
    # CircularBuffer
    cls = K[CB]
    sizeo = obs(P, cls, 'size')['size']
    for f in meth(P, cls, 'push_back'):
        I, ps = run(c, P, f, r5, facts=cb_inv(c, P, cls))
        if ps is None:
            continue
        worst, why = 'ok', ''
        for p in normals(ps):
            ops = [e for e in p.events('cont') if e.name in ('emplace', 'insert', 'push_back', 'emplace_back', 'push_front', 'emplace_front', 'pop_front', 'pop_back', 'erase', 'splice')]
            add = [e for e in ops if e.name in ('emplace', 'insert', 'push_back', 'emplace_back')]
            bad = [e for e in ops if e.name in ('push_front', 'emplace_front', 'pop_back')]
            if len(add) != 1 or bad:
                worst, why = ('bad' if bad or len(add) > 1 or not ops else 'unknown'), 'list operations %s; %s' % ([e.name for e in ops], path_show(p))
                break
        c.ob(r5, label(f), f.where(), worst, why)


def _worse(a, b):
    return _sev(a) > _sev(b)


def shift_rule(c, P, rid, cls, f, I, ps, sz, idx, up):
    """the element table behind the position is shifted by one, in an order that never overwrites an unread element"""
    cont = table_of(I, P, cls, sz)
    if cont is None:
        c.unk(rid, label(f), f.where(), 'element table not identified')
        return
    seen = 0
    for p in normals(ps):
        ws = [e for e in p.events('write') if e.loops and e.obj is not None and e.obj[0] == 'i' and e.obj[1] == cont]
        other = [e for e in p.events('cont', 'call') if e.obj is not None and has_prefix(e.obj, cont)]
        if not ws:
            if other:
                c.unk(rid, label(f), f.where(), 'shifted by a library operation')
                return
            if any(root(a[1])[0] and has_prefix(a[1], cont) for e in p.events('call', 'icall') for a in e.args if isinstance(a, tuple) and a and a[0] == 'REF' and isinstance(a[1], tuple)):
                c.unk(rid, label(f), f.where(), 'table passed to a call')
                return
            # legal only if there is nothing to shift
            need = eq(idx, sz) if up else eq(idx, sz - 1)
            v = verdict(p.st.facts, need)
            if v == 'bad' and any(e.kind == 'iter' for e in p.events()):
                v = 'bad'
            if v != 'ok':
                c.ob(rid, label(f), f.where(), v, 'elements behind the position are not shifted; %s' % path_show(p))
                return
            continue
        for e in ws:
            i = e.obj[2]
            if e.kind != 'write':
                continue
            if not i.t:
                continue
            src = e.args[0]
            k = src.single() if isinstance(src, Lin) else None
            if not (isinstance(k, tuple) and k[0] == 'ld' and k[1][0] == 'i' and k[1][1] == cont):
                continue
            j = k[1][2]
            d = j - i
            want = -1 if up else 1
            if not d.is_const():
                c.unk(rid, label(f), f.where(), 'copies element %s to %s' % (show(j), show(i)))
                return
            if d.c != want:
                c.bad(rid, label(f), f.where(), 'element %s is overwritten with element %s' % (show(i), show(j)))
                return
            lo, hi = (idx + 1, sz) if up else (idx, sz - 2)
            fs = e.facts if isinstance(e.facts, frozenset) else p.st.facts
            for fact, txt in ((le(lo, i), 'starts at or behind the position'), (le(i, hi), 'ends at the last element')):
                if not entails(fs, fact):
                    c.unk(rid, label(f), f.where(), 'shift range not established (%s) under %s' % (txt, [show_fact(z) for z in fs][:20]))
                    return
            for fact, txt in ((le(lo + 1, i), 'the element at the position'), (le(i, hi - 1), 'the last element')):
                if entails(fs, fact):
                    c.bad(rid, label(f), f.where(), 'the shift leaves out %s' % txt)
                    return
            seen += 1
    if seen:
        c.ok(rid, label(f), f.where(), 'shifts [%s] by one in %d loop instances' % ('idx+1..size' if up else 'idx..size-2', seen))
    else:
        c.unk(rid, label(f), f.where(), 'no shift found')


def slot_map_rule(c, P, rid, cls, f, I, ps, sz):
    """the side table an unbounded Buffer is rebuilt from when it grows is updated together with the element table"""
    cont = table_of(I, P, cls, sz)
    am = F('address_map_')
    if cont is None or not hint(c, P, cls[1], 'address_map_'):
        c.unk(rid, label(f), f.where(), 'tables not identified')
        return

    def src(v, t):
        k = v.single() if isinstance(v, Lin) else None
        return k[1][2] if isinstance(k, tuple) and k[0] == 'ld' and k[1][0] == 'i' and k[1][1] == t and isinstance(k[1][2], Lin) else None
    n = 0
    for p in normals(ps):
        el = [e for e in p.events('write') if e.obj[0] == 'i' and e.obj[1] == cont and isinstance(e.obj[2], Lin)]
        mp = [e for e in p.events('write') if e.obj[0] == 'i' and e.obj[1] == am and isinstance(e.obj[2], Lin)]
        if any(e.obj is not None and e.obj == am and e.name not in ('erase', 'index', 'find', 'at', 'try_emplace') for e in p.events('cont')):
            c.unk(rid, label(f), f.where(), 'side table changed by a library operation')
            return
        for e in el:
            j = src(e.args[0], cont)
            if e.args[0] == ZERO:
                continue
            if j is not None:
                good = [m for m in mp if m.loops and src(m.args[0], am) is not None and (src(m.args[0], am) - m.obj[2]) == (j - e.obj[2])]
            else:
                good = [m for m in mp if entails(p.st.facts, eq(m.obj[2], e.obj[2])) and src(m.args[0], am) is None]
            if not good:
                c.bad(rid, label(f), f.where(), 'element table entry %s is changed but the side table used when the buffer grows is not; %s' % (show(e.obj[2]), path_show(p)))
                return
            n += 1
    c.ok(rid, label(f), f.where(), 'both tables updated together, %d writes' % n)


def table_of(I, P, cls, sz):
    """the container access(k) indexes with k"""
    st = St()
    st.add(lt(KK, sz))
    x = loc_of(I, P, cls, 'access', st, [KK])
    for _ in range(6):
        if x is None:
            break
        if x[0] == 'i' and x[2] == KK:
            return x[1]
        if x[0] in ('f', 'i'):
            x = x[1]
        elif x[0] == 'at':
            k = x[1].single()
            x = k[1] if isinstance(k, tuple) and k[0] == 'ld' else None
        else:
            x = None
    return None
