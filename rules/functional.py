"""A01 layout of architectural data; A02 registers and views; A03 saving and restoring."""
from itertools import product
from lib import *
from kernel import fld, par, counters
from dag import stm, names
from events import cfg, calls, refloc
from loops import norm
import re
from memory import iff, refv, one_copy, copies, same_copy, truth
from interp import bare, neg, addr, at
from terms import atom_key

RB, REG, FLD, DV, AD, SEG, BITS = ('sparta::' + x for x in ('RegisterBase', 'Register', 'RegisterBase::Field', 'DataView', 'ArchData', 'ArchDataSegment', 'RegisterBits'))
LINE = AD + '::Line'
SIZES = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 's8': 1, 's16': 2, 's32': 4, 's64': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}
BIN = {'operator&': '&', 'operator|': '|', 'operator^': '^', 'operator&=': '&', 'operator|=': '|', 'operator^=': '^'}
SHIFT = {'operator>>': '>>', 'operator<<': '<<', 'operator>>=': '>>', 'operator<<=': '<<'}


def untrunc(x):
    """the value without the narrowing a shift amount goes through"""
    if isinstance(x, Lin):
        k = x.single()
        if isinstance(k, tuple) and k[0] == 'trunc':
            return untrunc(k[-1])
    return x


class Bits:
    """follows the values of a bit vector class (operators opaque) along a path as expressions"""

    def __init__(self, P, cls=BITS):
        self.P, self.cls, self.snap = P, cls, {}
        fs = [x[0]['name'] for x in P.all_fields(cls)]
        self.fld = 'num_bytes_' if 'num_bytes_' in fs else fs[-1] if fs else None

    def ident(self, I, st, loc):
        v = I.load(st.copy(), ('f', loc, self.fld), 'u64')
        k = v.single() if isinstance(v, Lin) else None
        if isinstance(k, tuple) and k[0] == 'ld' and k[1][0] == 'f' and k[1][2] == self.fld:
            return (k[1][1], k[2])
        return (loc, show_any(v))

    def watch(self, I, st, e):
        if e.kind not in ('call', 'ctor', 'leave') or self.fld is None:
            return
        ids = {}
        for a in [('REF', e.obj)] + list(e.args):
            if isinstance(a, tuple) and a and a[0] in ('REF', 'R') and isinstance(a[1], tuple):
                ids[a[1]] = self.ident(I, st, a[1])
            elif isinstance(a, Lin):
                for l in self.locs(a):
                    ids[l] = self.ident(I, st, l)
        self.snap[id(e)] = (e, ids)

    def locs(self, x, d=0):
        """locations of objects whose data() a pointer comes from"""
        out = []
        if isinstance(x, Lin):
            for a in x.atoms():
                if isinstance(a, tuple) and a[0] == 'call' and a[1].rsplit('::', 1)[-1] in ('data', 'operator[]') and isinstance(a[2], tuple):
                    out.append(a[2])
        return out

    def walk(self, I, p, fills=(), events=None):
        """[(event, look)] : look(loc) is the expression held by loc when the event happens; fills: names of calls that
        fill the vector whose data() is their first argument"""
        env, pend, out = {}, {}, []

        def get(i):
            if i not in env:
                src, ver = i
                if src[0] == 'at':
                    k = src[1].single()
                    if k in env:
                        return env[k]
                env[i] = pend.get(src, ('leaf', src))
            return env[i]
        for e in (p.events() if events is None else events):
            s = self.snap.get(id(e))
            if s is None or s[0] is not e:
                continue
            ids = s[1]

            def look(a, ids=ids):
                if isinstance(a, tuple) and a and a[0] in ('REF', 'R') and a[1] in ids:
                    return get(ids[a[1]])
                return None
            sh = e.name.rsplit('::', 1)[-1]
            mine = e.name.startswith(self.cls + '::') or e.name == self.cls
            if e.kind == 'ctor' and e.obj in ids:
                env.pop(ids[e.obj], None)
            o = look(('REF', e.obj)) if e.obj is not None else None
            obj = {a: look(('REF', a)) for a in ids}
            out.append((e, obj))
            if e.kind == 'ctor' and e.name == self.cls:
                a = e.args
                if len(a) == 1 and isinstance(a[0], Lin):
                    x = ('zero',)
                elif len(a) == 1:
                    x = look(a[0]) or ('?',)
                elif len(a) == 2 and isinstance(a[0], Lin) and isinstance(a[1], Lin):
                    x = ('bytes', canonv(a[0]), canonv(a[1]))
                elif len(a) == 2 and isinstance(a[1], tuple) and a[1][0] == 'REF':
                    x = ('num', canonv(a[1][2]) if len(a[1]) > 2 else '?')
                else:
                    x = ('?',)
                pend[e.obj] = x
                env[ids[e.obj]] = x
                continue
            if e.kind == 'call' and mine:
                x = None
                if sh in BIN and e.args:
                    x = (BIN[sh], o, look(e.args[0]) or ('?',))
                elif sh in SHIFT and e.args:
                    x = (SHIFT[sh], o, canonv(untrunc(e.args[0])))
                elif sh == 'operator~':
                    x = ('~', o)
                elif sh == 'fill' and e.args:
                    x = ('fill', canonv(e.args[0]))
                elif sh == 'set' and e.args:
                    x = ('set', o, canonv(e.args[0][2]) if isinstance(e.args[0], tuple) and len(e.args[0]) > 2 else '?')
                elif sh in ('data', 'none', 'any', 'dataAs', 'getSize', 'operator[]', 'operator=='):
                    if sh == 'data' and not e.x.const:
                        pend[e.obj] = o
                    if e.key is not None:
                        env[('of', e.key)] = o
                    continue
                else:
                    x = ('?',)
                if e.x.ret == 'void' or sh.endswith('=') and sh[8:] in ('&=', '|=', '^=', '>>=', '<<='):
                    pend[e.obj] = x
                    if e.x.const:
                        env[ids[e.obj]] = x
                elif e.key is not None:
                    env[e.key] = x
                continue
            if e.kind == 'call' and sh in fills and e.args:
                for l in self.locs(e.args[0]):
                    x = ('reg', sh, e.obj) + tuple(canonv(v) for v in e.args[1:])
                    pend[l] = x
                    env[ids[l]] = x
        self.env, self.get = env, get
        return out


def canonv(x):
    return show_any(x)


def push(x):
    """shifts pushed down through & | ^"""
    if x is None:
        return ('?',)
    if x[0] in ('>>', '<<'):
        y = push(x[1])
        if y[0] in ('&', '|', '^'):
            return (y[0],) + tuple(push((x[0], z, x[2])) for z in y[1:])
        if x[2] == '0':
            return y
        return (x[0], y, x[2])
    if x[0] in ('&', '|', '^'):
        return (x[0], push(x[1]), push(x[2]))
    if x[0] == '~':
        return ('~', push(x[1]))
    return x


def leaves(x, out):
    if x[0] in ('&', '|', '^'):
        leaves(x[1], out)
        leaves(x[2], out)
    elif x[0] == '~':
        leaves(x[1], out)
    elif x[0] != 'zero' and x not in out:
        out.append(x)
    return out


def beval(x, a):
    o = x[0]
    if o == '&':
        return beval(x[1], a) and beval(x[2], a)
    if o == '|':
        return beval(x[1], a) or beval(x[2], a)
    if o == '^':
        return beval(x[1], a) != beval(x[2], a)
    if o == '~':
        return not beval(x[1], a)
    if o == 'zero':
        return False
    return a[x]


def has(x, what):
    return isinstance(x, tuple) and (x[0] == what if x else False) or isinstance(x, tuple) and any(has(y, what) for y in x)


def bits_eq(x, want):
    """'ok' / 'bad' / 'unknown': both expressions give the same bits"""
    if x is None or has(x, '?'):
        return 'unknown'
    x, want = push(x), push(want)
    ls = leaves(want, leaves(x, []))
    if len(ls) > 10:
        return 'unknown'
    for v in product((False, True), repeat=len(ls)):
        a = dict(zip(ls, v))
        if beval(x, a) != beval(want, a):
            return 'bad'
    return 'ok'


def bshow(x):
    if not isinstance(x, tuple):
        return str(x)
    if x[0] == 'leaf':
        return show_loc(x[1])
    if x[0] in ('&', '|', '^', '>>', '<<'):
        return '(%s %s %s)' % (bshow(x[1]), x[0], bshow(x[2]))
    if x[0] == '~':
        return '~' + bshow(x[1])
    if x[0] == 'reg':
        return 'register(%s)' % ', '.join(y for y in x[3:])
    return '%s(%s)' % (x[0], ', '.join(map(str, x[1:])))


# ---------------------------------------------------------------- A02
BOP = [BITS + '*', 'read_', 'write_', 'peek_', 'poke_']
ACC = {'read': 'read_', 'peek': 'peek_', 'write': 'write_', 'writeUnmasked': 'write_', 'poke': 'poke_', 'pokeUnmasked': 'poke_'}


def A02(c):
    P = c.program('inst/mem.cpp')
    r1 = c.rule('bounds', 'a register access happens exactly when it lies inside the register, once, with the offset, size and (unless masked) the buffer given', 6)
    r2 = c.rule('masked', 'a masked write or poke stores the given bits where the write mask allows and the present bits elsewhere', 2)
    r3 = c.rule('typed', 'a typed access is of the size of the type, at the index times that size', 6)
    r4 = c.rule('observed', 'observers of a register are told once after each read or write of it, with the value before a write kept', 2)
    r5 = c.rule('place', 'a register\'s bytes are those at its place in its line', 4)
    r6 = c.rule('fields', 'a field reads its own bits, and writing it keeps every other bit; a value too large is refused', 4)
    r7 = c.rule('mask', 'the write mask lacks exactly the bits of the read-only fields; a field\'s mask has its bits only', 2)
    r8 = c.rule('view', 'a view accesses its own bytes, at the index times the size of the type, only inside; it is placed where the layout put it', 6)
    r9 = c.rule('callback', 'with a callback, the access is the callback\'s only', 2)
    h = hint(c, P, RB, 'mask_', 'def_')
    bounds(c, P, r1)
    masked(c, P, r2)
    typed(c, P, r3)
    regs(c, P, r4, r5)
    fields(c, P, r6)
    wmask(c, P, r7)
    views(c, P, r8)
    callbacks(c, P, r9)


def raw(P, cls, nm):
    """the overload on a buffer"""
    return [f for f in fns(P, cls + '::' + nm) if len(f.params) == 3 and 'void' in f.params[0][2]]


def bounds(c, P, rid):
    size = fn1(P, RB + '::getNumBytes')
    for nm, v in ACC.items():
        for f in raw(P, RB, nm):
            def conj(I, f):
                n = observe1(I, size, St())
                a, s = par(I, St(), f, 2), par(I, St(), f, 1)
                return [le(a + s, n)]
            iff(c, P, rid, f, conj, 'inside', (), 'check', opaque=BOP)
            I, ps = run(c, P, f, rid, cfg(f, opaque=BOP, wrap=True))
            if ps is None:
                continue
            b, s, o = (par(I, St(), f, i) for i in range(3))
            bad = unk = None
            for p in ps:
                vs = calls(p, v)
                if p.outcome == 'throw':
                    if any(calls(p, 'read_', 'write_', 'poke_')):
                        bad = 'a refused access was made; ' + path_show(p)[:200]
                    continue
                if p.outcome != 'ret':
                    continue
                if len(vs) != 1 or len(calls(p, 'read_', 'write_', 'poke_')) > 1:
                    if I.loopinfo:
                        unk = 'accessed in pieces'
                    else:
                        bad = '%d accesses' % len(vs) + path_show(p)[:200]
                    continue
                a = vs[0].args
                if vs[0].obj != THIS or not (entails(p.st.facts, eq(a[1], s)) and entails(p.st.facts, eq(a[2], o))):
                    bad = 'the access is %s' % ev_show(vs[0])
                if nm not in ('write', 'poke') and not entails(p.st.facts, eq(a[0], b)):
                    bad = 'the access is %s' % ev_show(vs[0])
            stm(c, rid, f, bad, len(ps), unk, ' access')


def masked(c, P, rid):
    for nm in ('write', 'poke'):
        for f in raw(P, RB, nm):
            B = Bits(P)
            I, ps = run(c, P, f, rid, cfg(f, opaque=BOP, watch=B.watch))
            if ps is None:
                continue
            bad = unk = None
            buf, s, o = (par(I, St(), f, i) for i in range(3))
            m = ('leaf', F('mask_'))
            m = ('>>', m, canonv(o.scale(8)))
            old, val = ('reg', 'peek_', THIS, canonv(s), canonv(o)), ('bytes', canonv(buf), canonv(s))
            want = ('|', ('&', old, ('~', m)), ('&', val, m))
            n = 0
            for p in normals(ps):
                for e, obj in B.walk(I, p, ('peek_',)):
                    if e.kind == 'call' and e.name.rsplit('::', 1)[-1] == ACC[nm]:
                        n += 1
                        ls = B.locs(e.args[0])
                        k = e.args[0].single() if isinstance(e.args[0], Lin) else None
                        x = B.env.get(('of', k)) if k is not None else None
                        if x is None and e.args[0] == buf:
                            x = val
                        v = bits_eq(x, want)
                        if v == 'bad':
                            bad = 'stores %s instead of %s' % (bshow(push(x)), bshow(push(want)))
                        elif v == 'unknown':
                            unk = 'stored bits not understood: %s' % (bshow(x) if x else show_any(e.args[0]))
            stm(c, rid, f, bad, n, unk, '')


def tsize(t):
    return SIZES.get(bare(t.replace('c ', '')))


def typed(c, P, rid):
    for cls in (RB, REG):
        for nm in list(ACC) + ['dmiRead', 'dmiWrite']:
            for f in P.find(cls + '::' + nm):
                if len(f.params) not in (1, 2) or f.params and 'void' in f.params[0][2]:
                    continue
                get = nm in ('read', 'peek', 'dmiRead')
                n = tsize(f.ret) if get else tsize(f.params[0][2])
                if n is None:
                    continue
                I, ps = run(c, P, f, rid, cfg(f, opaque=BOP + ['dmiRead_', 'dmiWrite_', AD + '*']))
                if ps is None:
                    continue
                idx = par(I, St(), f, len(f.params) - 1)
                bad = unk = None
                k = 0
                for p in normals(ps):
                    v = [(e.args[1], e.args[2]) for e in calls(p, 'dmiRead_' if nm == 'dmiRead' else 'dmiWrite_' if nm == 'dmiWrite' else ACC[nm]) if len(e.args) == 3]
                    if not v:
                        for d, s, z in copies(p):
                            q = s if get else d
                            rp = [a for a in q.atoms()] if isinstance(q, Lin) else []
                            base = [a for a in rp if isinstance(a, tuple) and a[0] == 'ld' and a[1][-1] == 'raw_data_ptr_']
                            if base:
                                v.append((z, q - atom(base[0], 'u64')))
                    if len(v) != 1:
                        unk = '%d accesses; %s' % (len(v), path_show(p)[:200])
                        continue
                    k += 1
                    if not entails(p.st.facts, eq(v[0][0], const(n))):
                        bad = 'accesses %s bytes for a type of %d' % (show_any(v[0][0]), n)
                    if not entails(p.st.facts, eq(v[0][1], idx.scale(n))):
                        bad = 'accesses offset %s for index %s of %d bytes' % (show_any(v[0][1]), show_any(idx), n)
                stm(c, rid, f, bad, k, unk, '<%d>' % n)


NOPQ = [LINE + '*', AD + '*', 'sparta::NotificationSource*', SEG + '*']


def line_calls(p, nm):
    return [e for e in p.events('call') if e.name == LINE + '::' + nm]


def one_line(p, nm, view, args):
    """None, or what is wrong with the accesses of the view's line"""
    ln = at(init(fld(view, 'line_'), '*'))
    es = [e for e in line_calls(p, nm) if same_line(e.obj, ln)]
    if len(es) != 1:
        return None, '%d accesses of its bytes; %s' % (len(es), path_show(p)[:300])
    e = es[0]
    for g, w, t in zip(e.args, args, ('offset', 'size', 'buffer')):
        if not (isinstance(g, Lin) and entails(p.st.facts, eq(g, w))):
            return e, 'the %s is %s instead of %s' % (t, show_any(g), show_any(w))
    return e, None


def same_line(a, b):
    return show_loc(a) == show_loc(b) if a is not None else False


def maybe(p, nm):
    """False: the query named nm was answered with false on this path"""
    for e in calls(p, nm):
        if e.key is not None and entails(p.st.facts, eq(atom(e.key, 'bool'), ZERO)):
            return False
    return True


def regs(c, P, r4, r5):
    ok = hint(c, P, REG, 'dview_', 'prior_val_dview_', 'raw_data_ptr_')
    hint(c, P, DV, 'line_', 'offset_')
    dv, pv = F('dview_'), F('prior_val_dview_')
    off = init(fld(dv, 'offset_'))

    def go(f, nm, notif, rid):
        I, ps = run(c, P, f, rid, cfg(f, opaque=NOPQ))
        if ps is None:
            return
        b, s, o = (par(I, St(), f, i) for i in range(3))
        bad = unk = None
        for p in normals(ps):
            e, w = one_line(p, nm, dv, (off + o, s, b))
            bad = bad or w
            other = [x for x in line_calls(p, 'write') if x is not e] + ([x for x in line_calls(p, 'fillWithInitial')])
            es = p.events()
            posts = calls(p, 'postNotification')
            if notif is None:
                if posts:
                    bad = bad or 'tells observers'
                if other:
                    bad = bad or 'also %s' % ev_show(other[0])
                continue
            src = observe1_loc(P, notif)
            if maybe(p, 'observed'):
                if len(posts) != 1:
                    bad = bad or 'observers are told %d times; %s' % (len(posts), path_show(p)[:200])
                elif e is not None:
                    if es.index(posts[0]) < es.index(e):
                        bad = bad or 'observers are told before the access'
                    if src is not None and posts[0].obj != src:
                        bad = bad or 'the observers told are those of %s' % show_loc(posts[0].obj)
                if nm == 'write' and e is not None:
                    pl = at(init(fld(pv, 'line_'), '*'))
                    pw = [x for x in other if same_line(x.obj, pl)]
                    if len(pw) != 1:
                        bad = bad or 'the value before the write is kept %d times' % len(pw)
                    elif es.index(pw[0]) > es.index(e):
                        bad = bad or 'the value before is kept after the write'
                    elif not names_loc(pw[0].args[2], dv) or not entails(p.st.facts, eq(pw[0].args[0], init(fld(pv, 'offset_')))):
                        bad = bad or 'kept is %s' % ev_show(pw[0])
                    other = [x for x in other if x not in pw]
            if other and maybe(p, 'observed') and nm == 'write':
                bad = bad or 'also %s' % ev_show(other[0])
        stm(c, rid, f, bad, len(ps), unk, '')
    for nm, ln, src, rid in (('read_', 'read', 'getReadNotificationSource', r4), ('write_', 'write', 'getPostWriteNotificationSource', r4),
                             ('peek_', 'read', None, r5), ('poke_', 'write', None, r5)):
        go(fn1(P, REG + '::' + nm), ln, src, rid)
    for f in fns(P, REG + '::Register'):
        if len(f.params) < 3:
            continue
        I, ps = run(c, P, f, r4, cfg(f, opaque=['sparta::TreeNode*', RB, RB + '::RegisterBase', DV + '*'] + NOPQ))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            for l, w in ((fld(F('post_write_noti_data_'), 'prior'), pv), (fld(F('post_write_noti_data_'), 'final'), dv), (fld(F('post_read_noti_data_'), 'value'), dv)):
                v = I.load(p.st.copy(), l, '*')
                if isinstance(v, Lin) and isinstance(v.single(), tuple) and v.single()[0] == 'addr' and v.single()[1] != w and v.single()[1][0] == 'f':
                    bad = '%s is %s' % (show_loc(l), show_any(v))
            for e in p.events('ctor'):
                if e.obj in (dv, pv) and len(e.args) >= 3:
                    ws = ['bytes' if i == 2 else x for i, x in enumerate((None, 'id', None, 'subset_of', 'subset_offset', 'initial_value'))]
                    if e.obj == pv:
                        ws = ws[:1] + [None] + ws[2:3]
                    for g, w in zip(e.args, ws):
                        d = [x for x in f.params if 'Definition' in x[2]]
                        if w and d and has_field(P, RB + '::Definition', w) and show_any(g) != '%s.%s' % (show_any(('p', d[0][1])) if False else 'arg:' + d[0][1], w):
                            bad = 'the view %s is made with %s for %s' % (show_loc(e.obj), show_any(g), w)
        stm(c, r4, f, bad, len(ps), None, '')
    # direct access
    rp = init(F('raw_data_ptr_'), '*')
    for nm, ws in (('dmiRead_', 0), ('dmiWrite_', 1)):
        f = fn1(P, REG + '::' + nm)
        b, s, o = [None] * 3
        I0 = Interp(P, cfg(f))
        b, s, o = (par(I0, St(), f, i) for i in range(3))
        I, ps = one_copy(c, P, r5, f, lambda I: (rp + o, b, s) if ws else (b, rp + o, s), opaque=NOPQ)
        if ws and ps is not None:
            flagged(c, P, r5, f, ps)
    for f in fns(P, REG + '::writeUnmasked'):
        n = tsize(f.params[0][2]) if len(f.params) == 2 else None
        if n is None:
            continue
        size = fn1(P, RB + '::getNumBytes')
        iff(c, P, r5, f, lambda I, f: [le(par(I, St(), f, 1).scale(n) + n, observe1(I, size, St()))], 'inside', (), 'check', opaque=NOPQ)
        I, ps = run(c, P, f, r5, cfg(f, opaque=NOPQ))
        if ps is not None:
            flagged(c, P, r5, f, ps)
    f = fn1(P, REG + '::onBindTreeEarly_')
    I, ps = run(c, P, f, r5, cfg(f, opaque=['sparta::ArchData::isLaidOut', 'sparta::ArchData::getLine', SEG + '*', LINE + '::getRawDataPtr']))
    if ps is not None:
        bad = unk = None
        for p in normals(ps):
            es = line_calls(p, 'getRawDataPtr')
            v = I.load(p.st.copy(), F('raw_data_ptr_'), '*')
            if len(es) == 1 and es[0].key is not None and isinstance(v, Lin) and entails(p.st.facts, eq(v, atom(es[0].key, '*u8'))):
                if not same_line(es[0].obj, at(init(fld(dv, 'line_'), '*'))) or not entails(p.st.facts, eq(es[0].args[0], off)):
                    bad = 'the direct pointer is to %s' % ev_show(es[0])
            else:
                unk = 'raw pointer %s' % show_any(v)
        stm(c, r5, f, bad, len(ps), unk, '')


def flagged(c, P, rid, f, ps):
    bad = None
    for p in normals(ps):
        if not any(same_line(e.obj, at(init(fld(F('dview_'), 'line_'), '*'))) for e in line_calls(p, 'flagDirty')):
            bad = 'the line is not flagged as changed; ' + path_show(p)[:200]
    stm(c, rid, f, bad, len(ps), None, ' flags')


def names_loc(v, loc):
    return show_loc(loc) in show_any(v)


def observe1_loc(P, nm):
    f = fn1(P, RB + '::' + nm)
    I = Interp(P, cfg(f))
    I.cfg.thiscls = f.cls
    try:
        r = [x[2] for x in I.observe(f, St()) if x[0] == 'ret']
    except Unknown:
        return None
    return r[0][1] if len(r) == 1 and isinstance(r[0], tuple) and r[0][0] in ('REF', 'R') else None


def fields(c, P, rid):
    hint(c, P, FLD, 'field_mask_', 'not_field_mask_', 'reg_size_', 'reg_')
    fm, nm_ = ('leaf', F('field_mask_')), ('leaf', F('not_field_mask_'))
    OPQ = [BITS + '*'] + [RB + '::' + x for x in ACC]
    sz, low, nb = init(F('reg_size_'), 'u32'), fn1(P, FLD + '::getLowBit'), fn1(P, FLD + '::getNumBits')
    for nm in ('read', 'peek', 'write', 'poke', 'pokeUnmasked'):
        for f in fns(P, FLD + '::' + nm):
            B = Bits(P)
            I, ps = run(c, P, f, rid, cfg(f, opaque=OPQ, watch=B.watch))
            if ps is None:
                continue
            lo = observe1(I, low, St())
            lo = canonv(lo)
            bad = unk = None
            n = 0
            for p in ps:
                ev = B.walk(I, p, ('read', 'peek'))
                acc = [e for e in p.events('call') if e.name in [RB + '::' + x for x in ACC]]
                if p.outcome == 'throw':
                    if any(e.name.rsplit('::', 1)[-1] in ('write', 'poke', 'writeUnmasked', 'pokeUnmasked') for e in acc):
                        bad = 'refused after writing'
                    continue
                if p.outcome != 'ret':
                    continue
                n += 1
                want_src = 'read' if nm == 'read' else 'peek'
                src = [e for e in acc if e.name.endswith('::' + want_src)]
                reg = ('reg', want_src, F('reg_'), canonv(sz), '0')
                if nm in ('read', 'peek'):
                    if len(acc) != 1 or not src:
                        bad = 'the register is accessed by %s' % ', '.join(ev_show(e) for e in acc)
                        continue
                    k = p.ret.single() if isinstance(p.ret, Lin) else None
                    x = B.env.get(('of', k)) if k is not None else None
                    want = ('>>', ('&', reg, fm), lo)
                    x, want = norm_reg(x), norm_reg(want)
                    v = bits_eq(x, want)
                    if v == 'bad':
                        bad = 'reads %s instead of %s' % (bshow(push(x)), bshow(push(want)))
                    elif v == 'unknown':
                        unk = 'value not understood: %s' % show_any(p.ret)
                    continue
                wr = [e for e in acc if e.name == RB + '::' + nm]
                rest = [e for e in acc if e not in wr and not e.name.endswith('::peek')]
                if len(wr) != 1 or rest:
                    bad = 'the register is accessed by %s' % ', '.join(ev_show(e) for e in acc)
                    continue
                a = wr[0].args
                if not (len(a) == 3 and isinstance(a[2], Lin) and entails(p.st.facts, eq(a[2], ZERO))):
                    unk = 'access %s' % ev_show(wr[0])
                    continue
                k = a[0].single() if isinstance(a[0], Lin) else None
                x = norm_reg(B.env.get(('of', k)) if k is not None else None)
                v0 = canonv(par(I, St(), f, 0))
                new = ('<<', ('num', v0), lo)
                want = norm_reg(('|', ('&', reg, nm_), new))
                alt = norm_reg(('|', ('&', reg, nm_), ('&', new, fm)))
                vs = [bits_eq(x, y) for y in (want, alt)]
                if 'ok' not in vs:
                    if 'unknown' in vs:
                        unk = 'value not understood: %s' % (bshow(x) if x else show_any(a[0]))
                    else:
                        bad = 'writes %s instead of %s' % (bshow(push(x)), bshow(push(want)))
                # too large a value is refused: the path knows that nothing of it lies above the field
                val = par(I, St(), f, 0)
                w = observe1(I, nb, St())
                if not fits(p, val, w):
                    unk = unk or 'refusal of too large a value not understood; ' + path_show(p)[:200]
                    if not any(val.single() in x[1].atoms() or show_any(val) in show_fact(x) for x in p.st.facts) and not any(
                            e.kind == 'call' and e.name.rsplit('::', 1)[-1] in ('none', 'any', 'operator==') for e in p.events()):
                        bad = bad or 'takes any value; ' + path_show(p)[:200]
                for e, obj in ev:
                    if e.kind == 'call' and e.name.rsplit('::', 1)[-1] == 'none':
                        x = obj.get(e.obj)
                        if x is not None and bits_eq(norm_reg(x), ('&', new, nm_)) == 'ok':
                            bad = bad or 'a value is tested after it was shifted, which drops its bits above the register'
            stm(c, rid, f, bad, n, unk, '')


def fits(p, val, width):
    """the facts of the path say val < 2^width (or width >= 64)"""
    t = p.st.copy()
    for x in p.st.facts:
        s = show_fact(x)
        if '>>' in s and show_any(val) in s and show_any(width) in s:
            return True
    return entails(p.st.facts, le(const(64), width))


def norm_reg(x):
    """the register's location does not matter: a field has one register"""
    if not isinstance(x, tuple) or not x:
        return x
    if x[0] == 'reg':
        return ('reg', x[1], 'reg', untr(x[3]), x[4])
    return tuple(norm_reg(y) if isinstance(y, tuple) else y for y in x)


def untr(s):
    return s


def wmask(c, P, rid):
    """computeWriteMask_: one loop over the fields"""
    f = [x for x in P.methods(RB, 'RegisterBase') if any('mask_' in str(i) for i in [x.inits])]
    fs = P.find(RB + '::computeWriteMask_')
    if not fs:
        c.unk(rid, 'write mask', 'Register.hpp', 'the write mask is computed elsewhere')
    for f in fs:
        B = Bits(P)
        I, ps = run(c, P, f, rid, cfg(f, opaque=[BITS + '*'], watch=B.watch))
        if ps is None:
            continue
        norm(I)
        bad = unk = None
        n = 0
        d = at(par(I, St(), f, 0))
        by = init(fld(d, 'bytes'), 'u32')
        for p in normals(ps):
            if not any(e.name.endswith('operator>>') for e in p.events('call')):
                # nothing or not a shift: either no read-only field, or another way
                continue
            for e, obj in B.walk(I, p):
                if e.kind == 'call' and e.name.rsplit('::', 1)[-1] in ('operator|=', 'operator|') and e.args:
                    x = obj.get(e.args[0][1]) if isinstance(e.args[0], tuple) else None
                    n += 1
                    if x is None or x[0] != '<<' or x[1][0] != '>>' or x[1][1] != ('fill', '255'):
                        unk = 'mask of a field not understood: %s' % (bshow(x) if x else ev_show(e))
                        continue
                    sh = [y for q, _ in [(None, None)] for y in ()]
                    amt_up, amt_dn = x[2], x[1][2]
                    m = re.search(r'(\*\(.*?\)\.fields\[.*?\])\.low_bit', amt_up)
                    el = m.group(1) if m else None
                    if el is None or amt_up != el + '.low_bit':
                        bad = 'the mask of a field is moved up by %s' % amt_up
                        continue
                    want = show_any(by.scale(8))
                    got = set(re.findall(r'[+-]?[^+-]+', amt_dn))
                    exp = {want, '-' + el + '.high_bit', '+' + el + '.low_bit', '-1'}
                    if not same_terms(amt_dn, [(8, show_any(by)), (-1, el + '.high_bit'), (1, el + '.low_bit')], -1):
                        bad = 'the mask of a field is all ones moved down by %s' % amt_dn
        # the answer is the complement of what was collected
        for p in normals(ps):
            last = [e for e in p.events('call') if e.name.startswith(BITS)]
            if not last or not last[-1].name.endswith('operator~'):
                if last and last[-1].name.rsplit('::', 1)[-1] in ('fill', 'operator|=', 'operator|'):
                    bad = 'the answer is not the complement of the read-only bits'
        # every read-only field takes part, no other does
        for info in I.loopinfo:
            el = info['elem']
            if el is None or info['cont'] is None or not show_loc(info['cont']).endswith('.fields'):
                unk = unk or 'loop not understood'
                continue
            if info['rets'] or info['breaks']:
                bad = 'some fields are skipped'
            ro = I.load(info['head'].copy(), fld(el, 'read_only'), 'bool')
            for s in info['ends']:
                acc = [e for e in evs_since(s, info['head']) if e.kind == 'call' and e.name.rsplit('::', 1)[-1] in ('operator|=', 'operator|')]
                t1, t0 = s.copy(), s.copy()
                yes, no = t1.add(ne(ro, ZERO)), t0.add(eq(ro, ZERO))
                if acc and no:
                    bad = 'a field that is not read-only is masked'
                if not acc and yes:
                    if entails(s.facts, ne(ro, ZERO)) or not any('read_only' in show_fact(x) for x in s.facts):
                        bad = 'a read-only field is not masked'
                    else:
                        unk = unk or 'skipped field not understood'
        stm(c, rid, f, bad, max(n, len(I.loopinfo)), unk, '')
    # a field's own mask
    for f in P.find(FLD + '::computeFieldMask_'):
        B = Bits(P)
        I, ps = run(c, P, f, rid, cfg(f, opaque=[BITS + '*'], watch=B.watch))
        if ps is None:
            continue
        bad = unk = None
        n = 0
        hi, lo = par(I, St(), f, 0), par(I, St(), f, 1)
        for p in normals(ps):
            sh = [e for e in p.events('call') if e.name.rsplit('::', 1)[-1] in ('operator<<=', 'operator<<')]
            st = [e for e in p.events('call') if e.name == BITS + '::set']
            if len(sh) != 1 or len(st) != 1:
                unk = 'another way of making a mask'
                continue
            n += 1
            if not entails(p.st.facts, eq(untrunc(sh[0].args[0]), lo)):
                bad = 'the ones of the mask are moved up by %s' % show_any(sh[0].args[0])
            v = canonv(refv(I, p, st[0].args[0]))
            m = re.search(r'18446744073709551615\s*>>\s*(.*)', v)
            if not m:
                unk = 'mask bits %s' % v
        stm(c, rid, f, bad, n, unk, '')


def same_terms(s, terms, k):
    """the printed sum s consists of the given coefficient-term pairs and the constant k"""
    r = s
    for co, t in sorted(terms, key=lambda x: -len(x[1])):
        w = ('' if abs(co) == 1 else '%d*' % abs(co)) + t
        for pre in (('-',) if co < 0 else ('+', '')):
            i = r.find(pre + w)
            if i >= 0 and (pre or i == 0 or r[i - 1] not in '-*'):
                r = r[:i] + r[i + len(pre + w):]
                break
        else:
            return False
    return r.strip() in (('%+d' % k), '%d' % k) or (k == 0 and r == '')


def evs_since(s, head):
    out, e, h = [], s.ev, head.ev
    while e is not None and e is not h:
        out.append(e[1])
        e = e[0]
    return out[::-1]


ADQ = [AD + '::*', LINE + '*']


def views(c, P, rid):
    hint(c, P, DV, 'line_', 'offset_', 'initial_buf_le_', 'adata_')
    size = fn1(P, DV + '::getSize')
    ln, off = init(F('line_'), '*'), init(F('offset_'))
    for nm in ('read', 'write'):
        for f in fns(P, DV + '::' + nm):
            n = tsize(f.ret) if nm == 'read' else tsize(f.params[0][2])
            if n is None:
                continue
            k = len(f.params) - 1

            def conj(I, f, n=n, k=k):
                return [le(par(I, St(), f, k).scale(n) + n, observe1(I, size, St())), ne(init(F('line_'), '*'), ZERO)]
            iff(c, P, rid, f, conj, 'inside', (), 'check', opaque=ADQ)
            I, ps = run(c, P, f, rid, cfg(f, opaque=ADQ))
            if ps is None:
                continue
            bad = unk = None
            m = 0
            for p in normals(ps):
                es = line_calls(p, nm)
                if len(es) != 1:
                    bad = '%d accesses; %s' % (len(es), path_show(p)[:200])
                    continue
                m += 1
                a = es[0].args
                want = (off, par(I, St(), f, k)) if nm == 'read' else (off, None, par(I, St(), f, k))
                if len(a) == 3 and nm == 'read' or len(a) == 3 and 'void' in str(a[2]):
                    unk = 'access %s' % ev_show(es[0])
                    continue
                for g, w in zip(a, want):
                    if w is not None and not (isinstance(g, Lin) and entails(p.st.facts, eq(untrunc(g), w))):
                        bad = 'the access is %s' % ev_show(es[0])
                if nm == 'write' and len(a) == 3 and not same_val(p, refv(I, p, a[1]), par(I, St(), f, 0)):
                    bad = 'the value written is %s' % show_any(a[1])
                if nm == 'read' and es[0].key is not None and not (isinstance(p.ret, Lin) and p.ret.single() == es[0].key):
                    unk = 'answers %s' % show_any(p.ret)
                if nm == 'read' and tsize(es[0].x.ret) != n or nm == 'write' and tsize(es[0].x.sig.split(',')[1].replace('&', '').replace('c ', '')) != n:
                    bad = 'accesses another number of bytes than its type has: %s' % (es[0].x.ret + '(' + es[0].x.sig + ')')
            stm(c, rid, f, bad, m, unk, '<%d>' % n)
    # assignment
    for f in fns(P, DV + '::operator='):
        rl = init(refloc(f, 0, 'line_'), '*')
        ro = init(refloc(f, 0, 'offset_'))
        ss, rs = init(F('size_')), init(refloc(f, 0, 'size_'))
        if has_field(P, SEG, 'size_'):
            iff(c, P, rid, f, lambda I, f: [eq(ss, rs), ne(ln, ZERO), ne(rl, ZERO)], 'copy', (), 'check', opaque=ADQ)
        I, ps = run(c, P, f, rid, cfg(f, opaque=ADQ))
        if ps is None:
            continue
        bad = unk = None
        for p in ps:
            es = line_calls(p, 'write')
            if p.outcome == 'throw' and es:
                bad = 'refused after writing'
            if p.outcome != 'ret':
                continue
            if len(es) != 1:
                bad = '%d writes' % len(es)
                continue
            a = es[0].args
            src = [e for e in line_calls(p, 'getDataPointer') + line_calls(p, 'getRawDataPtr') if e.key is not None and isinstance(a[-1], Lin) and a[-1] == atom(e.key, e.x.ret)]
            if len(a) != 3 or not src:
                unk = 'copy by %s' % ev_show(es[0])
                continue
            if not same_line(es[0].obj, at(ln)) or not entails(p.st.facts, eq(a[0], off)) or not entails(p.st.facts, eq(a[1], observe1(I, size, St()))):
                bad = 'copies by %s' % ev_show(es[0])
            if not same_line(src[0].obj, at(rl)) or not entails(p.st.facts, eq(src[0].args[0], ro)):
                bad = 'copies from %s' % ev_show(src[0])
        stm(c, rid, f, bad, len(ps), unk, '')
    # placement
    f = fn1(P, DV + '::place_')
    I, ps = run(c, P, f, rid, cfg(f, opaque=ADQ))
    if ps is not None:
        bad = unk = None
        o = par(I, St(), f, 0)
        for p in normals(ps):
            ck, gl = calls(p, AD + '::checkSegment'), calls(p, AD + '::getLine')
            go = line_calls(p, 'getOffset')
            if len(ck) != 1:
                unk = 'the place is not checked by checkSegment' if any(e.name.startswith(AD + '::check') for e in p.events('call')) else None
                bad = bad or (None if unk else 'the place is not checked')
            elif not entails(p.st.facts, eq(ck[0].args[0], o)) or not entails(p.st.facts, eq(ck[0].args[1], observe1(I, size, St()))):
                bad = 'checked is %s' % ev_show(ck[0])
            if len(gl) != 1 or not entails(p.st.facts, eq(gl[0].args[0], o)):
                bad = 'the line is that of %s' % (ev_show(gl[0]) if gl else 'nothing')
                continue
            l1 = I.load(p.st.copy(), F('line_'), '*')
            if 'getLine' not in show_any(l1):
                bad = 'the line kept is %s' % show_any(l1)
            o1 = I.load(p.st.copy(), F('offset_'))
            if len(go) == 1 and go[0].key is not None:
                if not entails(p.st.facts, eq(o1, o - atom(go[0].key, go[0].x.ret))):
                    bad = 'the offset in the line is %s' % show_any(o1)
            else:
                if entails(p.st.facts, eq(o1, o)):
                    bad = 'the offset in the line is that in the whole'
                unk = unk or 'offset %s' % show_any(o1)
        stm(c, rid, f, bad, len(ps), unk, '')
    # placed once; the initial value is written after
    f = fn1(P, SEG + '::place')
    I, ps = run(c, P, f, rid, cfg(f, opaque=['place_']))
    if ps is not None:
        bad = None
        o = par(I, St(), f, 0)
        pl = fn1(P, SEG + '::isPlaced')
        go = fn1(P, SEG + '::getOffset')
        was = observe1(I, pl, St())
        for p in ps:
            e = calls(p, 'place_')
            if p.outcome == 'throw':
                if any(is_effect(x) for x in p.events() if x.kind != 'throw') and not e:
                    bad = 'refused after a change'
                continue
            if p.outcome != 'ret':
                continue
            if was is not None and p.st.copy().add(ne(was, ZERO)):
                bad = 'placed a second time'
            if len(e) != 1 or not entails(p.st.facts, eq(e[0].args[0], o)):
                bad = 'place_ is told %s' % (ev_show(e[0]) if e else 'nothing')
            a, b = observe1(I, pl, p.st.copy()), observe1(I, go, p.st.copy())
            # place_ is opaque: what was set before it
            ws = {x.obj: x.args[0] for x in p.events('write')}
            for l, w in ((F('offset_'), o), (F('is_placed_'), ONE)):
                if has_field(P, SEG, l[2]) and not (l in ws and isinstance(ws[l], Lin) and entails(p.st.facts, eq(ws[l], w))):
                    bad = '%s is %s' % (l[2], show_any(ws.get(l)))
        stm(c, rid, f, bad, len(ps), None, '')
    f = fn1(P, DV + '::writeInitial_')
    I, ps = run(c, P, f, rid, cfg(f, opaque=ADQ))
    if ps is not None:
        norm(I)
        bad = unk = None
        ib = init(F('initial_buf_le_'), '*c u8')
        N = observe1(I, size, St())
        for p in normals(ps):
            if entails(p.st.facts, eq(ib, ZERO)) or entails(p.st.facts, le(N, ZERO)):
                if line_calls(p, 'write'):
                    bad = 'writes without an initial value'
                continue
            if not line_calls(p, 'write'):
                bad = 'the initial value is not written; ' + path_show(p)[:200]
        for info in I.loopinfo:
            cs = [(k, v0, hv) for k, v0, hv, d in counters(I, info) if d == 1 and v0 == ZERO]
            if len(cs) != 1:
                unk = 'loop not understood'
                continue
            i = cs[0][2]
            for s in info['exits']:
                if not entails(s.facts, le(N, i)):
                    bad = 'stops before the last byte: %s' % '; '.join(show_fact(x) for x in s.facts)
            for s in info['ends']:
                w = [e for e in evs_since(s, info['head']) if e.kind == 'call' and e.name == LINE + '::write']
                if len(w) != 1 or len(w[0].args) != 3:
                    unk = unk or '%d writes in the loop' % len(w)
                    continue
                a = w[0].args
                if not entails(s.facts, eq(untrunc(a[2]), i)) or not entails(s.facts, eq(a[0], off)):
                    bad = 'a byte goes to %s' % ev_show(w[0])
                v = a[1][2] if isinstance(a[1], tuple) and len(a[1]) > 2 else None
                k = v.single() if isinstance(v, Lin) else None
                if not (isinstance(k, tuple) and k[0] == 'ld' and k[1][0] == 'i'):
                    unk = unk or 'byte %s' % show_any(a[1])
                elif not entails(s.facts, eq(untrunc(k[1][2]), i)) or show_loc(k[1][1]) != show_loc(at(ib)):
                    bad = 'byte %s of the initial value goes to byte %s' % (show_any(v), show_any(i))
        stm(c, rid, f, bad, len(ps), unk, '')


def same_val(p, a, b):
    return isinstance(a, Lin) and isinstance(b, Lin) and entails(p.st.facts, eq(a, b))


def callbacks(c, P, rid):
    for nm, q in (('readWithCheck', 'hasReadCB'), ('writeWithCheck', 'hasWriteCB')):
        has_ = fn1(P, RB + '::' + q)
        for f in P.find(RB + '::' + nm):
            I, ps = run(c, P, f, rid, cfg(f, opaque=BOP))
            if ps is None:
                continue
            bad = unk = None
            n = 0
            for p in normals(ps):
                acc = calls(p, 'read_', 'write_')
                ic = p.events('icall')
                n += 1
                if ic and acc:
                    bad = 'both the callback and the register are accessed; ' + path_show(p)[:200]
                elif len(ic) > 1 or len(acc) > 1:
                    bad = 'accessed twice; ' + path_show(p)[:200]
                elif not ic and not acc:
                    bad = 'not accessed; ' + path_show(p)[:200]
                elif ic:
                    a = ic[0].args
                    if not (isinstance(a[0], Lin) and entails(p.st.facts, eq(a[0], addr(THIS)))):
                        bad = 'the callback gets %s' % show_any(a[0])
                    if nm == 'writeWithCheck' and (len(a) < 2 or not same_val(p, refv(I, p, a[1]), par(I, St(), f, 0))):
                        bad = 'the callback gets %s' % ev_show(ic[0])
                else:
                    s0 = I.observe(has_, St())
                    for o, s, v in s0:
                        t = p.st.copy()
                        if isinstance(v, Lin) and all(t.add(x) for x in s.facts) and t.add(ne(v, ZERO)):
                            if all(stable(x[1]) for x in t.facts):
                                bad = 'the callback is not called; ' + path_show(p)[:200]
                            else:
                                unk = 'callback test not understood'
            stm(c, rid, f, bad, n, unk, '')


# ---------------------------------------------------------------------- A01

LAYQ = ['sparta::TieredMap*', SEG + '::place', SEG + '::writeInitial', SEG + '::place_', SEG + '::writeInitial_']
NOSEG = const(0xffffffff)


def A01(c):
    P = c.program('inst/mem.cpp')
    r1 = c.rule('place', 'each segment not yet placed is placed once: at or above the end of everything placed, within one line, moving the end to its end; or, a subset, '
                'at its offset within the segment it names, which is placed before and contains it', 2)
    r2 = c.rule('layout', 'a second layout is refused without effect; otherwise every segment is placed, then every segment writes its initial value', 2)
    r3 = c.rule('register', 'a segment is added exactly when nothing is laid out, its size fits a line, and neither it nor another with its identifier has been added', 1)
    r4 = c.rule('reset', 'resetting cleans the data, then lets every segment write its initial value', 1)
    hint(c, P, AD, 'size_', 'line_mask_', 'line_size_', 'seg_list_', 'is_laid_out_')
    hint(c, P, SEG, 'subset_of_', 'subset_offset_', 'size_', 'is_placed_', 'offset_')
    placing(c, P, r1, r2)
    registering(c, P, r3)
    resetting(c, P, r4)


def seg_of(e):
    return e.obj


def sfield(s, seg, nm, ty='u64'):
    return ('f', seg, nm)


def and_atoms(x, I):
    """[(atom, operand)] of the masked values in x"""
    out = []
    for a in x.atoms():
        if isinstance(a, tuple) and a[0] == 'op' and a[1] == '&':
            for u, v in ((a[2], a[3]), (a[3], a[2])):
                k = u.single() if isinstance(u, Lin) else None
                if isinstance(k, tuple) and k[0] == 'ld' and k[1] == F('line_mask_') and isinstance(v, Lin):
                    out.append((a, v))
    return out


def line_axioms(I, st, fs):
    """x - (x & mask) < line size, and line starts differ by whole lines"""
    ls = I.load(st.copy(), F('line_size_'))
    ms = {}
    for f in fs:
        for a, v in and_atoms(f[1], I):
            ms[a] = v
    ax = []
    for a, v in ms.items():
        ax.append(lt(v - atom(a, 'u64'), ls))
        ax.append(le(atom(a, 'u64'), v))
    return ax, ms


def iter_places(s, head):
    return [e for e in evs_since(s, head) if e.kind == 'call' and e.name == SEG + '::place']


def placing(c, P, r1, r2):
    f = fn1(P, AD + '::layout')
    lo = fn1(P, AD + '::isLaidOut')
    size = fn1(P, DV + '::getSize')
    del size
    # roots
    I, ps = run(c, P, f, r1, cfg(f, opaque=LAYQ))
    if ps is None:
        return
    norm(I)
    if not has_field(P, AD, 'size_') or not has_field(P, SEG, 'subset_of_'):
        c.unk(r1, label(f), f.where(), 'members not recognised')
        return
    bad = unk = None
    n = 0
    Ls = [i for i in I.loopinfo if i['ends'] and any(iter_places(s, i['head']) for s in i['ends'])]
    if not Ls:
        bad = 'no segment is placed' if not any('place' in e.name for p in ps for e in p.events('call')) else None
        unk = unk or 'placing not understood'
    for info in Ls:
        if info['elem'] is None or info['breaks'] or info['rets']:
            if info['breaks'] or info['rets']:
                bad = 'stops before the last segment'
            unk = unk or 'loop not understood'
            continue
        if info['cont'] != F('seg_list_'):
            unk = 'walks %s' % show_loc(info['cont'])
            continue
        h = info['head']
        seg = at(I.load(h.copy(), info['elem'], '*'))
        e0 = I.load(h.copy(), F('size_'))
        for s in info['ends']:
            pl = iter_places(s, h)
            n += 1
            was = I.load(h.copy(), ('f', seg, 'is_placed_'))
            if not pl:
                if not entails(s.facts, ne(was, ZERO)):
                    bad = 'a segment is left out; ' + '; '.join(show_fact(x) for x in s.facts)[:300]
                continue
            if len(pl) > 1:
                unk = 'places several segments in a step'
                continue
            e = pl[0]
            if e.obj != seg:
                bad = 'places %s' % show_loc(e.obj)
                continue
            w = e.args[0]
            so = I.load(h.copy(), ('f', seg, 'subset_of_'))
            sz = I.load(h.copy(), ('f', seg, 'size_'))
            if entails(s.facts, eq(so, NOSEG)):
                e1 = I.load(s.copy(), F('size_'))
                ax, ms = line_axioms(I, s, list(s.facts) + [eq(w, ZERO), eq(e1, ZERO)])
                fs = frozenset(s.facts) | frozenset(ax)
                if not entails(fs, le(e0, w)):
                    if any(a in ms for a in w.atoms()) or all(ok_atom(a) for a in (w - e0).atoms()):
                        g = [x for x in s.facts if x[0] == 'ne' or any(m in ms for m in x[1].atoms())]
                        # a start of the next line lies above when the line differs
                        if not next_line(I, s, w, e0, fs, ms):
                            bad = 'placed at %s when %s is the end of what is placed; %s' % (show_any(w), show_any(e0), '; '.join(show_fact(x) for x in g)[:200])
                    else:
                        unk = 'placed at %s' % show_any(w)
                if not entails(fs, eq(e1, w + sz)):
                    if entails(fs, lt(e1, w + sz)) or all(ok_atom(a) or a in ms for a in (e1 - w).atoms()):
                        bad = 'the end becomes %s after placing %s bytes at %s' % (show_any(e1), show_any(sz), show_any(w))
                    else:
                        unk = 'the end becomes %s' % show_any(e1)
                # one line
                rest = [a for a in w.atoms() if a in ms]
                ls = I.load(s.copy(), F('line_size_'))
                aligned = any(w == atom(a, 'u64') or w == atom(a, 'u64') + ls for a in rest)
                if not aligned:
                    es = [(ms[a], ms[b]) for x in s.facts if x[0] == 'eq' for a in x[1].atoms() if a in ms for b in x[1].atoms() if b in ms and a != b and x[1] in (atom(a, 'u64') - atom(b, 'u64'), atom(b, 'u64') - atom(a, 'u64'))]
                    es = [v if entails(fs, eq(u, w)) else u for u, v in es if entails(fs, eq(u, w)) or entails(fs, eq(v, w))]
                    if not any(entails(fs, le(w + sz - 1, v)) for v in es):
                        if es or not any('line_' in show_fact(x) for x in s.facts):
                            bad = 'may span lines: placed at %s; last byte compared %s' % (show_any(w), [show_any(v) for v in es])
                        else:
                            unk = 'the line of %s' % show_any(w)
            elif entails(s.facts, ne(so, NOSEG)):
                so_ = [x for x in w.atoms() if is_fld(x, seg, 'subset_offset_')]
                k = (w - atom(so_[0], 'u64')).single() if so_ else None
                if not is_fld(k, None, 'offset_') or k[1][1] == seg:
                    if all(ok_atom(x) for x in w.atoms()):
                        bad = 'a subset is placed at %s' % show_any(w)
                    else:
                        unk = 'a subset is placed at %s' % show_any(w)
                    continue
                par_ = k[1][1]
                ev = [x for x in evs_since(s, h) if x.kind == 'call' and x.name.startswith(AD + '::') and any(isinstance(a, Lin) and at(a) == par_ for a in x.args)]
                pp = I.load(s.copy(), ('f', par_, 'is_placed_'))
                if not ev and not entails(s.facts, ne(pp, ZERO)):
                    bad = 'the segment containing it may not have been placed yet'
                if entails(s.facts, eq(pp, ZERO)):
                    bad = 'the segment containing it is not placed'
                t = show_any(par_[1]) if par_[0] == 'at' else ''
                pid = I.load(s.copy(), ('f', par_, 'ident_'))
                if not entails(s.facts, eq(pid, so)) and 'subset_of_' not in t:
                    bad = 'the segment containing it is found by %s' % t
            else:
                unk = 'whether it is a subset is not known; ' + '; '.join(show_fact(x) for x in s.facts)[:300]
    stm(c, r1, f, bad, n, unk, '')
    # subsets lie within their segments, whatever the offset
    J, qs = run(c, P, f, r1, cfg(f, opaque=LAYQ, wrap=True))
    if qs is not None:
        norm(J)
        bad = unk = None
        n = 0
        for info in [i for i in J.loopinfo if i['ends'] and any(iter_places(s, i['head']) for s in i['ends'])]:
            h = info['head']
            for s in info['ends']:
                for e in iter_places(s, h):
                    seg = e.obj
                    so = J.load(h.copy(), ('f', seg, 'subset_of_'))
                    if not entails(s.facts, ne(so, NOSEG)):
                        continue
                    at_ = [a for x in s.facts for a in x[1].atoms()]
                    ks = [a for a in at_ if is_fld(a, None, 'size_') and a[1][1] not in (seg, THIS)]
                    ss = [atom(a, 'u64') for a in at_ if is_fld(a, seg, 'size_')]
                    bs = [atom(a, 'u64') for a in at_ if is_fld(a, seg, 'subset_offset_')]
                    n += 1
                    if not ks:
                        bad = 'a subset is placed without looking at the size of the segment containing it'
                    elif not any(entails(s.facts, le(x + y, atom(k, 'u64'))) for k in ks for x in ss for y in bs):
                        bad = 'a subset may reach beyond the segment containing it: %s' % '; '.join(show_fact(x) for x in s.facts if 'size_' in show_fact(x))[:400]
        stm(c, r1, f, bad, n, unk, 'subsets')
    # the order of things
    bad = unk = None
    n = 0
    for p in ps:
        if p.outcome == 'throw' and entails(p.st.facts, ne(init(F('is_laid_out_')), ZERO)):
            n += 1
            if any(is_effect(x) for x in p.events() if x.kind not in ('throw',)):
                bad = 'a refused second layout changed something; ' + path_show(p)[:200]
        if p.outcome != 'ret':
            continue
        was = observe1(I, lo, St())
        if isinstance(was, Lin) and p.st.copy().add(ne(was, ZERO)):
            bad = 'laid out a second time; ' + path_show(p)[:200]
        n += 1
        now = observe1(I, lo, p.st.copy())
        if not (isinstance(now, Lin) and entails(p.st.facts, ne(now, ZERO))):
            wl = [x for x in p.events('write') if x.obj == F('is_laid_out_')]
            if not wl:
                bad = 'afterwards it is not laid out'
    wi = [i for i in I.loopinfo if i['ends'] and all(any(e.name == SEG + '::writeInitial' for e in evs_since(s, i['head']) if e.kind == 'call') for s in i['ends'])]
    anyw = any(e.name == SEG + '::writeInitial' for i in I.loopinfo for s in i['ends'] for e in evs_since(s, i['head']) if e.kind == 'call')
    if not wi:
        bad = 'some segment does not write its initial value' if anyw or not any('writeInitial' in e.name for p in ps for e in p.events('call')) else bad
        unk = 'initial values'
    for i in wi:
        if i['cont'] != F('seg_list_') or i['breaks'] or i['rets']:
            unk = 'initial values of %s' % (show_loc(i['cont']) if i['cont'] else '?')
            bad = 'stops before the last segment' if i['breaks'] or i['rets'] else bad
            continue
        seg = at(I.load(i['head'].copy(), i['elem'], '*'))
        for s in i['ends']:
            ev = evs_since(s, i['head'])
            w = [e for e in ev if e.kind == 'call' and e.name == SEG + '::writeInitial']
            if len(w) != 1 or w[0].obj != seg:
                bad = 'writes the initial value of %s' % [show_loc(e.obj) for e in w]
            if any(e.kind == 'call' and e.name == SEG + '::place' for e in ev):
                bad = 'an initial value is written before the last segment is placed'
    for a in wi:
        for s in [a['entry']]:
            es = []
            x = s.ev
            while x is not None:
                es.append(x[1])
                x = x[0]
            lw = [e for e in es if e.kind == 'write' and e.obj == F('is_laid_out_')]
            if has_field(P, AD, 'is_laid_out_') and not lw:
                unk = unk or None
    stm(c, r2, f, bad, n, unk, '')
    g = fn1(P, AD + '::layoutRange')
    I, ps = run(c, P, g, r2, cfg(g, opaque=LAYQ))
    if ps is not None:
        bad = None
        sz = fn1(P, AD + '::getSize')
        was = observe1(I, lo, St())
        ns = init(('f', F('seg_list_'), '$size'))
        for p in ps:
            if p.outcome == 'throw':
                if any(is_effect(x) for x in p.events() if x.kind != 'throw'):
                    bad = 'refused after a change'
                if p.st.copy().add(eq(was, ZERO)):
                    t = p.st.copy()
                    if t.add(eq(was, ZERO)) and t.add(eq(ns, ZERO)):
                        bad = 'refused although nothing is laid out or registered'
            if p.outcome != 'ret':
                continue
            if p.st.copy().add(ne(was, ZERO)):
                bad = 'laid out a second time'
            if not entails(p.st.facts, eq(ns, ZERO)):
                bad = 'registered segments are never placed'
            v, l = observe1(I, sz, p.st.copy()), observe1(I, lo, p.st.copy())
            if not (isinstance(v, Lin) and entails(p.st.facts, eq(v, par(I, St(), g, 0)))):
                bad = 'the size is %s' % show_any(v)
            if not (isinstance(l, Lin) and entails(p.st.facts, ne(l, ZERO))):
                bad = 'afterwards it is not laid out'
        stm(c, r2, g, bad, len(ps), None, '')


def is_fld(a, obj, name):
    return isinstance(a, tuple) and a[0] == 'ld' and a[1][0] == 'f' and a[1][2] == name and (obj is None or a[1][1] == obj)


def ok_atom(a):
    return isinstance(a, tuple) and (a[0] in ('ld', 'arg') or a[0] == 'op' and a[1] == '%')


def next_line(I, s, w, e0, fs, ms):
    """w is the start of the line after that of a position at or above e0"""
    ls = I.load(s.copy(), F('line_size_'))
    for a, v in ms.items():
        if entails(fs, eq(w, atom(a, 'u64') + ls)) and entails(fs, le(e0, v)):
            return True
        if entails(fs, eq(w, atom(a, 'u64'))):
            # the line of a later byte, which is another one than that of v
            for b, u in ms.items():
                if b != a and entails(fs, le(e0, u)) and entails(fs, lt(atom(b, 'u64'), atom(a, 'u64'))):
                    return True
    return False


def registering(c, P, rid):
    f = fn1(P, AD + '::registerSegment')
    I, ps = run(c, P, f, rid, cfg(f, opaque=['sparta::TieredMap*']))
    if ps is None:
        return
    norm(I)
    lo = fn1(P, AD + '::isLaidOut')
    was = observe1(I, lo, St())
    seg = par(I, St(), f, 0)
    sz, idn = init(('f', at(seg), 'size_')), init(('f', at(seg), 'ident_'))
    ls = init(F('line_size_'))
    bad = unk = None
    n = 0
    fields = has_field(P, SEG, 'size_') and has_field(P, SEG, 'ident_') and has_field(P, AD, 'line_size_')
    for p in ps:
        cont = [e for e in p.events('cont') if e.obj == F('seg_list_')]
        if p.outcome == 'throw':
            if cont:
                bad = 'refused after it was added'
            continue
        if p.outcome != 'ret':
            continue
        n += 1
        if isinstance(was, Lin) and p.st.copy().add(ne(was, ZERO)):
            bad = 'added after the layout; ' + path_show(p)[:200]
        if len(cont) != 1:
            bad = 'added %d times; ' % len(cont) + path_show(p)[:200]
            continue
        if fields:
            for x, t in ((ne(sz, ZERO), 'of size 0'), (None, 'larger than a line')):
                if x is not None:
                    if not entails(p.st.facts, x):
                        bad = 'a segment %s may be added' % t
                else:
                    q = p.st.copy()
                    if q.add(ne(ls, ZERO)) and q.add(lt(ls, sz)):
                        bad = 'a segment %s may be added' % t
    ok = False
    for i in I.loopinfo:
        if i['cont'] != F('seg_list_'):
            continue
        e = I.load(i['head'].copy(), i['elem'], '*')
        for s in i['ends']:
            ok = True
            if not entails(s.facts, ne(e, seg)):
                bad = 'a segment may be added twice'
            oid = I.load(s.copy(), ('f', at(e), 'ident_'))
            if fields:
                q = s.copy()
                if q.add(ne(idn, NOSEG)) and q.add(eq(oid, idn)) and q.add(ne(e, seg)):
                    bad = 'two segments with the same identifier may be added; %s' % '; '.join(show_fact(x) for x in s.facts)[:300]
    if not ok:
        names_ = {e.name for p in ps for e in p.events('call')}
        if any('find' in x or 'any_of' in x for x in names_):
            unk = 'search not understood'
        else:
            bad = bad or 'a segment may be added twice'
    # refusals have a reason
    for p in ps:
        if p.outcome != 'throw' or not fields:
            continue
        q = p.st.copy()
        if q.add(eq(was, ZERO)) and q.add(ne(sz, ZERO)) and q.add(le(sz, ls)) and q.add(eq(init(('f', F('seg_list_'), '$size')), ZERO)):
            bad = 'refuses the first segment; ' + path_show(p)[:300]
    stm(c, rid, f, bad, n, unk, '')


def resetting(c, P, rid):
    f = fn1(P, AD + '::reset')
    I, ps = run(c, P, f, rid, cfg(f, opaque=LAYQ + [AD + '::clean']))
    if ps is None:
        return
    norm(I)
    bad = unk = None
    for p in normals(ps):
        cl = calls(p, AD + '::clean')
        wr = [e for e in p.events('call') if e.name == SEG + '::writeInitial']
        if not cl:
            bad = 'the data is not cleaned'
        elif wr and p.events().index(wr[0]) < p.events().index(cl[-1]):
            bad = 'initial values are written before cleaning'
    wi = [i for i in I.loopinfo if i['ends'] and any(e.name == SEG + '::writeInitial' for s in i['ends'] for e in evs_since(s, i['head']) if e.kind == 'call')]
    if not wi:
        bad = bad or ('no initial value is written' if not any('nitial' in e.name for p in ps for e in p.events('call')) else None)
        unk = 'initial values'
    for i in wi:
        if i['breaks'] or i['rets']:
            bad = 'stops before the last segment'
        if i['cont'] != F('seg_list_') or i['elem'] is None:
            unk = 'walks %s' % (show_loc(i['cont']) if i['cont'] else '?')
            continue
        seg = at(I.load(i['head'].copy(), i['elem'], '*'))
        for s in i['ends']:
            w = [e for e in evs_since(s, i['head']) if e.kind == 'call' and e.name == SEG + '::writeInitial']
            if len(w) != 1 or w[0].obj != seg:
                bad = 'a segment does not write its initial value; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
    stm(c, rid, f, bad, len(ps), unk, '')


# ---------------------------------------------------------------------- A03

ST = 'sparta::serialization::checkpoint'
SAVEQ = ['sparta::TieredMap*', ST + '*', AD + '::allocateLine_', AD + '::fillValue', AD + '::getLine']
CUR = re.compile(r'operator(\*|->)\(')


def A03(c):
    P = c.program('inst/mem.cpp')
    r1 = c.rule('save', 'saving writes out every line changed since the last save, its index first and then all its bytes, leaves it unchanged-flagged, takes back to its initial value what was freed since, '
                'and ends with one end mark; saving all does so for every line', 4)
    r2 = c.rule('restore', 'restoring takes every line up to the end mark, into the line of that index, all its bytes, leaving it unchanged-flagged; restoring all cleans first', 4)
    r3 = c.rule('clean', 'cleaning leaves every line freed and noted as freed, or refilled with the initial value and flagged as changed; a line someone has a raw pointer to is never freed', 1)
    r4 = c.rule('update', 'updating from another copies every line of the other, allocating those missing, and flags them as changed', 1)
    r5 = c.rule('dirty', 'a new line is flagged as changed and filled with the initial value', 1)
    r6 = c.rule('storage', 'a storage gives back what was stored: the lines in order, each with its index and bytes, an end mark for each object', 4)
    hint(c, P, AD, 'line_map_', 'line_size_', 'initial_', 'initial_val_size_')
    hint(c, P, LINE, 'idx_', 'data_', 'size_', 'dirty_')
    for nm in ('save', 'saveAll'):
        for f in fns(P, AD + '::' + nm):
            saving(c, P, r1, f, nm == 'saveAll')
    for nm in ('restore', 'restoreAll'):
        for f in fns(P, AD + '::' + nm):
            restoring(c, P, r2, f, nm == 'restoreAll')
    cleaning(c, P, r3)
    updating(c, P, r4)
    newline(c, P, r5)
    vector_storage(c, P, r6)


def is_cur(loc):
    return bool(CUR.search(show_loc(loc)))


def line_loops(I, m='line_map_'):
    """loops that walk the lines with the map's iterator"""
    out = []
    for i in I.loopinfo:
        ev = [e for s in i['ends'] for e in evs_since(s, i['head'])]
        if any(e.kind == 'call' and e.name.startswith('sparta::TieredMap') and e.name.endswith('iterator::operator++') for e in ev):
            out.append(i)
    return out


def cur_facts(s, nm):
    """what is known of a member of the line the iterator is at: (values known)"""
    return [a for x in s.facts for a in x[1].atoms() if is_fld(a, None, nm) and is_cur(a[1][1])]


def no_line(s):
    """the map has no line here"""
    for x in s.facts:
        if x[0] == 'eq':
            k = x[1].single()
            if isinstance(k, tuple) and CUR.search(show_any(atom(k, '*'))) and k[0] == 'ld' and k[1][0] != 'f':
                return True
    return False


def entry_facts(i):
    return i['entry'].facts if i.get('entry') is not None else ()


def ev_list(s):
    out, e = [], s.ev
    while e is not None:
        out.append(e[1])
        e = e[0]
    return out[::-1]


def saving(c, P, rid, f, every):
    I, ps = run(c, P, f, rid, cfg(f, opaque=SAVEQ))
    if ps is None:
        return
    norm(I)
    bad = unk = None
    n = 0
    ls = line_loops(I)
    if not ls:
        unk = 'the walk over the lines'
    for i in ls:
        if i['breaks'] or i['rets']:
            bad = 'stops before the last line'
        for s in i['ends']:
            n += 1
            ev = [e for e in evs_since(s, i['head'])]
            io = [e for e in ev if e.kind == 'call' and e.name.startswith(ST)]
            if not io:
                if no_line(s):
                    continue
                d = cur_facts(s, 'dirty_')
                if every or not d:
                    bad = 'a line is left out; %s' % '; '.join(show_fact(x) for x in s.facts)[:300]
                elif not any(entails(s.facts, eq(atom(a, 'u8'), ZERO)) for a in d):
                    bad = 'a changed line is left out; %s' % '; '.join(show_fact(x) for x in s.facts)[:300]
                continue
            sh = [e.name.rsplit('::', 1)[-1] for e in io]
            if sh != ['beginLine', 'writeLineBytes']:
                bad = 'a line is stored by %s' % sh
                continue
            a, b = io[0].args, io[1].args
            ks = [x.single() if isinstance(x, Lin) else None for x in (a[0], b[0], untrunc(b[1]))]
            if not all(is_fld(k, None, w) and is_cur(k[1][1]) for k, w in zip(ks, ('idx_', 'data_', 'size_'))):
                if all(is_fld(k, None, None) or isinstance(x, Lin) for k, x in zip(ks, (a[0], b[0], b[1]))):
                    bad = 'a line is stored as %s, %s' % (ev_show(io[0]), ev_show(io[1]))
                continue
            dw = [e for e in ev if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] == 'dirty_']
            if has_field(P, LINE, 'dirty_'):
                if not dw or dw[-1].args[0] != ZERO:
                    bad = 'a line stays flagged as changed after it is stored'
                elif ev.index(dw[-1]) < ev.index(io[0]):
                    unk = 'the flag is cleared first'
    # end mark
    for p in normals(ps):
        io = [e for e in p.events('call') if e.name.startswith(ST)]
        ends = [e for e in io if e.name.endswith('::endArchData')]
        if len(ends) != 1 or io[-1] is not ends[0]:
            bad = '%d end marks; %s' % (len(ends), path_show(p)[:200])
        for e in io:
            if e.obj is not None and e.obj != ('p', f.params[0][1]) and show_loc(e.obj) != 'arg:' + f.params[0][1]:
                bad = 'stores into %s' % show_loc(e.obj)
    # what was freed
    if has_field(P, AD, 'freed_lines_'):
        fl = F('freed_lines_')
        z = init(('f', fl, '$size'))
        for p in normals(ps):
            ev = p.events()
            cl = [k for k, e in enumerate(ev) if e.kind == 'cont' and e.obj == fl and e.name in ('clear', 'swap', 'move', 'assign', 'resize')]
            if not cl and not entails(p.st.facts, eq(z, ZERO)):
                bad = 'what was freed is not forgotten; ' + path_show(p)[:200]
        if not every:
            fr = [i for i in I.loopinfo if i['cont'] == fl]
            if not fr and any(not entails(p.st.facts, eq(z, ZERO)) for p in normals(ps)):
                bad = 'what was freed is not stored'
            for i in fr:
                for s in i['ends']:
                    ev = evs_since(s, i['head'])
                    al = [e for e in ev if e.kind == 'call' and e.name.startswith(AD + '::') and 'ine' in e.name]
                    fi = [e for e in ev if e.kind == 'call' and e.name.endswith('::find') and e.key is not None]
                    if not al and not any(entails(s.facts, ne(atom(e.key, '*'), ZERO)) for e in fi):
                        bad = 'a freed line is not stored; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
                if i['breaks'] or i['rets']:
                    bad = 'stops before the last freed line'
            for i in ls:
                e0 = ev_list(i['entry'])
                if fr and not entails(i['entry'].facts, eq(z, ZERO)) and not any(e.kind == 'call' and (e.name.endswith('::allocateLine_') or e.name.endswith('::find')) for e in e0):
                    bad = 'lines are stored before the freed ones are back'
    stm(c, rid, f, bad, n, unk, '')


def restoring(c, P, rid, f, every):
    I, ps = run(c, P, f, rid, cfg(f, opaque=SAVEQ + [AD + '::clean']))
    if ps is None:
        return
    norm(I)
    bad = unk = None
    n = 0
    ls = [i for i in I.loopinfo if any(e.kind == 'call' and e.name.endswith('::copyLineBytes') for s in i['ends'] for e in evs_since(s, i['head']))]
    if not ls:
        unk = 'the walk over the lines'
    inv = const(0xffffffffffffffff)
    for i in ls:
        for s in i['ends']:
            n += 1
            ev = evs_since(s, i['head'])
            nx = [e for e in ev if e.kind == 'call' and e.name.endswith('::getNextRestoreLine')]
            cp = [e for e in ev if e.kind == 'call' and e.name.endswith('::copyLineBytes')]
            gl = [e for e in ev if e.kind == 'call' and e.name == AD + '::getLine']
            if len(nx) != 1 or len(cp) != 1 or nx[0].key is None:
                bad = '%d indices for %d lines' % (len(nx), len(cp))
                continue
            ix = atom(nx[0].key, 'u64')
            word = 'getNextRestoreLine'
            if ev.index(nx[0]) > ev.index(cp[0]):
                # the index was taken at the end of the step before
                hs = [(k, I.load(i['head'].copy(), k)) for k, v in s.store.items() if v == ix]
                e0 = [I.load(i['entry'].copy(), k) for k, _ in hs]
                if len(hs) != 1 or 'getNextRestoreLine' not in show_any(e0[0]) or not isinstance(hs[0][1], Lin):
                    unk = 'the index restored'
                    continue
                ix = hs[0][1]
                word = show_any(ix)
            if len(gl) != 1:
                if not any(CUR.search(show_any(a)) or 'ine' in show_any(a) for a in cp[0].args):
                    bad = 'restores %s' % ev_show(cp[0])
                unk = 'the line restored'
                continue
            off = gl[0].args[0]
            txt = show_any(off)
            if isinstance(off, Lin) and entails(s.facts, eq(off, ix)):
                bad = 'the line at offset %s is restored' % txt
            elif 'trunc' in repr(off):
                bad = 'the offset of the line restored is narrowed: %s' % txt
            elif word not in txt or 'line_size_' not in txt and '<<' not in txt:
                if has_field(P, AD, 'line_size_'):
                    bad = 'the line at offset %s is restored' % txt
            a = cp[0].args
            ks = [x.single() if isinstance(x, Lin) else None for x in (a[0], untrunc(a[1]))]
            if not all(is_fld(k, None, w) and 'getLine' in show_loc(k[1][1]) for k, w in zip(ks, ('data_', 'size_'))):
                bad = 'a line is restored by %s' % ev_show(cp[0])
            dw = [e for e in ev if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] == 'dirty_']
            if has_field(P, LINE, 'dirty_') and (not dw or dw[-1].args[0] != ZERO):
                bad = 'a line restored is left flagged as changed'
            # a line was announced
            t = s.copy()
            if t.add(eq(ix, inv)):
                bad = 'an end mark is taken for a line'
        for s in list(i['exits']) + list(i['breaks']):
            ev = evs_since(s, i['head'])
            nx = [e for e in ev if e.kind == 'call' and e.name.endswith('::getNextRestoreLine')]
            if not nx:
                if not any(entails(s.facts, eq(v, inv)) for k, v in s.store.items() if isinstance(v, Lin)):
                    unk = 'where it stops'
            elif nx[-1].key is not None and not entails(s.facts, eq(atom(nx[-1].key, 'u64'), inv)):
                bad = 'stops before the end mark; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
    if every:
        for p in normals(ps):
            ev = p.events()
            cl = [k for k, e in enumerate(ev) if e.kind == 'call' and e.name == AD + '::clean']
            nx = [k for k, e in enumerate(ev) if e.kind == 'call' and e.name.endswith('::getNextRestoreLine')]
            if not cl:
                bad = 'old lines are kept'
            elif nx and nx[0] < cl[-1]:
                bad = 'cleaned after restoring'
    stm(c, rid, f, bad, n, unk, '')


def fills_line(ev, obj_ok):
    """the events refill one line and flag it: (fill event, text of what is wrong)"""
    fv = [e for e in ev if e.kind == 'call' and e.name == AD + '::fillValue']
    if len(fv) != 1:
        return None, None
    a = fv[0].args
    ks = [untrunc(x).single() if isinstance(x, Lin) else None for x in a[:4]]
    w = ('data_', 'size_', 'initial_', 'initial_val_size_')
    for j, (k, x) in enumerate(zip(ks, w)):
        if not is_fld(k, THIS if j > 1 else None, x) or (j < 2 and not obj_ok(k[1][1])):
            return fv[0], 'filled by %s' % ev_show(fv[0])
    if not (isinstance(a[4], Lin) and a[4] == ZERO):
        return fv[0], 'filled from an offset'
    dw = [e for e in ev if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] == 'dirty_']
    if not dw or not entails(frozenset(), ne(dw[-1].args[0], ZERO)):
        return fv[0], 'not flagged as changed'
    return fv[0], None


def cleaning(c, P, rid):
    f = fn1(P, AD + '::clean')
    I, ps = run(c, P, f, rid, cfg(f, opaque=SAVEQ))
    if ps is None:
        return
    norm(I)
    bad = unk = None
    n = 0
    ls = line_loops(I)
    if not ls:
        unk = 'the walk over the lines'
    freed = has_field(P, AD, 'freed_lines_')
    keeps = set()
    for i in ls:
        if i['breaks'] or i['rets']:
            bad = 'stops before the last line'
        for s in i['ends']:
            n += 1
            ev = evs_since(s, i['head'])
            dl = [e for e in ev if e.kind == 'del']
            kp = [e for e in ev if e.kind == 'cont' and e.obj[0] == 'var']
            fv, wrong = fills_line(ev, is_cur)
            if wrong:
                bad = wrong
            if fv is not None and not dl:
                continue
            if dl:
                if not is_cur(dl[0].obj):
                    unk = 'deletes %s' % show_loc(dl[0].obj)
                raw = cur_facts(s, 'raw_access_')
                if has_field(P, LINE, 'raw_access_') and not any(entails(s.facts, eq(atom(a, 'u8'), ZERO)) for a in raw):
                    bad = 'a line is freed although someone may have a raw pointer to it'
                if freed and not any(e.kind == 'cont' and e.obj == F('freed_lines_') for e in ev):
                    bad = 'a freed line is not noted'
                if not entails(s.facts, ne(init(F('can_free_lines_')), ZERO)) and has_field(P, AD, 'can_free_lines_'):
                    bad = 'lines are freed although they may not be'
            elif kp:
                keeps.add(kp[0].obj)
            elif not no_line(s):
                bad = 'a line is neither freed nor refilled; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
    for k in keeps:
        kl = [i for i in I.loopinfo if i['cont'] == k or show_any(i['cont']) == show_any(k)]
        if not kl:
            bad = bad or 'lines kept are not refilled'
        for i in kl:
            for s in i['ends']:
                ev = evs_since(s, i['head'])
                fv, wrong = fills_line(ev, lambda o: True)
                if fv is None or wrong:
                    bad = wrong or 'a line kept is not refilled'
                if not any(e.kind == 'call' and e.name.startswith('sparta::TieredMap') and e.name.rsplit('::', 1)[-1] in ('operator[]', 'insert') for e in ev):
                    bad = 'a line kept is lost'
    for p in normals(ps):
        ev = p.events('call')
        if keeps or any(e.kind == 'del' for i in ls for s in i['ends'] for e in evs_since(s, i['head'])):
            if entails(p.st.facts, ne(init(F('can_free_lines_')), ZERO)) and not any(e.name == 'sparta::TieredMap::clear' for e in ev):
                bad = 'the freed lines stay in the map'
    stm(c, rid, f, bad, n, unk, '')


def updating(c, P, rid):
    f = fn1(P, AD + '::updateFrom')
    I, ps = run(c, P, f, rid, cfg(f, opaque=SAVEQ))
    if ps is None:
        return
    bad = unk = None
    n = 0
    ls = line_loops(I)
    if not ls:
        unk = 'the walk over the lines'
    for i in ls:
        if i['breaks'] or i['rets']:
            bad = 'stops before the last line'
        for s in i['ends']:
            n += 1
            ev = evs_since(s, i['head'])
            mc = [e for e in ev if e.kind == 'call' and e.name in ('memcpy', 'memmove', 'std::memcpy', 'std::copy')]
            if not mc:
                if not no_line(s):
                    bad = 'a line is not copied; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
                continue
            a = mc[0].args
            ks = [untrunc(x).single() if isinstance(x, Lin) else None for x in a[:3]]
            if not (is_fld(ks[1], None, 'data_') and is_cur(ks[1][1][1]) and is_fld(ks[0], None, 'data_') and not is_cur(ks[0][1][1]) and is_fld(ks[2], None, 'size_')):
                bad = 'copied by %s' % ev_show(mc[0])
                continue
            o = show_loc(ks[0][1][1])
            q = [e for e in ev if e.kind == 'call' and (e.name.endswith('::find') or e.name == AD + '::allocateLine_' or e.name == AD + '::getLine')]
            for e in q:
                t = show_any(e.args[0])
                if e.name != AD + '::getLine' and not ('idx_' in t and CUR.search(t)):
                    bad = 'the line copied to is that of %s' % ev_show(e)
            if not q or not ('find' in o or 'allocateLine_' in o or 'getLine' in o):
                unk = 'copied to %s' % o
            dw = [e for e in ev if e.kind == 'write' and e.obj == ('f', ks[0][1][1], 'dirty_')]
            if has_field(P, LINE, 'dirty_') and (not dw or not entails(s.facts, ne(dw[-1].args[0], ZERO))):
                bad = 'a line copied to is not flagged as changed'
    stm(c, rid, f, bad, n, unk, '')


def newline(c, P, rid):
    for f in P.find(LINE + '::Line'):
        if len(f.params) < 4:
            continue
        I, ps = run(c, P, f, rid, cfg(f, opaque=[AD + '::fillValue', AD + '::fillWith_']))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            d = I.load(p.st.copy(), F('dirty_'), 'u8')
            if has_field(P, LINE, 'dirty_') and not entails(p.st.facts, ne(d, ZERO)):
                bad = 'a new line is not flagged as changed'
            fv = [e for e in p.events('call') if 'fill' in e.name.rsplit('::', 1)[-1]]
            if not fv:
                bad = 'a new line is not filled'
            elif fv[0].name == AD + '::fillValue':
                a = fv[0].args
                for x, y in ((a[1], 2), (a[2], 3), (a[3], 4)):
                    if not (isinstance(x, Lin) and entails(p.st.facts, eq(untrunc(x), par(I, St(), f, y)))):
                        bad = 'filled by %s' % ev_show(fv[0])
            for nm, j in (('idx_', 0), ('size_', 2)):
                v = I.load(p.st.copy(), F(nm))
                if has_field(P, LINE, nm) and not entails(p.st.facts, eq(v, par(I, St(), f, j))):
                    bad = 'its %s is %s' % (nm, show_any(v))
        stm(c, rid, f, bad, len(ps), None, '')


def vector_storage(c, P, rid):
    VS = ST + '::storage::VectorStorage'
    SG = VS + '::Segment'
    INV = const(0xffffffffffffffff)
    hint(c, P, VS, 'data_', 'next_idx_', 'next_restore_idx_', 'cur_restore_itr_')
    hint(c, P, SG, 'idx_', 'data_', 'bytes_')
    know = has_field(P, VS, 'next_idx_') and has_field(P, SG, 'idx_') and has_field(P, VS, 'data_')

    def each(nm, judge):
        f = fn1(P, VS + '::' + nm)
        I, ps = run(c, P, f, rid, cfg(f))
        if ps is None:
            return
        bad = unk = None
        for p in normals(ps):
            r = judge(I, f, p)
            if r:
                bad = r + '; ' + path_show(p)[:200]
        stm(c, rid, f, bad if know else None, len(normals(ps)), None if know else 'members not recognised', '')

    def adds(p):
        return [e for e in p.events('cont') if e.obj == F('data_')]

    def begin(I, f, p):
        v = I.load(p.st.copy(), F('next_idx_'))
        if not entails(p.st.facts, eq(v, par(I, St(), f, 0))):
            return 'the line begun is %s' % show_any(v)

    def write(I, f, p):
        a = adds(p)
        if len(a) != 1 or a[0].name not in ('emplace_back', 'push_back'):
            return '%d segments are stored' % len(a)
        if a[0].name == 'emplace_back' and len(a[0].args) == 3:
            for x, w in zip(a[0].args, (init(F('next_idx_')), par(I, St(), f, 0), par(I, St(), f, 1))):
                if not same_val(p, untrunc(refv(I, p, x)), w):
                    return 'stores %s' % ev_show(a[0])

    def end(I, f, p):
        a = adds(p)
        if len(a) != 1 or a[0].name not in ('emplace_back', 'push_back') or (a[0].name == 'emplace_back' and a[0].args):
            return 'the end mark is stored by %s' % [ev_show(e) for e in a]

    def prepare(I, f, p):
        v = I.load(p.st.copy(), F('next_restore_idx_'))
        if not entails(p.st.facts, eq(v, ZERO)):
            return 'reading starts at %s' % show_any(v)
        w = [e for e in p.events('write') if e.obj[:3] == F('cur_restore_itr_')]
        if not w and not any('cur_restore_itr_' in ev_show(e) for e in p.events()):
            return 'the reading position is not moved to the start'

    def nxt(I, f, p):
        n0, sz = init(F('next_restore_idx_'), 'u32'), init(('f', F('data_'), '$size'))
        n1 = I.load(p.st.copy(), F('next_restore_idx_'), 'u32')
        if not entails(p.st.facts, eq(untrunc(n1), n0 + 1)):
            return 'the position becomes %s' % show_any(n1)
        if entails(p.st.facts, eq(n0, sz)):
            if not entails(p.st.facts, eq(p.ret, INV)):
                return 'beyond the last segment it answers %s' % show_any(p.ret)
            return
        inc = [e for e in p.events('call') if e.name.endswith('::operator++')]
        z = entails(p.st.facts, eq(n0, ZERO))
        if len(inc) != (0 if z else 1):
            return 'moves %d segments on' % len(inc)
        k = p.ret.single() if isinstance(p.ret, Lin) else None
        if not is_fld(k, None, 'idx_') or 'cur_restore_itr_' not in show_loc(k[1][1]):
            return 'answers %s' % show_any(p.ret)
        if inc:
            dr = [e for e in p.events('call') if e.name.endswith(('::operator->', '::operator*')) and e.key is not None and 'cur_restore_itr_' in show_any(e.obj)]
            ev = p.events()
            if dr and ev.index(dr[-1]) < ev.index(inc[0]):
                return 'answers the index of the segment before'

    def copy(I, f, p):
        mc = [e for e in p.events('call') if e.name in ('memcpy', 'std::memcpy', 'memmove')]
        if not mc:
            return None if p.events('call') and any('copy' in e.name for e in p.events('call') if e.name != f.name) else 'nothing is copied'
        a = mc[0].args
        if not same_val(p, a[0], par(I, St(), f, 0)) or not same_val(p, untrunc(a[2]), par(I, St(), f, 1)):
            return 'copies by %s' % ev_show(mc[0])
        if 'cur_restore_itr_' not in show_any(a[1]) or 'data_' not in show_any(a[1]):
            return 'copies from %s' % show_any(a[1])
    for nm, j in (('beginLine', begin), ('writeLineBytes', write), ('endArchData', end), ('prepareForLoad', prepare), ('getNextRestoreLine', nxt), ('copyLineBytes', copy)):
        each(nm, j)
    for f in P.find(SG + '::Segment'):
        if len(f.params) not in (0, 3):
            continue
        I, ps = run(c, P, f, rid, cfg(f))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            ix = I.load(p.st.copy(), F('idx_'))
            if not f.params:
                if not entails(p.st.facts, eq(ix, INV)):
                    bad = 'the end mark has index %s' % show_any(ix)
                continue
            by, sz = I.load(p.st.copy(), F('bytes_'), 'u32'), I.load(p.st.copy(), ('f', F('data_'), '$size'))
            for v, w in ((ix, 0), (untrunc(by), 2), (untrunc(sz), 2)):
                if not (isinstance(v, Lin) and entails(p.st.facts, eq(v, par(I, St(), f, w)))):
                    bad = 'keeps %s' % show_any(v)
            mc = [e for e in p.events('call') if e.name in ('memcpy', 'std::memcpy')]
            if mc and not (same_val(p, mc[0].args[1], par(I, St(), f, 1)) and same_val(p, untrunc(mc[0].args[2]), par(I, St(), f, 2)) and 'this.data_' in show_any(mc[0].args[0])):
                bad = 'keeps the bytes by %s' % ev_show(mc[0])
            if not mc and not any(e.kind == 'cont' and e.obj == F('data_') for e in p.events()):
                bad = 'the bytes are not kept'
        stm(c, rid, f, bad if know else None, len(ps), None if know else 'members not recognised', '')
