"""M01 windows and blocks; M02 bytes of memory objects; M03 memory map; M04 cached memory."""
from lib import *
from kernel import fld, par, counters
from dag import stm, names
from events import cfg, calls
from loops import norm
from interp import bare, neg
from terms import atom_key

MEM = 'sparta::memory::'
DBG, BLK, NODE = MEM + 'DebugMemoryIF', MEM + 'BlockingMemoryIF', MEM + 'BlockingMemoryIFNode'
LEAF = ['tryRead_', 'tryWrite_', 'tryPeek_', 'tryPoke_', DBG + '::verifyNoBlockSpan', DBG + '::verifyInAccessWindows',
        'sparta::NotificationSource*']
MAX64 = (1 << 64) - 1


def evals(P, f, st=None, args=None, **kw):
    """outcomes of a query from an unknown state: [(outcome, facts, value)] or None"""
    try:
        I = Interp(P, cfg(f, wrap=True, **kw))
        I.cfg.thiscls = f.cls
        return [(o, frozenset(s.facts), v) for o, s, v in I.observe(f, (st or St()).copy(), args=args)]
    except Unknown:
        return None


def truth(v, want):
    f = Interp.fact_of(None, v)
    return f if want else neg(f)


def possible(facts, outs, want, xf=()):
    """can the query give a value other than want (True/False) under these facts? None: cannot tell"""
    if outs is None:
        return None
    for o, fs, v in outs:
        if o != 'ret' or not isinstance(v, Lin):
            continue
        t = St()
        if all(t.add(x) for x in list(facts) + list(xf) + list(fs)) and t.add(truth(v, not want)):
            return True
    return False


def opaque_facts(facts):
    """facts that involve masks, shifts or calls: a comparison this rule does not understand may be among them"""
    return [x for x in facts if re.search(r'[&>/%]|\(this', show_fact(x).rsplit('<=', 1)[0].rsplit('==', 1)[0])]


def sig(I, f, *idx):
    return [par(I, St(), f, i) for i in (idx or range(len(f.params)))]


def iff(c, P, rid, f, conj, what, facts=(), kind='bool', **kw):
    """f() returns true (or, kind 'check', returns at all) exactly when every fact of conj holds"""
    I, ps = run(c, P, f, rid, cfg(f, wrap=True, **kw), facts=tuple(facts))
    if ps is None:
        return
    bad = unk = None
    fs = [norm_fact(x) for x in conj(I, f)]
    n = 0
    for p in ps:
        cases = []
        if kind == 'check':
            cases = [(p.st, p.outcome == 'ret')]
            if p.outcome not in ('ret', 'throw'):
                continue
        elif p.outcome == 'ret' and isinstance(p.ret, Lin):
            for w, x in ((True, truth(p.ret, True)), (False, truth(p.ret, False))):
                s = p.st.copy()
                if s.add(x):
                    cases.append((s, w))
        for s, w in cases:
            n += 1
            if w:
                v = max((verdict(s.facts, x) for x in fs), key=lambda z: {'ok': 0, 'unknown': 1, 'bad': 2}[z])
                miss = [x for x in fs if not entails(s.facts, x)]
                if v == 'bad':
                    bad = 'accepts although %s may not hold; %s' % (show_fact(miss[0]), path_show(p)[:400])
                elif v == 'unknown':
                    unk = 'acceptance not decided: ' + path_show(p)[:300]
            else:
                t = s.copy()
                if kind == 'check' and any(x in show_any(p.ret) for x in ('$never',)):
                    continue
                if all(t.add(x) for x in fs):
                    if all(stable(x[1]) for x in t.facts):
                        bad = 'refuses although %s; %s' % (' and '.join(show_fact(x) for x in fs), path_show(p)[:400])
                    else:
                        unk = 'refusal not decided: ' + path_show(p)[:300]
    stm(c, rid, f, bad, n, unk, '')


WIN = ('i', F('acc_windows_'), ZERO)


def one_window(P):
    """a memory interface has exactly one window; the derived bounds agree with it (checked at construction)"""
    w = [eq(init(fld(F('acc_windows_'), '$size')), ONE), le(init(fld(WIN, 'start')) + 1, init(fld(WIN, 'end'))), le(init(fld(WIN, 'end')), const(MAX64))]
    if has_field(P, DBG, 'low_end_'):
        w += [eq(init(F('low_end_')), init(fld(WIN, 'start'))), eq(init(F('high_end_')), init(fld(WIN, 'end')))]
    return w


def M01(c):
    P = c.program('inst/mem.cpp')
    r1 = c.rule('window', 'an access is inside the window exactly when its first byte is at or after the start and its last before the end, whatever its size', 4)
    r2 = c.rule('guarded', 'the memory behind an interface is read or written only by an access inside the window that does not span blocks, with the address, size and buffer given; the answer is that of the memory', 4)
    r3 = c.rule('throwing', 'read, write, peek and poke return exactly when the access was done and throw otherwise', 6)
    r4 = c.rule('chunks', 'peek and poke visit consecutive pieces that cover the range exactly, each with its place in the buffer, and stop at a refusal', 2)
    r5 = c.rule('observed', 'every attempt is counted once; observers are told of a successful access only, after it, with what was accessed and, for a write, the data before', 2)
    h = hint(c, P, DBG, 'acc_windows_', 'block_mask_')
    inside = lambda I, f: [le(init(fld(WIN, 'start')), sig(I, f)[0]), le(sig(I, f)[0] + sig(I, f)[1], init(fld(WIN, 'end')))]
    if h:
        iff(c, P, r1, fn1(P, DBG + '::isInAccessWindows'), inside, 'window', one_window(P))
        iff(c, P, r1, fn1(P, DBG + '::verifyInAccessWindows'), inside, 'window', one_window(P), 'check')
    iff(c, P, r1, fn1(P, DBG + '::AccessWindow::containsAddr'),
        lambda I, f: [le(init(F('start')), sig(I, f)[0]), lt(sig(I, f)[0], init(F('end')))], 'window')
    span(c, P, r1)
    guarded(c, P, r2)
    throwing(c, P, r3)
    chunks(c, P, r4)
    observed(c, P, r5)


def span(c, P, rid):
    """the first and the last byte are compared"""
    f = fn1(P, DBG + '::doesAccessSpan')
    outs = evals(P, f)
    a, n = init(('p', 'addr')), init(('p', 'size'))
    bad = unk = None
    if outs is None:
        unk = 'not expressible'
    else:
        m = init(F('block_mask_'))
        for o, fs, v in outs:
            if o != 'ret' or not isinstance(v, Lin):
                continue
            txt = show_any(v) + ' '.join(show_fact(x) for x in fs)
            if re.search(r'wrapped|18446744073709551617', txt) and any(entails(fs, le(const(MAX64 + 2), sig(Interp(P, cfg(f)), f)[0] + sig(Interp(P, cfg(f)), f)[1])) for _ in (1,)):
                continue
            A = sig(Interp(P, cfg(f)), f)
            last, first = A[0] + A[1] - 1, A[0]
            t = St()
            if not all(t.add(x) for x in fs) or not t.add(le(A[0] + A[1] - 1, const(MAX64))) or not t.add(le(ONE, A[1])):
                continue
            ands = [x for x in re.findall(r'\(([^()]*)&[^()]*\)', txt)]
            if not ands:
                unk = 'the comparison is written without a mask: ' + txt[:200]
                continue
            want = {show_any(first), show_any(last)}
            got = {x.strip() for x in ands}
            if got != want:
                bad = 'compares the blocks of %s instead of the first and the last byte' % ' and '.join(sorted(got))
            elif not re.search(r'cmp eq', show_any(v)) and not v.is_const():
                unk = 'comparison: ' + show_any(v)[:200]
            elif re.search(r'^<cmp eq', show_any(v)):
                bad = 'answers true when both bytes are in one block'
    stm(c, rid, f, bad, len(outs or ()), unk, '')


def leafs(es, m):
    return [e for e in es if e.kind == 'call' and e.name.rsplit('::', 1)[-1] == m]


def passes(P, p, e, f, I, n, off=0):
    """the call passes on the parameters of f in order"""
    for i in range(n):
        want = par(I, St(), f, i)
        got = e.args[i + off] if i + off < len(e.args) else None
        if not (isinstance(got, Lin) and entails(p.st.facts, eq(got, want))):
            return 'passes on %s for %s' % (show_any(got), f.params[i][1])
    return None


def guarded(c, P, rid):
    sp, win = fn1(P, DBG + '::doesAccessSpan'), fn1(P, DBG + '::isInAccessWindows')
    for cls in (BLK, NODE):
        for m in ('tryRead', 'tryWrite'):
            f = fn1(P, cls + '::' + m)
            I, ps = run(c, P, f, rid, cfg(f, wrap=True, opaque=LEAF), facts=one_window(P))
            if ps is None:
                continue
            bad = unk = None
            args = [par(I, St(), f, 0), par(I, St(), f, 1)]
            so, wo = evals(P, sp, args=args), evals(P, win, args=args)
            for p in ps:
                ls = leafs(p.events(), m + '_')
                if p.outcome == 'throw':
                    if not leafs(p.events(), 'tryPeek_'):
                        bad = 'throws: ' + path_show(p)[:300]
                    continue
                if p.outcome != 'ret':
                    continue
                if ls:
                    if len(ls) > 1:
                        bad = 'the memory is accessed %d times' % len(ls)
                    for outs, want, w in ((so, False, 'spans blocks'), (wo, True, 'is outside of the window')):
                        q = possible(p.st.facts, outs, want, one_window(P))
                        if q is None:
                            unk = 'check not expressible'
                        elif q:
                            # an unrecognised comparison may stand for the check
                            if [x for x in opaque_facts(p.st.facts) if not any(x in fs for _, fs, _ in so + wo)] and want is False:
                                unk = 'unrecognised check'
                            else:
                                bad = 'an access that %s reaches the memory; %s' % (w, path_show(p)[:400])
                    bad = bad or passes(P, p, ls[0], f, I, 3)
                    if ls[0].obj is not None and show_any(ls[0].obj) not in ('this', '(R this)', '(REF this)'):
                        bad = 'another object is accessed: ' + show_any(ls[0].obj)
                    if cls == BLK or len(ls[0].args) > 3:
                        bad = bad or (passes(P, p, ls[0], f, I, 5) if len(ls[0].args) > 4 else None)
                    v = e_ret(ls[0], p)
                    if v is False:
                        bad = 'answers %s instead of what the memory answered' % show_any(p.ret)
                else:
                    if not (isinstance(p.ret, Lin) and entails(p.st.facts, eq(p.ret, ZERO))):
                        bad = 'reports success without accessing the memory; ' + path_show(p)[:300]
                    elif not leafs(p.events(), 'tryPeek_') and not leafs(p.events(), 'tryPeek'):
                        # refused: must not be acceptable
                        t1, t2 = possible(p.st.facts, so, True, one_window(P)), possible(p.st.facts, wo, False, one_window(P))
                        t = St()
                        if all(t.add(x) for x in list(p.st.facts) + one_window(P)) and t1 and t2 and ok_refusal(p, so, wo, P) is False:
                            bad = 'refuses an access inside the window and one block; ' + path_show(p)[:300]
            stm(c, rid, f, bad, len(ps), unk, '')


def ok_refusal(p, so, wo, P):
    """can an acceptable access be refused on this path? False: yes, definitely"""
    for o1, f1, v1 in so:
        for o2, f2, v2 in wo:
            if o1 != 'ret' or o2 != 'ret':
                continue
            t = St()
            if all(t.add(x) for x in list(p.st.facts) + one_window(P) + list(f1) + list(f2)) and t.add(truth(v1, False)) and t.add(truth(v2, True)):
                if all(stable(x[1]) for x in t.facts):
                    return False
    return True


def e_ret(e, p):
    """does the path return what the call returned? True/False/None"""
    m = e.name.rsplit('::', 1)[-1]
    if not isinstance(p.ret, Lin):
        return None
    if m + '(' in show_any(p.ret) and not show_any(p.ret).startswith('-'):
        return True
    fs = [x for x in p.st.facts if m + '(' in show_fact(x)]
    if p.ret.is_const():
        for x in fs:
            if len(x[1].t) != 1:
                continue
            a = Lin(0, ((x[1].t[0][0], 1),))
            t = entails(p.st.facts, ('ne', a))
            z = entails(p.st.facts, ('eq', a))
            if t and p.ret.c or z and not p.ret.c:
                return True
            if t or z:
                return False
        return False
    return None


def throwing(c, P, rid):
    for cls, ms in ((BLK, ('read', 'write')), (NODE, ('read', 'write')), (DBG, ('peek', 'poke'))):
        for m in ms:
            f = fn1(P, cls + '::' + m)
            tm = 'try' + m.capitalize()
            I, ps = run(c, P, f, rid, cfg(f, opaque=LEAF + [tm]))
            if ps is None:
                continue
            bad = unk = None
            for p in ps:
                ls = leafs(p.events(), tm)
                if p.outcome not in ('ret', 'throw'):
                    continue
                if len(ls) != 1:
                    if leafs(p.events(), tm + '_'):
                        unk = 'the access does not go through ' + tm
                    else:
                        bad = 'the access is made %d times' % len(ls)
                    continue
                bad = bad or passes(P, p, ls[0], f, I, min(len(f.params), len(ls[0].args)) if len(ls[0].args) >= 3 else 3)
                if ls[0].obj is not None and show_any(ls[0].obj) not in ('this', '(R this)', '(REF this)'):
                    bad = 'another object is accessed: ' + show_any(ls[0].obj)
                fs = [x for x in p.st.facts if tm + '(' in show_fact(x)]
                got = None
                for x in fs:
                    for a, k in x[1].t:
                        if tm + '(' in show_any(Lin(0, ((a, 1),))):
                            A = Lin(0, ((a, 1),))
                            got = True if entails(p.st.facts, ('ne', A)) else False if entails(p.st.facts, ('eq', A)) else got
                if got is None:
                    bad = '%s whatever the result of the access; %s' % ('returns' if p.outcome == 'ret' else 'throws', path_show(p)[:200])
                elif got != (p.outcome == 'ret'):
                    bad = '%s although the access %s; %s' % ('returns' if p.outcome == 'ret' else 'throws', 'was done' if got else 'was refused', path_show(p)[:200])
            stm(c, rid, f, bad, len(ps), unk, '')


def chunks(c, P, rid):
    win = fn1(P, DBG + '::isInAccessWindows')
    for m in ('tryPeek', 'tryPoke'):
        f = fn1(P, DBG + '::' + m)
        I, ps = run(c, P, f, rid, cfg(f, opaque=LEAF), facts=one_window(P))
        if ps is None:
            continue
        bad = unk = None
        A, N, B = sig(I, f)
        wo = evals(P, win, args=[A, N])
        for p in ps:
            ls = leafs(p.events(), m + '_')
            if p.outcome == 'ret' and ls:
                if possible(p.st.facts, wo, True, one_window(P)):
                    bad = 'an access outside of the window reaches the memory; ' + path_show(p)[:300]
            elif p.outcome == 'ret' and not ls and not I.loopinfo:
                if not (isinstance(p.ret, Lin) and entails(p.st.facts, eq(p.ret, ZERO))):
                    bad = 'success without access'
        infos = [i for i in I.loopinfo if any(leafs(e.events(), m + '_') for e in i['ends']) or any(leafs(x[1].events(), m + '_') for x in i['rets'] if x[0] == 'ret')]
        if not infos:
            unk = 'no loop over the blocks'
        for info in infos:
            h, n0 = info['head'], len(info['head'].events())
            # the scalars that follow the address and the buffer
            bv = []
            its = [(e, leafs(e.events()[n0:], m + '_')) for e in info['ends']]
            for e, ls in its:
                if len(ls) != 1:
                    bad = 'a piece is accessed %d times' % len(ls)
                    continue
                a, n, b = ls[0].args[:3]
                if not all(isinstance(x, Lin) for x in (a, n, b)):
                    unk = 'pieces not followed'
                    continue
                # a piece that was refused must end the walk
                r = [x for x in e.facts - h.facts if m + '_(' in show_fact(x)]
                if not r or any(entails(e.facts, ('eq', Lin(0, ((y, 1),)))) for x in r for y, k in x[1].t if m + '_(' in show_any(Lin(0, ((y, 1),)))):
                    bad = 'goes on after a refused piece'
                na = nb = None
                for k in set(e.store):
                    hv = h.store.get(k)
                    if hv is None:
                        hv = I.load(h.copy(), k)
                    ev = e.store.get(k)
                    if isinstance(hv, Lin) and isinstance(ev, Lin):
                        en = info['entry'].store.get(k)
                        if hv == a:
                            na = (ev, en)
                        if hv == b:
                            nb = (ev, en)
                            bv.append(hv)
                if na is None or nb is None:
                    unk = 'the address or the buffer is not a variable of the loop'
                    continue
                if not entails(e.facts, eq(na[0], a + n)):
                    bad = 'the next piece starts at %s after one of %s bytes at %s' % (show_any(na[0]), show_any(n), show_any(a))
                if not entails(e.facts, eq(nb[0], b + n)):
                    bad = 'the buffer advances to %s after %s bytes at %s' % (show_any(nb[0]), show_any(n), show_any(b))
                for (v, en), w, t in ((na, A, 'address'), (nb, B, 'buffer')):
                    if isinstance(en, Lin) and not entails(info['entry'].facts, eq(en, w)):
                        bad = 'starts at %s instead of %s' % (show_any(en), show_any(w))
            last = [(x[1], x[2]) for x in info['rets'] if x[0] == 'ret']
            for s, v in last:
                ls = leafs(s.events()[n0:], m + '_')
                if not ls:
                    bad = 'ends without the last piece'
                    continue
                a, n, b = ls[-1].args[:3]
                if bv and isinstance(b, Lin) and verdict(s.facts, eq(b, bv[0])) != 'ok':
                    if verdict(s.facts, eq(b, bv[0])) == 'bad' or b == B:
                        bad = 'the last piece uses the buffer at %s' % show_any(b)
                    else:
                        unk = 'buffer of the last piece not followed'
                if isinstance(v, Lin) and v.is_const():
                    if v.c:
                        bad = 'reports success for a refused piece' if any(entails(s.facts, ('eq', Lin(0, ((y, 1),)))) for x in s.facts for y, k in x[1].t if m + '_(' in show_any(Lin(0, ((y, 1),)))) else bad
                    continue
                if isinstance(v, Lin) and isinstance(a, Lin) and isinstance(n, Lin):
                    if not entails(s.facts, eq(a + n, A + N)):
                        vd = verdict(s.facts, eq(a + n, A + N))
                        d = a + n - A - N
                        if d.is_const() or vd == 'bad' or set(a.atoms()) & set(d.atoms()):
                            bad = 'the last piece ends at %s instead of %s' % (show_any(a + n), show_any(A + N))
                        else:
                            unk = 'end of the last piece not followed'
        stm(c, rid, f, bad, len(ps), unk, '')


def observed(c, P, rid):
    for m, ctr, post in (('tryRead', 'ctr_reads_', 'post_read_noti_'), ('tryWrite', 'ctr_writes_', 'post_write_noti_')):
        f = fn1(P, NODE + '::' + m)
        snap = {}

        def watch(I, st, e, snap=snap):
            if e.kind == 'call' and e.name.endswith('postNotification') and e.args:
                a = e.args[0]
                if isinstance(a, tuple) and a[0] in ('REF', 'R'):
                    s = st.copy()
                    snap[id(e)] = (e, {k: I.load(s, fld(a[1], k), t) for k, t in (
                        ('addr', 'u64'), ('size', 'u64'), ('data', '*u8'), ('prior', '*u8'), ('tried', '*u8'), ('in_supplement', '*void'))})
        c0 = cfg(f, opaque=LEAF + [DBG + '::tryPeek', DBG + '::doesAccessSpan', DBG + '::isInAccessWindows'], watch=watch)
        I, ps = run(c, P, f, rid, c0)
        if ps is None:
            continue
        bad = unk = None
        A = sig(I, f)
        seen = 0
        for p in ps:
            es = p.events()
            inc = [e for e in es if e.kind == 'call' and 'Counter' in e.name and 'operator+' in e.name.rsplit('::', 1)[-1]]
            if p.outcome == 'ret':
                if [show_any(e.obj) for e in inc].count('*(this.%s)' % ctr) != 1 or len(inc) != 1:
                    bad = 'an attempt is counted %s' % ([show_any(e.obj) for e in inc] or 'not at all')
            posts = [i for i, e in enumerate(es) if e.kind == 'call' and e.name.endswith('postNotification')]
            li = [i for i, e in enumerate(es) if e in leafs(es, m + '_')]
            ok = None
            if li:
                r = [y for x in p.st.facts for y, k in x[1].t if m + '_(' in show_any(Lin(0, ((y, 1),)))]
                for y in r:
                    Y = Lin(0, ((y, 1),))
                    ok = True if entails(p.st.facts, ('ne', Y)) else False if entails(p.st.facts, ('eq', Y)) else ok
            ob = [y for x in p.st.facts for y, k in x[1].t if 'observed(' in show_any(Lin(0, ((y, 1),)))]
            obs = any(entails(p.st.facts, ('ne', Lin(0, ((y, 1),)))) for y in ob)
            if posts:
                seen += 1
                if len(posts) > 1:
                    bad = 'observers are told twice'
                if not li or posts[0] < li[0]:
                    bad = 'observers are told before the access'
                elif ok is False:
                    bad = 'observers are told of a failed access'
                elif ok is None:
                    bad = 'observers are told whether or not the access succeeded'
                if show_any(es[posts[0]].obj).find(post) < 0:
                    bad = 'the observers of %s are told' % show_any(es[posts[0]].obj)
                e, d = snap.get(id(es[posts[0]]), (None, None))
                if d is None:
                    unk = 'what observers are told is not followed'
                    continue
                want = {'addr': A[0], 'size': A[1], 'in_supplement': A[3]}
                want['data' if m == 'tryRead' else 'tried'] = A[2]
                for k, w in want.items():
                    if not (isinstance(d[k], Lin) and entails(p.st.facts, eq(d[k], w))):
                        bad = 'observers see %s for %s' % (show_any(d[k]), k)
                if m == 'tryWrite':
                    pk = [i for i, e in enumerate(es) if e.kind == 'call' and e.name.rsplit('::', 1)[-1] in ('tryPeek', 'peek', 'tryPeek_')]
                    if not pk:
                        bad = 'the data before the write is not taken'
                    else:
                        k = es[pk[0]]
                        if li and pk[0] > li[0]:
                            bad = 'the data before the write is taken after it'
                        if not (entails(p.st.facts, eq(k.args[0], A[0])) and entails(p.st.facts, eq(k.args[1], A[1]))):
                            bad = 'the data before the write is taken from %s' % show_any(k.args[0])
                        if isinstance(d['prior'], Lin) and isinstance(k.args[2], Lin) and not entails(p.st.facts, eq(d['prior'], k.args[2])):
                            bad = 'observers see %s as the data before' % show_any(d['prior'])
            elif p.outcome == 'ret' and obs and ok:
                bad = 'observers are not told of a successful access'
        if not seen and not bad:
            bad = 'observers are never told'
        stm(c, rid, f, bad, len(ps), unk, '')


AD = 'sparta::ArchData'
LINE = AD + '::Line'
OBJ, ONODE, DMI = MEM + 'MemoryObject', MEM + 'BlockingMemoryObjectIFNode', MEM + 'DMIBlockingMemoryIF'
LM = ['sparta::TieredMap*']
COPY = ('memcpy', 'memmove', 'copy', 'copy_n', '__builtin_memcpy', '__builtin_memmove')


def copies(p):
    """[(destination, source, size)] of the block copies of a path; None: there are copies in another form"""
    out = []
    for e in p.events():
        s = e.name.rsplit('::', 1)[-1] if e.kind == 'call' else ''
        if s in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove'):
            out.append((e.args[0], e.args[1], e.args[2]))
        elif s == 'copy_n' and len(e.args) == 3:
            out.append((e.args[2], e.args[0], e.args[1]))
        elif s == 'copy' and len(e.args) == 3 and isinstance(e.args[0], Lin) and isinstance(e.args[1], Lin):
            out.append((e.args[2], e.args[0], e.args[1] - e.args[0]))
    return out


def refv(I, p, a, ty='u64'):
    """the value behind a reference argument"""
    if isinstance(a, tuple) and a[0] == 'REF' and len(a) > 2:
        return a[2]
    if isinstance(a, tuple) and a[0] in ('REF', 'R'):
        return I.load(p.st.copy(), a[1], ty)
    return a


def same_copy(p, got, want):
    """None: the copy is the one wanted; else a description"""
    for g, w, t in zip(got, want, ('destination', 'source', 'size')):
        if not isinstance(g, Lin):
            return 'the %s of the copy is %s' % (t, show_any(g))
        if not entails(p.st.facts, eq(g, w)):
            d = g - w
            if d.is_const() and d.c % (1 << 64) == 0:
                continue
            return 'the %s of the copy is %s instead of %s' % (t, show_any(g), show_any(w))
    return None


def one_copy(c, P, rid, f, want, ret=None, facts=(), **kw):
    """every returning path makes exactly the wanted copy"""
    I, ps = run(c, P, f, rid, cfg(f, **kw), facts=tuple(facts))
    if ps is None:
        return None, None
    bad = unk = None
    W = want(I)
    for p in ps:
        if p.outcome == 'throw':
            if any(copies(p)):
                bad = 'throws after copying'
            continue
        if p.outcome != 'ret':
            continue
        cs = copies(p)
        if len(cs) != 1:
            if not cs and (I.loopinfo or any(e.kind == 'icall' for e in p.events())):
                unk = 'bytes are not copied as a block'
            elif len(cs) > 1:
                unk = 'copied in %d pieces' % len(cs)
            else:
                bad = 'nothing is copied; ' + path_show(p)[:200]
            continue
        b = same_copy(p, cs[0], W)
        bad = bad or b
        if ret is not None and not (isinstance(p.ret, Lin) and entails(p.st.facts, eq(p.ret, const(ret)))):
            bad = bad or 'answers %s' % show_any(p.ret)
    stm(c, rid, f, bad, len(ps), unk, '')
    return I, ps


def data_locs(x, base, out, d=0):
    """locations inside the array base that occur in x"""
    if isinstance(x, Lin):
        for a, _ in x.t:
            data_locs(atom_key(a), base, out, d + 1)
    elif isinstance(x, tuple) and d < 14:
        if len(x) == 3 and x[0] == 'i' and x[1] == base:
            out.append(x)
            return out
        for y in x:
            if isinstance(y, (tuple, Lin)):
                data_locs(y, base, out, d + 1)
    return out


SZ = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'f32': 4, 'f64': 8}


def element(c, P, rid, m):
    """typed accesses of a line: the element lies inside the line"""
    for f in [g for g in fns(P, LINE + '::' + m) if g.params and g.params[0][1] == 'offset' and not any(t.startswith('*') for _, _, t in g.params)]:
        if m == 'read':
            n = SZ.get(bare(f.ret))
        else:
            n = SZ.get(bare(f.params[1][2]).replace('&', '').replace('c ', '').strip())
        if n is None:
            continue
        I, ps = run(c, P, f, rid, cfg(f, wrap=True))
        if ps is None:
            continue
        bad = unk = None
        idx = [i for i, q in enumerate(f.params) if q[1] == 'idx']
        o = par(I, St(), f, 0)
        k = par(I, St(), f, idx[0]) if idx else ZERO
        size = init(F('size_'))
        for p in ps:
            base = None
            d = p.st.store.get(F('data_'))
            base = norm_loc(at(init(F('data_'), '*u8'))) if d is None else norm_loc(at(d))
            locs = []
            data_locs(p.ret, base, locs)
            wr = []
            for e in p.events():
                for x in e.args:
                    data_locs(x, base, locs)
                if e.kind == 'write':
                    q = data_locs(e.obj, base, [])
                    wr += q
                    locs += q
            if p.outcome == 'throw' and wr:
                bad = 'throws after writing'
            if p.outcome != 'ret':
                if p.outcome == 'throw':
                    t = p.st.copy()
                    if t.add(le(o + k.scale(n) + n, size)) and t.add(le(size, const(MAX64))) and t.add(le(k, const((1 << 32) - 1))) and t.add(le(o, const(MAX64))) and all(stable(x[1]) for x in t.facts):
                        bad = 'refuses an element inside the line; ' + path_show(p)[:300]
                continue
            if m == 'write' and not wr or not locs:
                unk = 'the element is not followed'
                continue
            for l in locs:
                x = l[2] if isinstance(l[2], Lin) else None
                if x is None:
                    unk = 'position not followed'
                    continue
                for fact in (le(ZERO, x), le(x + n, size)):
                    v = verdict(frozenset(p.st.facts) | {norm_fact(('le', size - MAX64))}, fact)
                    if v == 'bad':
                        bad = 'accesses byte %s of the line although %s may not hold; %s' % (show_any(x), show_fact(norm_fact(fact)), path_show(p)[:300])
                    elif v == 'unknown':
                        unk = 'bounds not decided'
                w = o + k.scale(n)
                dd = x - w
                if not (dd.is_const() and dd.c % (1 << 64) == 0) and not entails(p.st.facts, eq(x, w)):
                    bad = bad or 'accesses byte %s instead of %s' % (show_any(x), show_any(w))
        stm(c, rid, f, bad, len(ps), unk, '%d' % n)


def M02(c):
    P = c.program('inst/mem.cpp')
    r1 = c.rule('bytes', 'reading or writing a line moves exactly the requested bytes at the requested place, in the right direction, and only when they all lie inside the line', 6)
    r2 = c.rule('dirty', 'every way of changing the bytes of a line leaves it flagged as changed; only saving or restoring it clears the flag', 6)
    r3 = c.rule('line', 'an offset is served by the line whose index is the offset divided by the line size, created at index times line size and kept under that index', 3)
    r4 = c.rule('object', 'a memory object moves the bytes between the line that holds the address and the buffer, at the address\' place in that line, and reads its fill pattern where nothing was written', 2)
    r5 = c.rule('node', 'the interface of a memory object passes every access on to the object unchanged', 4)
    r6 = c.rule('dmi', 'a direct pointer addresses the bytes of the block that holds the address, is refused across blocks, and is unusable once invalidated', 8)
    r7 = c.rule('accept', 'an access is accepted exactly when it lies inside one line and inside the data', 2)
    if hint(c, P, LINE, 'data_', 'size_', 'dirty_'):
        line_bytes(c, P, r1, r2)
    if hint(c, P, AD, 'line_map_', 'line_lsb_', 'size_', 'line_size_'):
        lines(c, P, r3)
        accept(c, P, r7)
    objects(c, P, r4, r5)
    dmi(c, P, r6)


def line_bytes(c, P, r1, r2):
    data, size = init(F('data_'), '*u8'), init(F('size_'))
    for m, wr in (('read', False), ('write', True)):
        for f in fns(P, LINE + '::' + m):
            if len(f.params) != 3 or not f.params[2][2].startswith('*'):
                continue

            def want(I, f=f, wr=wr):
                o, n, b = [par(I, St(), f, i) for i in range(3)]
                return (data + o, b, n) if wr else (b, data + o, n)
            one_copy(c, P, r1, f, want, wrap=True)
            iff(c, P, r1, f, lambda I, f: [le(par(I, St(), f, 0) + par(I, St(), f, 1), size)], 'line', [le(size, const(MAX64))], 'check')
        element(c, P, r1, m)
    # everything that changes the bytes flags the line
    seen = 0
    for f in [g for g in P.methods(LINE) if g.body is not None and g.short not in ('Line', '~Line')]:
        I, ps = run(c, P, f, r2, cfg(f, opaque=[AD + '::fillValue', 'sparta::serialization*'] + LM))
        if ps is None:
            continue
        bad = None
        touched = cleared = 0
        for p in ps:
            if p.outcome != 'ret':
                continue
            d = p.st.store.get(F('dirty_'))
            t = w = False
            for e in p.events():
                s = e.name.rsplit('::', 1)[-1] if e.kind == 'call' else ''
                if s in COPY and any(entails(p.st.facts, x) for x in ()):
                    pass
                if s in ('memcpy', 'memmove', 'fillValue', 'memset', 'copyLineBytes', 'read') and e.args and isinstance(e.args[0], Lin) and any('data_' == getattr(k, 'name', None) or 'this.data_' in show_any(Lin(0, ((k, 1),))) for k, _ in e.args[0].t):
                    t = True
                if e.kind == 'write' and '*(this.data_)' in show_any(e.obj):
                    t = True
                if s in ('copyLineBytes', 'writeLineBytes'):
                    w = True
            cl = isinstance(d, Lin) and d == ZERO
            if t and not w:
                touched = 1
                if not (isinstance(d, Lin) and entails(p.st.facts, ('ne', d))):
                    bad = 'changes the bytes without flagging the line; ' + path_show(p)[:300]
            if cl and not w:
                bad = 'clears the flag although the bytes were neither saved nor restored; ' + path_show(p)[:300]
            if w:
                touched = 1
                whole = [e for e in p.events() if e.kind == 'call' and e.name.rsplit('::', 1)[-1] in ('copyLineBytes', 'writeLineBytes')]
                for e in whole:
                    if len(e.args) < 2 or not (isinstance(e.args[0], Lin) and isinstance(e.args[1], Lin)):
                        continue
                    if not entails(p.st.facts, eq(e.args[0], data)) or not entails(p.st.facts, eq(e.args[1], size)) and show_any(e.args[1]) != '<trunc 32 this.size_>':
                        bad = 'transfers %s bytes at %s instead of the whole line' % (show_any(e.args[1]), show_any(e.args[0]))
        if touched or bad:
            seen += 1
            stm(c, r2, f, bad, len(ps), None, '')
    if P.find(LINE + '::isDirty'):
        f = fn1(P, LINE + '::isDirty')
        I, ps = run(c, P, f, r2)
        bad = None
        for p in ps or ():
            t = p.st.copy()
            if p.outcome == 'ret' and isinstance(p.ret, Lin) and t.add(('ne', init(F('dirty_')))) and t.add(('eq', p.ret)):
                bad = 'a flagged line is not dirty'
        stm(c, r2, f, bad, len(ps or ()), None, '')


def lines(c, P, rid):
    for m in ('getLine', 'tryGetLine'):
        f = fn1(P, AD + '::' + m)
        snap = {}
        I, ps = run(c, P, f, rid, cfg(f, wrap=True, opaque=LM + [AD + '::allocateLine_'], watch=arg_texts(snap)))
        if ps is None:
            continue
        bad = unk = None
        o, size = par(I, St(), f, 0), init(F('size_'))
        for p in ps:
            inside = entails(p.st.facts, lt(o, size))
            if p.outcome == 'throw':
                t = p.st.copy()
                if t.add(lt(o, size)) and not any(e.kind == 'call' for e in p.events()):
                    bad = 'refuses an offset inside the data'
                continue
            if p.outcome != 'ret':
                continue
            if not inside:
                bad = 'serves an offset outside of the data; ' + path_show(p)[:300]
            es = [e for e in p.events() if e.kind == 'call']
            for e in es:
                s = e.name.rsplit('::', 1)[-1]
                if s in ('find', 'allocateLine_', 'operator[]') and e.args:
                    a = e.args[0]
                    a = refv(I, p, a)
                    if not isinstance(a, Lin):
                        unk = 'index not followed'
                        continue
                    x = show_any(a)
                    if x not in ('(arg:offset>>this.line_lsb_)', '(arg:%s>>this.line_lsb_)' % f.params[0][1]):
                        if '>>' in x and 'line_lsb_' in x or a == o or a.is_const():
                            bad = 'looks for line %s' % x
                        else:
                            unk = 'index %s' % x
            r = show_any(p.ret)
            if not re.search(r'allocateLine_|find\(|operator\[\]', r):
                if m == 'tryGetLine' and isinstance(p.ret, Lin) and p.ret == ZERO:
                    fd = [x for x in p.st.facts if 'find(' in show_fact(x)]
                    if fd and any(entails(p.st.facts, ('ne', Lin(0, ((y, 1),)))) for x in fd for y, k in x[1].t if 'find(' in show_any(Lin(0, ((y, 1),)))):
                        bad = 'reports no line although there is one'
                else:
                    unk = 'result %s' % r[:100]
        stm(c, rid, f, bad, len(ps), unk, '')
    al = P.find(AD + '::allocateLine_')
    if al:
        f = al[0]
        I, ps = run(c, P, f, rid, cfg(f, opaque=LM + [LINE + '::Line']))
        if ps is not None:
            bad = unk = None
            i, ls = par(I, St(), f, 0), init(F('line_size_'))
            for p in ps:
                if p.outcome != 'ret':
                    continue
                ct = [e for e in p.events() if e.kind in ('ctor', 'call') and e.name in (LINE, LINE + '::Line')]
                if len(ct) != 1 or len(ct[0].args) < 5:
                    unk = 'construction of the line not followed'
                    continue
                a = ct[0].args
                if entails(p.st.facts, ne(ls, ZERO)) or entails(p.st.facts, le(ONE, ls)):
                    want = [i, None, ls, init(F('initial_')), None]
                    for g, w, t in zip(a, want, ('index', '', 'size', 'fill', '')):
                        if w is not None and isinstance(g, Lin) and not entails(p.st.facts, eq(g, w)):
                            bad = 'the new line has %s %s instead of %s' % (t, show_any(g), show_any(w))
                    x = show_any(a[1])
                    if not re.match(r'^\((arg:\w+\*this\.line_size_|this\.line_size_\*arg:\w+)\)$', x):
                        if isinstance(a[1], Lin) and (a[1].is_const() or a[1] == i or a[1] == ls):
                            bad = 'the new line is at offset %s' % x
                        elif re.search(r'\(arg:\w+\*this\.line_size_\)', x) and isinstance(a[1], Lin) and a[1].c:
                            bad = 'the new line is at offset %s' % x
                        else:
                            unk = 'offset of the new line: %s' % x
                put = [e for e in p.events() if e.kind == 'call' and e.name.startswith('sparta::TieredMap') and e.name.rsplit('::', 1)[-1] in ('operator[]', 'insert', 'emplace')]
                if not put:
                    bad = 'the new line is not kept'
                else:
                    k = refv(I, p, put[-1].args[0])
                    if isinstance(k, Lin) and not entails(p.st.facts, eq(k, i)):
                        bad = 'the new line is kept under index %s' % show_any(k)
            stm(c, rid, f, bad, len(ps), unk, '')


def accept(c, P, rid):
    """the mask of the line size selects the start of the line"""
    for m, full in (('checkInSingleLine', False), ('checkCanAccess', True)):
        f = fn1(P, AD + '::' + m)
        I, ps = run(c, P, f, rid, cfg(f, wrap=True))
        if ps is None:
            continue
        o, n = par(I, St(), f, 0), par(I, St(), f, 1)
        ls, size = init(F('line_size_')), init(F('size_'))
        ands = {a for p in ps for x in p.st.facts for a, _ in x[1].t if show_any(Lin(0, ((a, 1),))) in ('(arg:%s&this.line_mask_)' % f.params[0][1],)}
        if len(ands) != 1:
            stm(c, rid, f, None, len(ps), 'the start of the line is not computed with the mask', '')
            continue
        q = Lin(0, ((next(iter(ands)), 1),))
        conj = [le(o - q + n, ls)] + ([le(o + n, size)] if full else [])
        iff(c, P, rid, f, lambda I, f: conj, 'access', [le(size, const(MAX64)), le(ls, const(MAX64)), le(q, o), le(o - q + 1, ls), le(ONE, n)], 'check')


def objects(c, P, r4, r5):
    leaf = LM + [AD + '::getLine', AD + '::tryGetLine', AD + '::fillValue', AD + '::checkCanAccess', LINE + '::read', LINE + '::write']
    for m, wr in (('read', False), ('write', True)):
        f = fn1(P, OBJ + '::' + m)
        I, ps = run(c, P, f, r4, cfg(f, opaque=leaf))
        if ps is None:
            continue
        bad = unk = None
        a, n, b = [par(I, St(), f, i) for i in range(3)]
        for p in ps:
            if p.outcome != 'ret':
                continue
            es = [e for e in p.events() if e.kind == 'call']
            get = [e for e in es if e.name.rsplit('::', 1)[-1] in ('getLine', 'tryGetLine')]
            acc = [e for e in es if e.name in (LINE + '::read', LINE + '::write')]
            fill = [e for e in es if e.name == AD + '::fillValue']
            for e in get:
                if isinstance(e.args[0], Lin) and not entails(p.st.facts, eq(e.args[0], a)):
                    bad = 'the line of %s is used' % show_any(e.args[0])
            if wr and any(e.name.endswith('::tryGetLine') for e in get) and not any(e.name.endswith('::getLine') for e in get) and not acc:
                bad = 'a write to a line that does not exist yet is lost'
            if len(acc) > 1:
                bad = 'the line is accessed %d times' % len(acc)
            elif acc:
                e = acc[0]
                if (e.name == LINE + '::write') != wr:
                    bad = 'the data is moved the wrong way'
                    continue
                lo = I.load(p.st.copy(), fld(e.obj, 'offset_'), 'u64')
                if not re.search(r'etLine\(', show_any(e.obj)):
                    unk = 'line not followed'
                    continue
                for g, w, t in zip(e.args, (a - lo, n, b), ('place', 'size', 'buffer')):
                    if isinstance(g, Lin) and not entails(p.st.facts, eq(g, w)):
                        d = g - w
                        if re.search(r'[&%]|<mod', show_any(g)):
                            unk = 'the %s is %s' % (t, show_any(g))
                        elif not (d.is_const() and d.c % (1 << 64) == 0):
                            bad = 'the %s is %s instead of %s' % (t, show_any(g), show_any(w))
            elif wr:
                bad = 'nothing is written; ' + path_show(p)[:200]
            elif not fill:
                bad = 'the buffer is not filled; ' + path_show(p)[:200]
            else:
                g = fill[0].args
                if not entails(p.st.facts, eq(g[0], b)):
                    bad = 'fills %s instead of the buffer' % show_any(g[0])
                if show_any(g[1]) not in ('arg:%s' % f.params[1][1], '<trunc 32 arg:%s>' % f.params[1][1]):
                    bad = 'fills %s bytes' % show_any(g[1])
                if isinstance(g[2], Lin) and not entails(p.st.facts, eq(g[2], init(F('initial_')))):
                    bad = 'fills with %s' % show_any(g[2])
                if not any(e.name.endswith('checkCanAccess') for e in es):
                    bad = 'bytes that were never written are not checked to be inside the object'
        stm(c, r4, f, bad, len(ps), unk, '')
    for m in ('tryRead_', 'tryPeek_', 'tryWrite_', 'tryPoke_'):
        f = fn1(P, ONODE + '::' + m)
        I, ps = run(c, P, f, r5, cfg(f, opaque=[OBJ + '::read', OBJ + '::write'] + leaf))
        if ps is None:
            continue
        bad = unk = None
        for p in ps:
            if p.outcome != 'ret':
                continue
            es = [e for e in p.events() if e.kind == 'call' and e.name in (OBJ + '::read', OBJ + '::write')]
            t = isinstance(p.ret, Lin) and entails(p.st.facts, ('ne', p.ret))
            if not es:
                if t:
                    bad = 'reports success without any access'
                continue
            if len(es) > 1:
                bad = 'the object is accessed %d times' % len(es)
            if es[0].name.endswith('write') != (m in ('tryWrite_', 'tryPoke_')):
                bad = 'the data is moved the wrong way'
            bad = bad or passes(P, p, es[0], f, I, 3)
            if 'binding_' not in show_any(es[0].obj) and has_field(P, ONODE, 'binding_'):
                unk = 'another object'
            if not t:
                bad = bad or 'answers %s after the access' % show_any(p.ret)
        stm(c, r5, f, bad, len(ps), unk, '')


def dmi(c, P, rid):
    if hint(c, P, DMI, 'raw_pointer_', 'start_addr_', 'valid_'):
        raw, st0 = init(F('raw_pointer_'), '*void'), init(F('start_addr_'))
        for m in ('tryRead_', 'tryPeek_', 'tryWrite_', 'tryPoke_'):
            f = fn1(P, DMI + '::' + m)
            wr = m in ('tryWrite_', 'tryPoke_')

            def want(I, f=f, wr=wr):
                a, n, b = [par(I, St(), f, i) for i in range(3)]
                h = raw + a - st0
                return (h, b, n) if wr else (b, h, n)
            one_copy(c, P, rid, f, want, 1)
        for m in ('tryRead', 'tryWrite'):
            f = fn1(P, DMI + '::' + m)
            I, ps = run(c, P, f, rid, cfg(f, opaque=LEAF + [BLK + '::' + m]), facts=[eq(init(F('valid_')), ZERO)])
            bad = None
            for p in ps or ():
                if [e for e in p.events() if e.kind == 'call' and e.name.rsplit('::', 1)[-1] in (m, m + '_')]:
                    bad = 'an invalidated pointer is still used'
                elif p.outcome == 'ret' and not entails(p.st.facts, eq(p.ret, ZERO)):
                    bad = 'succeeds through an invalidated pointer'
            I, ps = run(c, P, f, rid, cfg(f, opaque=LEAF + [BLK + '::' + m]), facts=[eq(init(F('valid_')), ONE)])
            for p in ps or ():
                es = [e for e in p.events() if e.kind == 'call' and e.name.rsplit('::', 1)[-1] in (m,)]
                if p.outcome == 'ret' and len(es) != 1 and not leafs(p.events(), m + '_'):
                    bad = bad or 'a valid pointer is not used'
                elif es:
                    bad = bad or passes(P, p, es[0], f, I, 5)
                    if e_ret(es[0], p) is False:
                        bad = bad or 'answers %s' % show_any(p.ret)
            stm(c, rid, f, bad, len(ps or ()), None, '')
        f = fn1(P, DMI + '::getRawDataPtr')
        I, ps = run(c, P, f, rid)
        bad = None
        for p in ps or ():
            if p.outcome == 'ret' and not entails(p.st.facts, ('ne', init(F('valid_')))):
                bad = 'hands out an invalidated pointer'
        stm(c, rid, f, bad, len(ps or ()), None, '')
    f = fn1(P, ONODE + '::invalidateAllDMI')
    I, ps = run(c, P, f, rid)
    if ps is not None:
        bad = unk = None
        norm(I)
        infos = [i for i in I.loopinfo if i['elem'] is not None and 'dmi_ifs_' in show_any(i['elem'])]
        if not infos:
            unk = 'no loop over the pointers'
            if not I.loopinfo and not any(e.kind in ('call', 'icall') for p in ps for e in p.events()):
                bad = 'not every pointer is made invalid'
        for i in infos:
            if i['breaks'] or i['rets']:
                bad = 'stops before all pointers are invalid'
            for e in i['ends']:
                w = [x for x in e.events()[len(i['head'].events()):] if x.kind == 'write' and x.name == 'valid_']
                if not w or not all(isinstance(x.args[0], Lin) and x.args[0] == ZERO for x in w):
                    bad = 'a pointer stays valid'
        if not [p for p in ps if p.outcome == 'ret']:
            unk = 'no normal path'
        stm(c, rid, f, bad, len(ps), unk, '')
    f = fn1(P, ONODE + '::getDMI')
    so = evals(P, fn1(P, DBG + '::doesAccessSpan'), args=None)
    I, ps = run(c, P, f, rid, cfg(f, wrap=True, opaque=[AD + '::getLine', DMI + '::DMIBlockingMemoryIF', AD + '::tryGetLine']))
    if ps is None:
        return
    bad = unk = None
    so = evals(P, fn1(P, DBG + '::doesAccessSpan'), args=[par(I, St(), f, 0), par(I, St(), f, 1)])
    aligned = '(arg:%s&this.block_mask_)' % f.params[0][1]
    for p in ps:
        if p.outcome != 'ret':
            continue
        none = isinstance(p.ret, Lin) and entails(p.st.facts, eq(p.ret, ZERO))
        if none:
            q = possible(p.st.facts, so, True)
            if q and not any(e.kind in ('call', 'ctor', 'new') for e in p.events()) and not any('valid_' in show_fact(x) or 'isInAccess' in show_fact(x) or 'acc_windows_' in show_fact(x) or 'size' in show_fact(x) and 'block_size_' in show_fact(x) for x in p.st.facts):
                bad = 'refuses a block although the range does not span blocks'
            continue
        if possible(p.st.facts, so, False):
            bad = 'hands out a pointer for a range that spans blocks; ' + path_show(p)[:300]
        ct = [e for e in p.events() if e.kind in ('ctor', 'call') and e.name in (DMI, DMI + '::DMIBlockingMemoryIF')]
        get = [e for e in p.events() if e.kind == 'call' and e.name == AD + '::getLine']
        if ct:
            if not get:
                unk = 'line not followed'
                continue
            ga = get[0].args[0]
            if show_any(ga) not in (aligned, 'arg:' + f.params[0][1]):
                bad = 'the line of %s is used' % show_any(ga)
            if 'binding_' not in show_any(get[0].obj):
                unk = 'another object'
            L = re.search(r'etLine\(', show_any(ct[0].args[0]))
            a = ct[0].args
            if not all(isinstance(x, Lin) for x in a[:3]):
                unk = 'pointer not followed'
                continue
            t = [show_any(x) for x in a[:3]]
            if not L:
                bad = 'the pointer is to %s' % t[0]
            for x, w in zip(t, ('data_', 'offset_', 'size_')):
                if not re.match(r'^\*\((getLine\(.*)\)\.%s$' % w, x) and not (w == 'offset_' and x == aligned):
                    if re.match(r'^\*\((getLine\(.*)\)\.\w+$', x) or x.lstrip('-').isdigit() or 'etLine' in x or x == 'arg:' + f.params[0][1]:
                        bad = 'the pointer is built with %s for %s of the line' % (x, w)
                    else:
                        unk = 'pointer built with %s' % x
            ins = [e for e in p.events() if e.kind == 'cont' and e.name in ('insert', 'emplace', 'index', 'try_emplace', 'insert_or_assign') and 'dmi_ifs_' in show_any(e.obj)]
            if not ins:
                bad = 'the pointer is not remembered: it would never be invalidated'
        else:
            v = [x for x in p.st.facts if 'valid_' in show_fact(x)]
            if not any(entails(p.st.facts, ('ne', Lin(0, ((y, 1),)))) for x in v for y, k in x[1].t if 'valid_' in show_any(Lin(0, ((y, 1),)))):
                bad = 'hands out a pointer that may have been invalidated; ' + path_show(p)[:300]
            if aligned not in show_any(p.ret) and 'arg:' in show_any(p.ret):
                bad = 'hands out the pointer of another block: ' + show_any(p.ret)
    stm(c, rid, f, bad, len(ps), unk, '')


MAP, MNODE = MEM + 'SimpleMemoryMap', MEM + 'SimpleMemoryMapNode'


def M03(c):
    P = c.program('inst/mem.cpp')
    r1 = c.rule('accepted', 'a mapping is added only when it is not empty, aligned to blocks, inside its destination and apart from every other mapping; it is then kept with the range and destination given', 2)
    r2 = c.rule('found', 'a mapping found for an address contains it; the search for it moves below a separator or mapping only if the address is below, above only if it is not', 2)
    r3 = c.rule('mapped', 'an address maps to its distance from the start of the mapping, from the start of the destination', 2)
    r4 = c.rule('single', 'an access is said to have a mapping only if one mapping contains all of it', 1)
    r5 = c.rule('forward', 'an access through the map reaches the destination of its address at the mapped address, with the same size, buffer and supplements, and gives its answer; without a mapping it is refused', 7)
    if hint(c, P, MAP + '::Mapping', 'start', 'end', 'dest_off', 'memif'):
        adding(c, P, r1)
        searching(c, P, r2, r4)
        translating(c, P, r3)
        forwarding(c, P, r5)


def adding(c, P, rid):
    f = fn1(P, MAP + '::addMapping')
    I, ps = run(c, P, f, rid, cfg(f, wrap=True, opaque=[MAP + '::RBTreeFixup_', MAP + '::findSeparatorNode_']))
    if ps is None:
        return
    s, e, m, d = [par(I, St(), f, i) for i in range(4)]
    nm = [q[1] for q in f.params]
    bad = unk = None
    mem = norm_loc(at(m))
    for p in ps:
        eff = [x for x in p.events() if x.kind in ('write', 'new', 'cont') and not show_any(x.obj).startswith('tmp')]
        if p.outcome not in ('ret', 'throw') or (p.outcome == 'throw' and not eff):
            continue
        fs = p.st.facts
        rng = init(fld(mem, 'total_range_'))
        conds = [(ne(m, ZERO), 'without a destination'), (lt(s, e), 'that is empty or reversed'),
                 (le(e - s + d, rng), 'that reaches beyond its destination')]
        if has_field(P, MAP, 'block_size_') and has_field(P, DBG, 'block_size_'):
            conds.append((eq(init(fld(mem, 'block_size_')), init(F('block_size_'))), 'whose destination has other blocks'))
        for fact, what in conds:
            if not entails(fs, fact):
                v = verdict(fs, fact)
                if v == 'bad':
                    bad = 'accepts a mapping %s; %s' % (what, path_show(p)[:300])
                else:
                    unk = 'not decided: a mapping ' + what
        for x, t in ((s, nm[0]), (e, nm[1]), (d, nm[3])):
            at_ = {a for k, L in fs for a, _ in L.t if re.match(r'^\(arg:%s&|^<mod arg:%s |^\(arg:%s>>' % (t, t, t), show_any(Lin(0, ((a, 1),))))}
            if not at_:
                bad = bad or 'accepts a mapping whose %s is not aligned to blocks' % t
            elif not any(entails(fs, ('eq', Lin(0, ((a, 1),)))) for a in at_):
                if any(verdict(fs, ('eq', Lin(0, ((a, 1),)))) == 'bad' for a in at_):
                    bad = bad or 'accepts a mapping whose %s may not be aligned to blocks' % t
                else:
                    unk = 'alignment of %s not decided' % t
        if p.outcome == 'ret':
            ct = [x for x in p.events() if x.kind == 'ctor' and x.name == MAP + '::Mapping']
            for x in ct:
                for g, w, t in zip(x.args, (s, e, m, d), nm):
                    if isinstance(g, Lin) and not entails(fs, eq(g, w)):
                        bad = bad or 'the mapping is kept with %s as its %s' % (show_any(g), t)
            if not ct:
                unk = unk or 'construction of the mapping not followed'
            put = [x for x in p.events() if x.kind == 'cont' and x.name in ('push_back', 'emplace_back', 'insert') and 'mappings_' in show_any(x.obj)]
            if not put and has_field(P, MAP, 'mappings_'):
                bad = bad or 'the mapping is not kept among the mappings'
            n = p.st.store.get(F('num_mappings_'))
            if has_field(P, MAP, 'num_mappings_') and not (isinstance(n, Lin) and entails(fs, eq(n, init(F('num_mappings_')) + 1))) and not (n is not None and not isinstance(n, Lin)):
                if any(x.kind == 'call' and x.name.startswith(MAP) for x in p.events()) and n is not None and not stable(n - init(F('num_mappings_'))):
                    unk = unk or 'number of mappings not followed'
                else:
                    bad = bad or 'the number of mappings becomes %s' % show_any(n)
    # every existing mapping is apart from the new one
    norm(I)
    loops = [i for i in I.loopinfo if i['cont'] is not None and 'mappings_' in show_any(Lin_show(i['cont']))]
    if not loops:
        unk = unk or 'no loop over the mappings'
    for i in loops:
        if i['breaks'] or [x for x in i['rets'] if x[0] == 'ret']:
            bad = bad or 'does not look at all the mappings'
        el = i['elem']
        for st in i['ends']:
            l = norm_loc(at(I.load(st.copy(), el, '*R:' + MAP + '::Mapping'))) if isinstance(el, tuple) else norm_loc(at(el))
            ms, me = I.load(st.copy(), fld(l, 'start'), 'u64'), I.load(st.copy(), fld(l, 'end'), 'u64')
            t = st.copy()
            if all(t.add(x) for x in (lt(ms, me), lt(s, e), lt(ms, e), lt(s, me))):
                bad = bad or 'accepts a mapping that overlaps another: ' + '; '.join(show_fact(x) for x in sorted(t.facts, key=show_fact) if '.start' in show_fact(x) or '.end' in show_fact(x))[:300]
    stm(c, rid, f, bad, len(ps), unk, '')
    f = fn1(P, MAP + '::Mapping::overlaps')
    A = lambda I, f: [par(I, St(), f, 0), par(I, St(), f, 1)]
    S_, E_ = init(F('start')), init(F('end'))
    a, b = A(I, f)
    iff(c, P, rid, f, lambda I, f: [lt(S_, A(I, f)[1]), lt(A(I, f)[0], E_)], 'overlap', [lt(S_, E_), lt(a, b)])


def Lin_show(x):
    return x


def searching(c, P, r2, r4):
    fs = [g for g in fns(P, MAP + '::findMapping') if g.body is not None]
    for f in fs:
        I, ps = run(c, P, f, r2)
        if ps is None:
            continue
        bad = unk = None
        a = par(I, St(), f, 0)
        norm(I)
        for p in ps:
            if p.outcome != 'ret':
                bad = 'throws'
                continue
            if isinstance(p.ret, Lin) and p.ret.is_const():
                continue
            if not isinstance(p.ret, Lin) or not p.ret.t:
                unk = 'result %s' % show_any(p.ret)
                continue
            if entails(p.st.facts, ('eq', p.ret)):
                continue
            l = norm_loc(at(p.ret))
            ms, me = I.load(p.st.copy(), fld(l, 'start'), 'u64'), I.load(p.st.copy(), fld(l, 'end'), 'u64')
            for fact, t in ((le(ms, a), 'begins after'), (lt(a, me), 'ends at or before')):
                if not entails(p.st.facts, fact):
                    dotdest = re.search(r"dest|''*$", show_any(p.ret))
                    if verdict(p.st.facts, fact) == 'bad' or dotdest and f.name.startswith(MAP):
                        bad = 'gives a mapping that %s the address; %s' % (t, path_show(p)[:300])
                    else:
                        unk = 'result not decided'
        b, u = directions(I, a)
        stm(c, r2, f, bad or b, len(ps), unk or u, '')
    f = fn1(P, MAP + '::verifyHasMapping')
    I, ps = run(c, P, f, r4, cfg(f, wrap=True))
    if ps is not None:
        bad = unk = None
        a, n = par(I, St(), f, 0), par(I, St(), f, 1)
        norm(I)
        for p in ps:
            if p.outcome != 'ret':
                continue
            cands = {at_ for k, L in p.st.facts for at_, _ in L.t}
            ok = False
            stl = [x for x in cands if re.search(r'\.start$', show_any(Lin(0, ((x, 1),))))]
            enl = [x for x in cands if re.search(r'\.end$', show_any(Lin(0, ((x, 1),))))]
            for x in stl:
                for y in enl:
                    X, Y = Lin(0, ((x, 1),)), Lin(0, ((y, 1),))
                    if show_any(X)[:-6] == show_any(Y)[:-4] and entails(p.st.facts, le(X, a)) and entails(p.st.facts, le(a + n, Y)):
                        ok = True
            if not ok:
                if stl or enl or not any('(' in show_any(Lin(0, ((x, 1),))) and 'find' in show_any(Lin(0, ((x, 1),))) for x in cands):
                    bad = 'accepts an access that one mapping may not contain; ' + path_show(p)[:400]
                else:
                    unk = 'acceptance not decided'
        b, u = directions(I, a)
        stm(c, r4, f, bad or b, len(ps), unk or u, '')


def directions(I, a):
    """the steps of a search in the tree: below only if the address is below"""
    bad = unk = None
    done = 0
    for i in I.loopinfo:
        h = i['head']
        for e in i['ends']:
            for k, v in e.store.items():
                if not isinstance(v, Lin) or v == h.store.get(k):
                    continue
                m = re.match(r"^\*\((\w+'+)\)\.(l|r)$", show_any(v))
                if not m:
                    continue
                done += 1
                ats = {x for kk, L in e.facts for x, _ in L.t}
                hi = [Lin(0, ((x, 1),)) for x in ats if re.search(r'\.start$|\.separator$', show_any(Lin(0, ((x, 1),))))]
                lo = [Lin(0, ((x, 1),)) for x in ats if re.search(r'\.end$|\.separator$', show_any(Lin(0, ((x, 1),))))]
                if m.group(2) == 'l':
                    ok = any(entails(e.facts, lt(a, x)) for x in hi)
                    wrong = hi or lo
                else:
                    ok = any(entails(e.facts, le(x, a)) for x in lo)
                    wrong = hi or lo
                if not ok:
                    t = 'moves %s in the tree although the address may not be %s; under %s' % (
                        'down' if m.group(2) == 'l' else 'up', 'below' if m.group(2) == 'l' else 'at or above',
                        '; '.join(show_fact(x) for x in sorted(e.facts, key=show_fact))[:300])
                    if wrong:
                        bad = t
                    else:
                        unk = t
    return bad, unk


def translating(c, P, rid):
    f = fn1(P, MAP + '::Mapping::mapAddress')
    I, ps = run(c, P, f, rid)
    bad = unk = None
    w = par(I, St(), f, 0) - init(F('start')) + init(F('dest_off')) if I else None
    for p in ps or ():
        if p.outcome != 'ret' or not isinstance(p.ret, Lin):
            unk = 'result'
        elif not entails(p.st.facts, eq(p.ret, w)):
            dd = p.ret - w
            if not (dd.is_const() and dd.c % (1 << 64) == 0):
                bad = 'maps to %s instead of %s' % (show_any(p.ret), show_any(w))
    stm(c, rid, f, bad, len(ps or ()), unk, '')
    f = fn1(P, MAP + '::Mapping::contains')
    iff(c, P, rid, f, lambda I, f: [le(init(F('start')), par(I, St(), f, 0)), lt(par(I, St(), f, 0), init(F('end')))], 'range')
    f = fn1(P, MAP + '::mapAddress')
    I, ps = run(c, P, f, rid, cfg(f, opaque=[MAP + '::findMapping']))
    if ps is None:
        return
    bad = unk = None
    a = par(I, St(), f, 0)
    for p in ps:
        if p.outcome != 'ret' or not (isinstance(p.ret, tuple) and p.ret[0] in ('R', 'REF')):
            unk = 'result'
            continue
        x, y = [unpair(I.load(p.st.copy(), fld(p.ret[1], k), 'u64')) for k in ('first', 'second')]
        fd = find_atom(p.st)
        if fd is None:
            unk = 'no search'
            continue
        if entails(p.st.facts, ('eq', fd)):
            if not (isinstance(x, Lin) and entails(p.st.facts, eq(x, ZERO))):
                bad = 'gives destination %s without a mapping' % show_any(x)
            continue
        l = norm_loc(at(fd))
        st = p.st.copy()
        w = [I.load(st, fld(l, 'memif'), 'u64'), a - I.load(st, fld(l, 'start'), 'u64') + I.load(st, fld(l, 'dest_off'), 'u64')]
        for g, ww, t in ((x, w[0], 'destination'), (y, w[1], 'address')):
            if isinstance(g, Lin) and isinstance(ww, Lin) and not entails(p.st.facts, eq(g, ww)):
                bad = 'gives %s %s instead of %s' % (t, show_any(g), show_any(ww))
    stm(c, rid, f, bad, len(ps), unk, '')


def unpair(v):
    """a member of a pair that was made from values"""
    if isinstance(v, Lin) and len(v.t) == 1 and not v.c:
        k = atom_key(v.t[0][0])
        if k[0] == 'fld' and len(k) == 3 and k[2] in ('first', 'second'):
            m = k[1]
            if isinstance(m, Lin) and len(m.t) == 1:
                m = atom_key(m.t[0][0])
            if isinstance(m, tuple) and m[0] == 'mk' and len(m) == 4:
                x = m[2 if k[2] == 'first' else 3]
                if isinstance(x, tuple) and x and x[0] == 'REF' and isinstance(x[-1], Lin):
                    x = x[-1]
                return x
    return v


def find_atom(st):
    for k, L in st.facts:
        if len(L.t) == 1 and 'findMapping(' in show_any(Lin(0, ((L.t[0][0], 1),))) and show_any(Lin(0, ((L.t[0][0], 1),))).startswith('findMapping('):
            return Lin(0, ((L.t[0][0], 1),))
    return None


def forwarding(c, P, rid):
    for m in ('tryRead_', 'tryWrite_', 'tryPeek_', 'tryPoke_', 'getDMI'):
        f = fn1(P, MNODE + '::' + m)
        t = m.rstrip('_')
        I, ps = run(c, P, f, rid, cfg(f, opaque=[MAP + '::findMapping', t]))
        if ps is None:
            continue
        bad = unk = None
        a = par(I, St(), f, 0)
        for p in ps:
            if p.outcome != 'ret':
                unk = 'throws'
                continue
            es = [e for e in p.events() if e.kind == 'call' and e.name.rsplit('::', 1)[-1] == t]
            fe = [e for e in p.events() if e.kind == 'call' and e.name == MAP + '::findMapping']
            fd = find_atom(p.st)
            if not fe or fd is None:
                if es:
                    unk = 'search not followed'
                elif not fe:
                    unk = 'no search'
                continue
            if not (isinstance(fe[0].args[0], Lin) and entails(p.st.facts, eq(fe[0].args[0], a))):
                bad = 'looks for the mapping of %s' % show_any(fe[0].args[0])
            if entails(p.st.facts, ('eq', fd)):
                if es or not (isinstance(p.ret, Lin) and entails(p.st.facts, eq(p.ret, ZERO))):
                    bad = 'answers %s without a mapping' % show_any(p.ret)
                continue
            l = norm_loc(at(fd))
            st = p.st.copy()
            S_, E_, D_ = [I.load(st, fld(l, k), 'u64') for k in ('start', 'end', 'dest_off')]
            if not es:
                q = p.st.copy()
                if q.add(le(S_, a)) and q.add(lt(a, E_)) and not [x for x in opaque_facts(p.st.facts) if 'findMapping' not in show_fact(x)]:
                    bad = 'does not pass the access on; ' + path_show(p)[:300]
                continue
            if len(es) > 1:
                bad = 'passes the access on %d times' % len(es)
            e = es[0]
            want = [a - S_ + D_] + [par(I, St(), f, i) for i in range(1, len(f.params))]
            for i, w in enumerate(want):
                g = e.args[i] if i < len(e.args) else None
                if isinstance(g, Lin) and isinstance(w, Lin) and not entails(p.st.facts, eq(g, w)):
                    bad = 'passes on %s as %s instead of %s' % (show_any(g), f.params[i][1], show_any(w))
                elif g is None and i < 3:
                    bad = 'does not pass on ' + f.params[i][1]
            mif = I.load(st, fld(l, 'memif'), '*R:' + BLK)
            if e.obj is not None and norm_loc(e.obj) != norm_loc(at(mif)):
                if show_any(e.obj) in ('this',):
                    bad = 'passes the access to itself'
                else:
                    unk = 'passed to ' + show_any(e.obj)
            if e_ret(e, p) is False:
                bad = 'answers %s instead of what the destination answered' % show_any(p.ret)
        stm(c, rid, f, bad, len(ps), unk, '')
    for m in ('read', 'write'):
        f = fn1(P, MNODE + '::' + m)
        tm = 'try' + m.capitalize()
        I, ps = run(c, P, f, rid, cfg(f, opaque=LEAF + [tm, MAP + '::verifyHasMapping']))
        if ps is None:
            continue
        bad = unk = None
        for p in ps:
            ls = leafs(p.events(), tm)
            if p.outcome not in ('ret', 'throw'):
                continue
            if len(ls) != 1:
                unk = 'not through ' + tm
                continue
            bad = bad or passes(P, p, ls[0], f, I, min(len(f.params), len(ls[0].args)))
            A = [Lin(0, ((y, 1),)) for x in p.st.facts for y, k in x[1].t if show_any(Lin(0, ((y, 1),))).startswith(tm + '(')]
            got = True if any(entails(p.st.facts, ('ne', y)) for y in A) else False if any(entails(p.st.facts, ('eq', y)) for y in A) else None
            if got is None or got != (p.outcome == 'ret'):
                bad = bad or '%s although the access %s' % ('returns' if p.outcome == 'ret' else 'throws', 'was done' if got else 'was refused')
        stm(c, rid, f, bad, len(ps), unk, '')


# ------------------------------------------------------------------ cached memory
CM, SD = MEM + 'CachedMemory', MEM + 'StoreData'
CM_OPAQUE = [MEM + 'MemoryObject*', BLK + '*', 'sparta::ArchData*', DBG + '*', SD + '*']
CM_FIELDS = ('cached_memory_', 'outstanding_writes_')
RD, WR = ('read', 'tryRead', 'peek', 'tryPeek'), ('write', 'tryWrite', 'poke', 'tryPoke')


def M04(c):
    P = c.program('inst/mem.cpp')
    r1 = c.rule('reads', 'a read or peek takes its bytes from the cache when it holds the line, and otherwise peeks at memory downstream', 2)
    r2 = c.rule('writes', 'a write loads a line the cache does not hold, keeps the bytes it replaces, changes the cache only, and is recorded once under a new greater identifier, never above the watermark', 1)
    r3 = c.rule('pokes', 'a poke reaches both the cache, with the line loaded, and memory downstream', 1)
    r4 = c.rule('commits', 'only the oldest outstanding write is committed: its stored bytes go downstream and it is then removed', 1)
    r5 = c.rule('drops', 'dropping removes writes from the newest down to the one dropped and puts back the bytes each replaced; a write that is not outstanding is refused', 1)
    r6 = c.rule('merges', 'each merged byte goes to the bytes kept by the oldest outstanding write that covers it, or to the cache if none does', 1)
    r7 = c.rule('queries', 'the outstanding writes found for an address are those that cover it, oldest first; the last one is the newest', 2)
    r8 = c.rule('records', 'a record keeps the identifier, address, size and bytes it was made with', 5)
    g = fn1(P, CM + '::tryWrite_').cls
    if hint(c, P, g, *CM_FIELDS):
        for m in ('tryRead_', 'tryPeek_'):
            cm_read(c, P, r1, fn1(P, CM + '::' + m))
        cm_write(c, P, r2, fn1(P, CM + '::tryWrite_'))
        cm_poke(c, P, r3, fn1(P, CM + '::tryPoke_'))
        cm_commit(c, P, r4, fn1(P, CM + '::commitWrite'))
        cm_drop(c, P, r5, fn1(P, CM + '::dropWrite'))
        cm_merge(c, P, r6, fn1(P, CM + '::mergeWrite'))
        cm_query(c, P, r7)
    records(c, P, r8)


CACHE, OUT = F('cached_memory_'), F('outstanding_writes_')


def accesses(es):
    """data accesses in order: [(who, read|write, name, args, event)]"""
    r = []
    for x in es:
        if x.kind == 'call':
            sh = x.name.rsplit('::', 1)[-1]
            op = 'read' if sh in RD else 'write' if sh in WR else None
            if op is None:
                continue
            o = show_any(x.obj)
            who = 'cache' if o == 'this.cached_memory_' else 'down' if x.name.startswith((BLK + '::', DBG + '::')) and o != 'this' else '?'
            r.append((who, op, sh, x.args, x))
    return r


def sameargs(fs, got, want):
    if len(got) < len(want):
        return False
    for g, w in zip(got, want):
        if isinstance(g, Lin) and isinstance(w, Lin):
            if not entails(fs, eq(g, w)):
                return False
        elif show_any(g) != show_any(w):
            return False
    return True


def presence(p, a, upto=None):
    """does the cache hold the line of a, as far as this path knows: True, False, None (not asked), '?'"""
    ans = None
    for x in p.events():
        if x.kind == 'call' and 'cached_memory_' in show_any(x.obj) and x.name.rsplit('::', 1)[-1] not in RD + WR:
            ans = ans or '?'
    tx = show_any(a)
    for k, L in p.st.facts:
        if len(L.t) != 1 or L.c:
            continue
        s = show_any(Lin(0, ((L.t[0][0], 1),)))
        m = re.match(r'^tryGetLine\(this\.cached_memory_,\d+,(.*)\)$', s)
        if m:
            if m.group(1) not in (tx, '(%s&this.block_mask_)' % tx):
                ans = '?'
            elif k == 'eq':
                return False
            elif k == 'ne':
                return True
    return ans


def loads(fs, acc, a):
    """index after a load of the block of a from downstream into the cache, -1 if there is none; bad text"""
    al = '(%s&this.block_mask_)' % show_any(a)
    for i, (w, op, sh, ar, x) in enumerate(acc):
        if (w, op) == ('down', 'read'):
            for j in range(i + 1, len(acc)):
                w2, op2, sh2, ar2, x2 = acc[j]
                if (w2, op2) == ('cache', 'write') and len(ar) >= 3 and len(ar2) >= 3 and show_any(ar[2]) == show_any(ar2[2]):
                    t = [show_any(z) for z in ar[:2]] + [show_any(z) for z in ar2[:2]]
                    if t[0] != t[2] or t[1] != t[3]:
                        return j, 'loads %s bytes at %s into %s bytes at %s' % (t[1], t[0], t[3], t[2])
                    if t[0] == show_any(a):
                        return j, 'loads a block at an address that is not the start of it'
                    if t[0] != al or t[1] != 'this.block_size_':
                        return j, '?'
                    if sh not in ('peek', 'tryPeek'):
                        return j, 'loads a block by a read that memory downstream notices'
                    return j, None
    return -1, None


def others(p):
    """calls on a path whose effect on the cache is not known"""
    return [x for x in p.events() if x.kind in ('icall', 'unknown') or x.kind == 'call' and x.name.startswith(CM)]


def cm_read(c, P, rid, f):
    I, ps = run(c, P, f, rid, cfg(f, opaque=CM_OPAQUE))
    if ps is None:
        return
    bad = unk = None
    w = [par(I, St(), f, i) for i in range(3)]
    for p in ps:
        if p.outcome != 'ret' or isinstance(p.ret, Lin) and p.ret == ZERO:
            continue
        acc = accesses(p.events())
        here = presence(p, w[0])
        if others(p) or [a for a in acc if a[0] == '?'] or here == '?':
            unk = 'accesses not followed: ' + path_show(p)[:200]
            continue
        rd = [a for a in acc if a[1] == 'read' and sameargs(p.st.facts, a[3], w)]
        if [a for a in acc if a[1] == 'write']:
            bad = 'writes while reading: ' + path_show(p)[:300]
        elif not rd:
            bad = 'answers without reading the bytes asked for: ' + path_show(p)[:300]
        elif here is None:
            bad = 'reads %s without regard to whether the cache holds the line: %s' % ('memory downstream' if rd[-1][0] == 'down' else 'the cache', path_show(p)[:300])
        elif here != (rd[-1][0] == 'cache'):
            bad = 'reads %s although the cache %s the line: %s' % ('memory downstream' if rd[-1][0] == 'down' else 'the cache', 'holds' if here else 'does not hold', path_show(p)[:300])
        elif rd[-1][0] == 'down' and rd[-1][2] not in ('peek', 'tryPeek'):
            bad = 'reads memory downstream in a way it notices'
    stm(c, rid, f, bad, len(ps), unk, '')


def loaded(p, a, acc, upto, fs):
    """bad, unk: is the line in the cache before access number upto?"""
    here = presence(p, a)
    j, b = loads(fs, acc[:upto], a)
    if here == '?' or b == '?':
        return None, 'load of the line not followed'
    if b:
        return b, None
    if here is True and j >= 0:
        return 'loads a line that the cache holds', None
    if here is False and j < 0:
        return 'changes a line that the cache does not hold without loading it', None
    if here is None:
        return '%s the line without regard to whether the cache holds it' % ('loads' if j >= 0 else 'does not load'), None
    return None, None


def cm_write(c, P, rid, f):
    I, ps = run(c, P, f, rid, cfg(f, opaque=CM_OPAQUE))
    if ps is None:
        return
    bad = unk = None
    w = [par(I, St(), f, i) for i in range(3)]
    n0 = init(('f', OUT, '$size'))
    for p in ps:
        es = p.events()
        acc = accesses(es)
        fs = p.st.facts
        if p.outcome != 'ret' or isinstance(p.ret, Lin) and p.ret == ZERO:
            if p.outcome == 'ret' and [a for a in acc if a[:2] == ('cache', 'write') and sameargs(fs, a[3], w)]:
                bad = bad or 'changes the cache and answers that it did not'
            continue
        if others(p) or [a for a in acc if a[0] == '?']:
            unk = 'accesses not followed: ' + path_show(p)[:200]
            continue
        if [a for a in acc if a[:2] == ('down', 'write')]:
            bad = 'writes memory downstream before the write is committed: ' + path_show(p)[:300]
            continue
        wi = [i for i, a in enumerate(acc) if a[:2] == ('cache', 'write') and sameargs(fs, a[3], w)]
        if not wi:
            bad = 'does not write the bytes to the cache: ' + path_show(p)[:300]
            continue
        b, u = loaded(p, w[0], acc, wi[0], fs)
        bad, unk = bad or b and b + ': ' + path_show(p)[:300], unk or u
        # the record
        ct = [x for x in es if x.kind == 'ctor' and x.name == SD]
        put = [x for x in es if x.kind == 'cont' and show_any(x.obj) == 'this.outstanding_writes_' and x.name in ('emplace', 'insert', 'emplace_hint', 'try_emplace', 'insert_or_assign', 'operator[]', '[]')]
        if len(ct) != 1 or len(put) > 1:
            if not put:
                bad = 'the write is not recorded: ' + path_show(p)[:300]
            else:
                unk = unk or 'record not followed'
            continue
        if not put:
            bad = 'the write is not recorded: ' + path_show(p)[:300]
            continue
        if not sameargs(fs, ct[0].args[1:4], w):
            bad = bad or 'the write is recorded with %s' % ', '.join(show_any(x) for x in ct[0].args[1:4])
        rec = show_any(ct[0].obj)
        pv = [i for i, a in enumerate(acc) if a[:2] == ('cache', 'read') and sameargs(fs, a[3], w[:2]) and len(a[3]) > 2 and re.search(r'PrevDataPtr', show_any(a[3][2]))]
        if not pv:
            if [a for a in acc if a[:2] == ('cache', 'read')] and [a for a in acc if a[:2] == ('cache', 'read') and not re.search('PrevDataPtr', show_any(a[3][2]))]:
                unk = unk or 'copy of the replaced bytes not followed'
            else:
                bad = bad or 'does not keep the bytes it replaces: ' + path_show(p)[:300]
        elif pv[0] > wi[0]:
            bad = bad or 'keeps the bytes it wrote instead of those it replaces'
        else:
            b, u = loaded(p, w[0], acc, pv[0], fs)
            bad, unk = bad or b and b + ' before it keeps the bytes', unk or u
            if es.index(put[0]) < es.index(acc[pv[0]][4]) and show_any(acc[pv[0]][3][2]).find(rec) >= 0:
                bad = bad or 'keeps the replaced bytes in a record that was already copied'
        uid = ct[0].args[0]
        if isinstance(uid, Lin):
            fld_ = [a for a, _ in uid.t]
            own = [atom_key(a) for a in fld_]
            src = next((L for L in own if L), None)
            m = re.match(r'^this\.(\w+)(\+(\d+))?$', show_any(uid))
            if m:
                v0, v1 = init(F(m.group(1))), p.st.store.get(F(m.group(1)), init(F(m.group(1))))
                if not entails(fs, lt(v0, v1)) or not (entails(fs, le(uid, v1)) and entails(fs, le(v0, uid))):
                    if isinstance(v1, Lin) and not opaque_facts([le(v1, v0)]):
                        bad = bad or 'the identifier %s of the write may be one already given: %s becomes %s' % (show_any(uid), m.group(1), show_any(v1))
            else:
                unk = unk or 'identifier not followed'
        if has_field(P, f.cls, 'outstanding_writes_watermark_'):
            wm = init(F('outstanding_writes_watermark_'))
            st = p.st.copy()
            if st.add(le(n0, wm)) and not entails(st.facts, lt(n0, wm)):
                v = verdict(st.facts, lt(n0, wm))
                if v == 'bad':
                    bad = bad or 'a write is recorded above the watermark'
                else:
                    unk = unk or 'watermark'
    stm(c, rid, f, bad, len(ps), unk, '')


def cm_poke(c, P, rid, f):
    I, ps = run(c, P, f, rid, cfg(f, opaque=CM_OPAQUE))
    if ps is None:
        return
    bad = unk = None
    w = [par(I, St(), f, i) for i in range(3)]
    for p in ps:
        if p.outcome != 'ret' or isinstance(p.ret, Lin) and p.ret == ZERO:
            continue
        acc = accesses(p.events())
        if others(p) or [a for a in acc if a[0] == '?']:
            unk = 'accesses not followed: ' + path_show(p)[:200]
            continue
        fs = p.st.facts
        wi = [i for i, a in enumerate(acc) if a[:2] == ('cache', 'write') and sameargs(fs, a[3], w)]
        dn = [i for i, a in enumerate(acc) if a[:2] == ('down', 'write') and sameargs(fs, a[3], w)]
        if not wi:
            bad = 'does not poke the cache: ' + path_show(p)[:300]
            continue
        if not dn:
            bad = 'does not poke memory downstream: ' + path_show(p)[:300]
        b, u = loaded(p, w[0], acc, wi[0], fs)
        bad, unk = bad or b and b + ': ' + path_show(p)[:300], unk or u
    stm(c, rid, f, bad, len(ps), unk, '')


def outs_removed(es):
    return [x for x in es if x.kind == 'cont' and show_any(x.obj) == 'this.outstanding_writes_' and x.name in ('erase', 'clear', 'extract', 'operator=', 'swap')]


def getter(v, n):
    m = re.match(r'^%s\((.*),(\d+|\(# \d+\))\)$' % n, show_any(v))
    return m.group(1) if m else None


def cm_commit(c, P, rid, f):
    I, ps = run(c, P, f, rid, cfg(f, opaque=CM_OPAQUE))
    if ps is None:
        return
    bad = unk = None
    for p in ps:
        es = p.events()
        acc, rm = accesses(es), outs_removed(es)
        if p.outcome == 'throw':
            if rm or [a for a in acc if a[1] == 'write']:
                bad = bad or 'refuses after changing something: ' + path_show(p)[:300]
            continue
        if p.outcome != 'ret':
            continue
        if others(p) or [a for a in acc if a[0] == '?']:
            unk = 'accesses not followed: ' + path_show(p)[:200]
            continue
        if [a for a in acc if a[0] == 'cache' and a[1] == 'write']:
            bad = bad or 'changes the cache: ' + path_show(p)[:300]
        dn = [a for a in acc if a[:2] == ('down', 'write')]
        if not dn:
            bad = bad or 'writes nothing downstream: ' + path_show(p)[:300]
            continue
        a = dn[0]
        w = [getter(a[3][0], 'getPAddr'), getter(a[3][1], 'getSize'), getter(a[3][2], 'getStoreDataPtr')]
        if len(dn) > 1 or None in w:
            if getter(a[3][2], 'getPrevDataPtr'):
                bad = bad or 'pushes the replaced bytes downstream'
            elif [x for x in a[3][:3] if 'get' not in show_any(x)]:
                unk = unk or 'bytes pushed not followed'
            else:
                bad = bad or 'pushes (%s) downstream' % ', '.join(show_any(x) for x in a[3][:3])
            continue
        oldest = [x for x in w if re.match(r'^\*\(<begin this\.outstanding_writes_ \d+>\)\.second$', x)]
        if len(set(w)) > 1:
            bad = bad or 'pushes the bytes of one write with the address or size of another: ' + ', '.join(w)
        elif not oldest:
            if re.search(r'rbegin|find|arg:', w[0]):
                bad = bad or 'commits %s, which may not be the oldest write' % w[0]
            else:
                unk = unk or 'write committed not followed: ' + w[0]
        else:
            ar = '(arg|getWriteID\\(arg)'
            idn = [L for k, L in p.st.facts if k == 'eq' and re.search(r'getWriteID\(arg:', show_any(L)) and re.search(r'getWriteID\(\*\(<begin|<begin[^>]*>\)\.first', show_any(L))]
            if not idn:
                if [x for x in p.st.facts if 'getWriteID' in show_fact(x)]:
                    unk = unk or 'identifier of the write committed not compared in a way that is followed'
                else:
                    bad = bad or 'commits the oldest write whatever write was asked for: ' + path_show(p)[:300]
        if not rm:
            bad = bad or 'keeps the write after committing it: ' + path_show(p)[:300]
        elif es.index(rm[0]) < es.index(a[4]):
            bad = bad or 'removes the write before its bytes are used'
        elif len(rm) > 1 or rm[0].name != 'erase':
            bad = bad or 'removes other writes too'
        elif not re.match(r'^<begin this\.outstanding_writes_ \d+>$', show_any(rm[0].args[0])) and not re.match(r'^\*\(<begin this.outstanding_writes_ \d+>\).first$', show_any(rm[0].args[0])):
            if re.search('rbegin|end ', show_any(rm[0].args[0])):
                bad = bad or 'removes %s' % show_any(rm[0].args[0])
            else:
                unk = unk or 'removal not followed'
    stm(c, rid, f, bad, len(ps), unk, '')


def cm_drop(c, P, rid, f):
    I, ps = run(c, P, f, rid, cfg(f, opaque=CM_OPAQUE))
    if ps is None:
        return
    bad = unk = None
    for p in ps:
        es = p.events()
        acc, rm = accesses(es), outs_removed(es)
        if p.outcome == 'throw':
            if rm or [a for a in acc if a[1] == 'write']:
                bad = bad or 'refuses after changing something: ' + path_show(p)[:300]
            continue
        if p.outcome != 'ret':
            continue
        if others(p) or [a for a in acc if a[0] == '?']:
            unk = 'accesses not followed: ' + path_show(p)[:200]
        if [a for a in acc if a[:2] == ('down', 'write')]:
            bad = bad or 'writes memory downstream: ' + path_show(p)[:300]
        if not [x for x in p.st.facts if re.search(r'<(found|has) this\.outstanding_writes_|count\(', show_fact(x))]:
            bad = bad or 'does not refuse a write that is not outstanding: ' + path_show(p)[:300]
    norm(I)
    seen = 0
    for i in I.loopinfo:
        sts = [(s, 'end') for s in i['ends']] + [(s, 'break') for s in i['breaks']]
        its = []
        for s, kind in sts:
            es = iter_events(s, i)
            acc, rm = accesses(es), outs_removed(es)
            if rm or [a for a in acc if a[1] == 'write']:
                its.append((s, kind, es, acc, rm))
        if not its:
            continue
        seen += 1
        for s, kind, es, acc, rm in its:
            w = [a for a in acc if a[:2] == ('cache', 'write')]
            if len(w) != 1 or len(rm) != 1:
                if not w:
                    bad = bad or 'removes a write without putting back what it replaced'
                elif not rm:
                    bad = bad or 'puts back what a write replaced and keeps the write'
                else:
                    unk = unk or 'iteration not followed'
                continue
            g = [getter(w[0][3][0], 'getPAddr'), getter(w[0][3][1], 'getSize'), getter(w[0][3][2], 'getPrevDataPtr')]
            if None in g:
                if getter(w[0][3][2], 'getStoreDataPtr'):
                    bad = bad or 'puts back the bytes written'
                else:
                    unk = unk or 'bytes put back not followed'
                continue
            if len(set(g)) != 1:
                bad = bad or 'puts back bytes of one write with the address or size of another'
                continue
            if es.index(rm[0]) < es.index(w[0][4]):
                bad = bad or 'removes the write before the bytes it replaced are put back'
            # which write: *(X).second with X the last one
            m = re.match(r'^\*\((.*)\)\.second$', g[0])
            if not m:
                unk = unk or 'write dropped not followed: ' + g[0]
                continue
            it = m.group(1)
            hv = [it] if re.search('<rbegin|<begin|<found|<end', it) else order(I, i, it)
            if not hv:
                unk = unk or 'order of the drops not followed'
            for x in hv:
                if re.search(NEWEST, x):
                    continue
                if re.search(r'^<begin|^<found|^<next', x):
                    bad = bad or 'drops writes from %s' % x
                else:
                    unk = unk or 'order of the drops not followed: ' + x
            a = show_any(rm[0].args[0]) if rm[0].args else ''
            if it not in a and not re.search('rbegin|end ', a):
                if '<begin' in a:
                    bad = bad or 'removes %s, not the write whose bytes it put back' % a
                else:
                    unk = unk or 'removal not followed: ' + a
            hit = [L for k, L in s.facts if k == 'eq' and 'getWriteID(arg:' in show_any(L) and it in show_any(L)]
            mis = [L for k, L in s.facts if k == 'ne' and 'getWriteID(arg:' in show_any(L) and it in show_any(L)]
            if kind == 'break' and not hit and not mis:
                both = [x for x in s.facts if 'getWriteID(arg:' in show_fact(x) and it in show_fact(x)]
                if both:
                    bad = bad or 'may stop before the write to drop: ' + show_fact(both[0])
                else:
                    unk = unk or 'end of the drops not followed'
            if kind == 'break' and mis:
                bad = bad or 'stops at a write that is not the one to drop'
            elif kind == 'end' and hit and not i['breaks']:
                unk = unk or 'end of the drops not followed'
            elif kind == 'end' and hit:
                bad = bad or 'goes on after the write to drop'
            elif kind == 'end' and not mis and not i['breaks']:
                # the loop condition may decide; a loop with no comparison drops everything
                if not any('getWriteID(arg:' in show_fact(x) for s2, k2 in sts for x in s2.facts if it in show_fact(x)) and not any('getWriteID(arg:' in show_fact(x) and it.rstrip("'") in show_fact(x) for p in ps if p.outcome == 'ret' for x in p.st.facts):
                    bad = bad or 'drops every write, whichever was asked for'
    if not seen:
        unk = unk or 'no loop that drops writes'
    stm(c, rid, f, bad, len(ps), unk, '')


def iter_events(s, i):
    """what one iteration does"""
    return [x for x in s.events()[len(i['head'].events()):]]


NEWEST = r'^<rbegin this\.outstanding_writes_ \d+>$|^<prev <end this\.outstanding_writes_'


def order(I, i, name):
    """values a loop variable begins its iterations with: shown"""
    for k in set().union(*[set(e.store) for e in i['ends'] + i['breaks']]) if i['ends'] + i['breaks'] else ():
        hv = i['head'].store.get(k)
        if hv is None:
            hv = I.load(i['head'].copy(), k)
        if show_any(hv) == name:
            return [show_any(x.store.get(k)) for x in [i['entry']] + i['ends']]
    return []


def cover_facts(st, a):
    """[(record, start, size)] the state knows of through getters"""
    r = {}
    for k, L in st.facts:
        for at_, _ in L.t:
            s = show_any(Lin(0, ((at_, 1),)))
            m = re.match(r'^get(PAddr|Size)\((.*?),(\d+|\(# \d+\))\)$', s)
            if m:
                r.setdefault((m.group(2), m.group(3)), {})[m.group(1)] = Lin(0, ((at_, 1),))
    return r


def covering(st, a):
    """does a record that this state asked about cover a: True, False, None (cannot tell), 'no' (nothing was asked)"""
    g = cover_facts(st, a)
    if not g:
        return 'no'
    ans = None
    for (rec, ep), d in g.items():
        s, z = d.get('PAddr'), d.get('Size')
        if s is not None and z is not None and entails(st.facts, le(s, a)) and entails(st.facts, lt(a, s + z)):
            return True
        t = st.copy()
        ok = True
        if s is not None:
            ok = t.add(le(s, a))
        if ok and s is not None and z is not None:
            ok = t.add(lt(a, s + z))
        if not ok:
            ans = False
    return ans


def prev_writes(es):
    return [x for x in es if x.kind == 'write' and re.match(r'^\*\(getPrevDataPtr\(', show_any(x.obj))]


def forward(i, c):
    return i['cont'] is not None and norm_loc(i['cont']) == OUT


def cm_merge(c, P, rid, f):
    I, ps = run(c, P, f, rid, cfg(f, opaque=CM_OPAQUE))
    if ps is None:
        return
    bad = unk = None
    a, z, b = [par(I, St(), f, i) for i in range(3)]
    norm(I)
    # all at once: only when nothing is outstanding
    for p in ps:
        if p.outcome != 'ret':
            continue
        es = p.events()
        acc = accesses(es)
        if others(p) or [x for x in acc if x[0] == '?']:
            unk = 'accesses not followed: ' + path_show(p)[:200]
            continue
        if [x for x in acc if x[:2] == ('down', 'write')]:
            bad = bad or 'writes memory downstream: ' + path_show(p)[:300]
        for n, x in enumerate(acc):
            if x[:2] == ('cache', 'write') and sameargs(p.st.facts, x[3], (a, z, b)):
                ns = {at_: Lin(0, ((at_, 1),)) for k, L in p.st.facts for at_, _ in L.t if re.match(r'^(<trunc \d+ )?this\.outstanding_writes_\.\$size>?$', show_any(Lin(0, ((at_, 1),))))}
                asked = [y for y in p.st.facts if 'outstanding_writes_' in show_fact(y)]
                if not any(entails(p.st.facts, le(v, ZERO)) for v in ns.values()):
                    if ns or not asked:
                        bad = bad or 'writes all the bytes to the cache although writes may be outstanding: ' + path_show(p)[:300]
                    else:
                        unk = unk or 'whether writes are outstanding not followed'
                q, u = loaded(p, a, acc, n, p.st.facts)
                bad, unk = bad or q and q + ': ' + path_show(p)[:300], unk or u
    # byte by byte
    outer = []
    for i in I.loopinfo:
        if forward(i, c):
            continue
        cs = counters(I, i)
        for k, v0, hv, d in cs:
            if d == 1 and isinstance(v0, Lin) and v0 == ZERO and isinstance(hv, Lin):
                outer.append((i, hv))
    hvs = [hv for _, hv in outer]
    inner = [i for i in I.loopinfo if forward(i, c)]
    whole = [p for p in ps if p.outcome == 'ret' and not [x for x in accesses(p.events()) if sameargs(p.st.facts, x[3], (a, z, b)) and x[:2] == ('cache', 'write')] and not p.events()]
    if not outer:
        if not inner and not [x for x in I.loopinfo]:
            bad = bad or 'never looks at the outstanding writes'
        else:
            unk = unk or 'loop over the bytes not followed'
    kept = False
    for i, hv in outer:
        if i['breaks'] or [x for x in i['rets'] if x[0] == 'ret']:
            unk = unk or 'the loop over the bytes ends early'
        x = a + hv
        for s in i['ends']:
            es = iter_events(s, i)
            acc = accesses(es)
            pw, cw = prev_writes(es), [y for y in acc if y[:2] == ('cache', 'write') and not (len(y[3]) > 1 and show_any(y[3][1]) == 'this.block_size_')]
            kept = kept or bool(pw)
            if [y for y in es if y.kind in ('icall', 'unknown') or y.kind == 'call' and y.name.startswith(CM)]:
                unk = unk or 'iteration not followed'
            elif pw and cw:
                bad = bad or 'a byte goes both to the cache and to the bytes a write keeps'
            elif not pw and not cw:
                bad = bad or 'a byte is lost: ' + '; '.join(ev_show(y) for y in es if y.kind != 'enter')[:200]
            elif cw:
                if not sameargs(s.facts, cw[-1][3], (x, ONE, b + hv)):
                    bad = bad or 'a byte goes to the cache as (%s)' % ', '.join(show_any(y) for y in cw[-1][3][:3])
                else:
                    class Q:
                        st = s
                        events = staticmethod(lambda es=es: es)
                    q, u = loaded(Q, x, acc, acc.index(cw[-1]), s.facts)
                    bad, unk = bad or q, unk or u
            else:
                if len(pw) > 1:
                    bad = bad or 'a byte goes to the bytes kept by several writes'
                m = covering(s, x)
                if m is not True:
                    if m is False or m == 'no':
                        bad = bad or 'a byte goes to the bytes kept by a write that does not cover it'
                    else:
                        bad = bad or 'a byte goes to the bytes kept by a write that may not cover it: ' + '; '.join(show_fact(y) for y in s.facts if 'get' in show_fact(y))[:300]
                v = pw[0].args[0] if pw[0].args else None
                if isinstance(v, Lin) and show_any(v) != show_any(I.load(s.copy(), ('i', norm_loc(at(b)), hv), 'u8')) and show_any(v) != '*(%s)[%s]' % (show_any(b), show_any(hv)):
                    bad = bad or 'the byte kept is %s' % show_any(v)
                ix = re.match(r'^\*\(getPrevDataPtr\((.*?),(\d+|\(# \d+\))\)\)\[(.*)\]$', show_any(pw[0].obj))
                if ix:
                    g = cover_facts(s, x)
                    w = [show_any(x - d['PAddr']) for (r, e), d in g.items() if r == ix.group(1) and 'PAddr' in d]
                    t = re.sub(r'^<trunc \d+ (.*)>$', r'\1', ix.group(3))
                    if w and t not in w and not re.search('[%&<]', t):
                        bad = bad or 'the byte at %s is kept as byte %s' % (show_any(x), t)
        # the outstanding writes, oldest first, up to the first that covers the byte
        for j in inner:
            if j['elem'] is not None and j['cont'] is not None and [s for s in j['ends'] + j['breaks'] if covering(s, x) != 'no' and any(hv.single() in y[1].atoms() for y in s.facts)]:
                for s in j['ends']:
                    if prev_writes(iter_events(s, j)):
                        bad = bad or 'goes on after the oldest write that covers the byte'
                    else:
                        m = covering(s, x)
                        if m is True:
                            bad = bad or 'passes over a write that covers the byte'
                        elif m is None:
                            bad = bad or 'passes over a write that may cover the byte: ' + '; '.join(show_fact(y) for y in s.facts if 'get' in show_fact(y))[:300]
                for s in j['breaks']:
                    if not prev_writes(iter_events(s, j)):
                        if covering(s, x) is False:
                            bad = bad or 'stops at a write that does not cover the byte'
                        else:
                            unk = unk or 'search not followed'
    if outer and not kept:
        unk = unk or 'bytes kept by outstanding writes not followed'
    stm(c, rid, f, bad, len(ps), unk, '')


ONE = const(1)


def cm_query(c, P, rid):
    f = fn1(P, CM + '::getOutstandingWritesForAddr')
    I, ps = run(c, P, f, rid, cfg(f, opaque=CM_OPAQUE))
    if ps is not None:
        bad = unk = None
        a = par(I, St(), f, 0)
        norm(I)
        ls = [i for i in I.loopinfo if forward(i, c)]
        if not ls:
            unk = 'no loop over the outstanding writes is followed'
        for i in ls:
            if i['breaks'] or [x for x in i['rets'] if x[0] == 'ret']:
                bad = bad or 'does not look at every outstanding write'
            for s in i['ends']:
                put = [x for x in iter_events(s, i) if x.kind == 'cont' and x.name in ('push_back', 'emplace_back', 'insert', 'push_front', 'emplace')]
                m = covering(s, a)
                t = '; '.join(show_fact(y) for y in s.facts if 'get' in show_fact(y))[:300]
                if put and put[0].name not in ('push_back', 'emplace_back'):
                    if put[0].name == 'push_front' or '<begin' in show_any(put[0].args[:1]):
                        bad = bad or 'gives the newest write first'
                    else:
                        unk = unk or 'order of the writes found not followed'
                if put and len(put) > 1:
                    bad = bad or 'gives a write twice'
                if put and m is not True:
                    bad = bad or 'gives a write that may not cover the address: ' + t
                if not put and m is not False:
                    if m is None or m is True:
                        bad = bad or 'leaves out a write that may cover the address: ' + t
                    else:
                        unk = unk or 'what is left out is not followed'
        stm(c, rid, f, bad, len(ps), unk, '')
    f = fn1(P, CM + '::getLastOutstandingWrite')
    I, ps = run(c, P, f, rid, cfg(f, opaque=CM_OPAQUE))
    if ps is not None:
        bad = unk = None
        n = init(('f', OUT, '$size'))
        for p in ps:
            if p.outcome != 'ret':
                continue
            if not entails(p.st.facts, lt(ZERO, n)) and not entails(p.st.facts, ne(n, ZERO)):
                if verdict(p.st.facts, ne(n, ZERO)) == 'bad':
                    bad = 'gives a write although none is outstanding'
                else:
                    unk = 'empty'
            t = show_any(p.ret)
            if not re.search(r'<rbegin this\.outstanding_writes_ \d+>\)\.second|<prev <end this\.outstanding_writes_.*\.second', t):
                if '<begin' in t:
                    bad = 'gives the oldest write'
                else:
                    unk = unk or 'write given not followed: ' + t
        stm(c, rid, f, bad, len(ps), unk, '')


def records(c, P, rid):
    f = fn1(P, SD + '::StoreData')
    I, ps = run(c, P, f, rid, cfg(f))
    if ps is None:
        return
    w = [par(I, St(), f, i) for i in range(4)]
    vec = {}
    for g, i in (('getWriteID', 0), ('getPAddr', 1), ('getSize', 2), ('getStoreDataPtr', 3), ('getPrevDataPtr', 4)):
        for h in fns(P, SD + '::' + g):
            Ih, qs = run(c, P, h, rid, cfg(h))
            if qs is None:
                continue
            bad = unk = None
            for q in qs:
                m = re.match(r'^(&?)this\.(\w+)(\[0\])?$', show_any(q.ret))
                if q.outcome != 'ret' or not m:
                    unk = 'result not followed: ' + show_any(q.ret)
                    continue
                l = F(m.group(2))
                for p in ps:
                    if p.outcome != 'ret':
                        continue
                    if i < 3:
                        v = I.load(p.st.copy(), l, 'u64')
                        if isinstance(v, Lin) and not entails(p.st.facts, eq(v, w[i])):
                            bad = 'gives %s' % show_any(v)
                        continue
                    n = I.load(p.st.copy(), ('f', l, '$size'), 'u64')
                    if isinstance(n, Lin) and not entails(p.st.facts, eq(n, w[2])):
                        bad = 'gives room for %s bytes' % show_any(n)
                    cp = [x for x in p.events() if x.kind == 'call' and x.name.endswith('memcpy') and show_any(x.args[0]).startswith('&this.%s' % m.group(2))]
                    if i == 3:
                        if cp and [show_any(x) for x in cp[0].args] != ['&this.%s[0]' % m.group(2), show_any(w[3]), show_any(w[2])]:
                            bad = 'the bytes kept are (%s)' % ', '.join(show_any(x) for x in cp[0].args)
                        elif not cp:
                            if [x for x in p.events() if x.kind == 'call' and x.name.endswith('memcpy')]:
                                bad = 'the bytes given were not copied here'
                            else:
                                unk = 'copy of the bytes not followed'
                    vec.setdefault(i, set()).add(m.group(2))
                if i == 4 and vec.get(4) and vec.get(3) == vec[4]:
                    bad = 'the bytes written and the bytes replaced are kept in one place'
            stm(c, rid, h, bad, len(qs), unk, '')
