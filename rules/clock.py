"""K05 clocks."""
from lib import *
from kernel import fld, par, SCH
from dag import stm, names
from loops import norm

CK, CM = 'sparta::Clock', 'sparta::ClockManager'
TR = ['sparta::Clock::*']


def cfg(f, **kw):
    tr = kw.pop('transparent', TR)
    c = Config(thiscls=f.cls, quiet_log=True, transparent=tr, narrow=True)
    c.opaque |= set(kw.pop('opaque', ()))
    for k, v in kw.items():
        setattr(c, k, v)
    return c


def linear_only(L):
    """no product, quotient or remainder left in the value"""
    return all(not (isinstance(a, tuple) and a[0] in ('op', 'mod', 'call', 'trunc')) for a in L.atoms())


def K05(c):
    P = c.program('Clock.cpp', 'ClockManager.cpp', 'Scheduler.cpp')
    r1 = c.rule('convert', 'cycle = tick / period, tick = cycle * period, absolute tick = (cycle - 1) * period, rising edge = tick is a multiple of the period, all in 64 bits', 8)
    r2 = c.rule('period', 'normalizing: own ratio times the parent\'s, one common multiple over every clock of the tree, every clock gets its period from its own ratio', 4)
    r3 = c.rule('tree', 'a second root and a second parent are refused; a clock registers with its scheduler and leaves it when destroyed', 4)
    r4 = c.rule('crossing', 'a clock crossing takes at least both delays, arrives on an edge of the destination, and adds less than one destination period', 2)
    r5 = c.rule('crossing-guard', 'crossing delays are refused without clocks or across schedulers', 2)
    r6 = c.rule('width', 'ticks and cycles are 64 bits wide at every interface of the clock', 10)
    for n in ('getCycle', 'getTick', 'getAbsoluteTick', 'currentTick', 'currentCycle', 'elapsedCycles', 'updateElapsedCycles'):
        for f in fns(P, CK + '::' + n):
            ty = [x[2].split()[-1].strip('&') for x in f.params] + [f.ret.split()[-1]]
            w = [t for t in ty if re.fullmatch('[uif](8|16|32)', t)]
            c.ob(r6, label(f), f.where(), 'bad' if w else 'ok', 'uses the type %s' % w[0] if w else ' '.join(ty))
    hint(c, P, CK, 'period_', 'root_ratio_', 'parent_ratio_', 'scheduler_', 'elapsed_cycles_', 'children_')
    convert(c, P, r1)
    period(c, P, r2)
    tree(c, P, r3)
    crossing(c, P, r4, r5)


def convert(c, P, rid):
    per = init(F('period_'), 'u32')
    pos = [('le', -per + 1)]

    def val(f, want, facts=()):
        I, ps = run(c, P, f, rid, cfg(f), facts=pos + list(facts))
        if ps is None:
            return
        bad = unk = None
        for p in normals(ps):
            w = want(I, p.st)
            v = p.ret
            if not isinstance(v, Lin) or not isinstance(w, Lin):
                unk = 'value %s' % show_any(v)
            elif not entails(p.st.facts, eq(v, w)):
                t = 'is %s instead of %s' % (show(v), show(w))
                same = v.atoms() and all(any(known(a, w) for a in [x]) for x in v.atoms())
                if same or 'trunc' in show(v):
                    bad = t
                else:
                    unk = t
        stm(c, rid, f, bad, len(ps), unk)

    def known(a, w):
        return isinstance(a, tuple) and a[0] in ('ld', 'arg', 'op', 'trunc', 'mod')
    cur = lambda I, st: I.load(st, fld(at(I.load(st, F('scheduler_'), 'ptr')), 'current_tick_'), 'u64')
    A = lambda f, ty='u64': par(Interp(P, Config(thiscls=f.cls)), St(), f, 0, ty)
    f = fn1(P, CK + '::getCycle')
    val(f, lambda I, st: I.arith(st, '/', par(I, St(), f, 0), per, 'u64'))
    for f in fns(P, CK + '::getTick'):
        val(f, lambda I, st, f=f: I.arith(st, '*', par(I, St(), f, 0), per, 'u64') if 'd' not in f.params[0][2].split()[-1] else fl(I, st, f))
    f = fn1(P, CK + '::getAbsoluteTick')
    val(f, lambda I, st: I.arith(st, '*', par(I, St(), f, 0) - 1, per, 'u64'), facts=[('le', -par(Interp(P, Config(thiscls=f.cls)), St(), f, 0) + 1)])
    f = fn1(P, CK + '::currentTick')
    val(f, cur)
    f = fn1(P, CK + '::currentCycle')
    val(f, lambda I, st: I.arith(st, '/', cur(I, st), per, 'u64'))
    f = fn1(P, CK + '::elapsedCycles')
    val(f, lambda I, st: I.load(st, F('elapsed_cycles_'), 'u64'))
    f = fn1(P, CK + '::getPeriod')
    val(f, lambda I, st: per)
    f = fn1(P, CK + '::isPosedge')
    I, ps = run(c, P, f, rid, cfg(f), facts=pos)
    if ps is not None:
        bad = unk = None
        for p in normals(ps):
            m = I.mod(p.st, cur(I, p.st), per, 'u64')
            v = p.ret
            for s, pos_ in [(x, y) for y in (True, False) for x in assume(I, p.st.copy(), v, y)]:
                if not entails(s.facts, ('eq', m) if pos_ else ('ne', m)):
                    t = 'answers %s under %s' % (pos_, [show_fact(x) for x in s.facts - p.st.facts][:3])
                    if isinstance(v, Lin):
                        bad = t
        stm(c, rid, f, bad, len(ps), unk)
    f = fn1(P, CK + '::updateElapsedCycles')
    I, ps = run(c, P, f, rid, cfg(f), facts=pos)
    if ps is not None:
        bad = None
        for p in normals(ps):
            e = I.load(p.st, F('elapsed_cycles_'), 'u64')
            w = I.arith(p.st, '/', par(I, St(), f, 0), per, 'u64')
            if not entails(p.st.facts, eq(e, w)):
                bad = 'elapsed cycles become %s' % show(e)
        stm(c, rid, f, bad, len(ps))
    cls = CK + '::CurrentCycleCounter'
    for f in P.find(cls + '::get'):
        I, ps = run(c, P, f, rid, cfg(f))
        if ps is not None:
            ck = at(I.load(St(), F('clk_'), 'ptr'))
            bad = None
            for p in normals(ps):
                t = show_any(p.ret)
                if 'current_tick_' not in t or 'period_' not in t or 'trunc' in t:
                    bad = 'the cycle counter reads %s' % t
            stm(c, rid, f, bad, len(ps))


def assume(I, st, v, pos):
    r = I.assume_val(st, v, pos)
    return r if isinstance(r, list) else [r] if r is not None else []


def fl(I, st, f):
    return None


def period(c, P, rid):
    RT = 'sparta::utils::'
    oq = [RT + 'lcm', RT + 'gcd', RT + 'Rational::*', CK + '::calcNorm']
    f = fn1(P, CK + '::calcNorm')
    I, ps = run(c, P, f, rid, cfg(f, opaque=oq, history=True))
    if ps is not None:
        bad = unk = None
        n = 0
        for info in norm(I):
            if info['cont'] != F('children_'):
                unk = 'loop not recognised'
                continue
            n += 1
            n0 = len(info['head'].events())
            for e in info['ends']:
                cl = [x for x in e.events()[n0:] if x.kind == 'call' and x.name == CK + '::calcNorm']
                lc = [x for x in e.events()[n0:] if x.kind == 'call' and x.name == RT + 'lcm']
                el = at(I.load(e.copy(), info['elem'], 'ptr'))
                if len(cl) != 1 or cl[0].obj != el:
                    bad = 'a child clock is asked %d times' % len(cl)
                elif not lc or not any('calcNorm' in show_any(a) for x in lc for a in x.args):
                    bad = 'a child\'s norm is not taken into the common multiple'
            if info['breaks'] or info['rets']:
                bad = 'not every child clock is asked'
            # own ratio before the children, they build on it
        for p in normals(ps):
            hasp = entails(p.st.facts, ('ne', init(F('parent_'), 'ptr')))
            wr = [(i, e) for i, e in enumerate(p.events()) if e.kind in ('write', 'call', 'ctor') and e.obj is not None and has_prefix_(e.obj, F('root_ratio_')) and (e.kind == 'write' or e.name.endswith('operator='))]
            ks = [i for i, e in enumerate(p.events()) if e.kind == 'call' and e.name in (CK + '::calcNorm', RT + 'lcm')]
            if hasp:
                if not wr:
                    unk = unk or 'assignment of the ratio not recognised'
                    if not any('parent_ratio_' in show_any(e.obj) + str([show_any(a) for a in e.args]) for e in p.events()):
                        bad = 'the ratio to the root clock is not recomputed; ' + path_show(p)[:600]
                elif ks and wr[0][0] > ks[0]:
                    bad = 'the children or the denominator are used before the ratio to the root clock is known'
                else:
                    t = ' '.join(show_any(e.obj) + ' ' + ' '.join(show_any(a) for a in e.args) for e in p.events()[:wr[0][0] + 1])
                    if 'parent_ratio_' not in t or not re.search(r'parent_\)\.root_ratio_', t):
                        bad = 'the ratio to the root clock is computed from %s' % t[:300]
                    if not any(e.kind == 'call' and e.name.endswith('Rational::inv') for e in p.events()[:wr[0][0] + 1]):
                        unk = unk or 'inverse ratio not recognised'
            lc = [e for e in p.events('call') if e.name == RT + 'lcm']
            if not lc:
                bad = 'no common multiple is taken'
        stm(c, rid, f, bad, n, unk)
    f = fn1(P, CK + '::setPeriod')
    I, ps = run(c, P, f, rid, cfg(f, opaque=oq))
    if ps is not None:
        bad = unk = None
        for p in normals(ps):
            if not any('isFinalized' in show_fact(x) and x[0] == 'eq' and not x[1].c for x in p.st.facts):
                bad = 'accepted after finalization; ' + path_show(p)[:500]
            wr = [e for e in p.events('write') if e.obj == F('period_')]
            ev = ' '.join(show_any(e.obj) + ' ' + ' '.join(show_any(a) for a in e.args) for e in p.events())
            if not wr:
                bad = 'the period is not set'
            elif not names(ev, f.params[0][1]):
                bad = 'the norm is not used: %s' % ev[:300]
            elif 'root_ratio_' not in ev:
                bad = 'the ratio to the root clock is not used: %s' % ev[:300]
        stm(c, rid, f, bad, len(normals(ps)))
    f = fn1(P, CM + '::normalize')
    FQ = init(F('any_clock_with_explicit_freq_'), 'bool')
    I, ps = run(c, P, f, rid, cfg(f, opaque=[CK + '::*', CM + '::getClockPeriodFromFrequencyMhz'], transparent=[], history=True))
    if ps is not None:
        bad = unk = None
        n = 0
        for info in norm(I):
            if info['cont'] != F('clist_'):
                unk = 'loop not recognised'
                continue
            n += 1
            n0 = len(info['head'].events())
            el = None
            for e in info['ends']:
                ev = e.events()[n0:]
                sp = [x for x in ev if x.kind == 'call' and x.name == CK + '::setPeriod']
                fq = entails(e.facts, ('ne', FQ))
                el = at(I.load(e.copy(), info['elem'], 'ptr'))
                nofreq = any(x[0] == 'eq' and len(x[1].atoms()) == 1 and show_any(atom(x[1].atoms()[0])).startswith('getFrequencyMhz(') for x in e.facts)
                if fq and nofreq:
                    if sp:
                        bad = 'the root clock gets a period from frequency 0'
                elif len(sp) != 1 or sp[0].obj != el:
                    bad = 'a clock gets its period %d times' % len(sp)
                elif fq and 'getClockPeriodFromFrequencyMhz' not in show_any(sp[0].args[0]):
                    unk = 'period %s' % show_any(sp[0].args[0])
                elif fq and 'trunc' in show_any(sp[0].args[0]):
                    v = sp[0].args[0]
                    k = v.single()
                    if isinstance(k, tuple) and k[0] == 'trunc' and not entails(e.facts, ('le', first_lin(k) - 0xffffffff)):
                        bad = 'the period of a slow clock is cut to 32 bits (%s)' % show_any(v)
                elif not fq and 'calcNorm' not in show_any(sp[0].args[0]):
                    bad = 'a clock gets %s as norm' % show_any(sp[0].args[0])
                if fq and sp and not (bad or unk):
                    v = sp[0].args[0]
                    k = v.single()
                    v = first_lin(k) if isinstance(k, tuple) and k[0] == 'trunc' else v
                    if not entails(e.facts, ('le', -v + 1)) and not entails(e.facts, ('ne', v)):
                        bad = 'a clock may get period 0'
            if info['breaks'] or [r for r in info['rets'] if r[0] == 'ret']:
                bad = 'not every clock gets a period'
        for p in normals(ps):
            if entails(p.st.facts, ('eq', FQ)):
                cn = [e for e in p.events('call') if e.name == CK + '::calcNorm']
                if len(cn) != 1 or 'croot_' not in show_any(cn[0].obj):
                    bad = 'the norm is computed by %s' % [ev_show(e) for e in cn]
                elif 'calcNorm' not in show_any(p.ret):
                    bad = 'returns %s' % show_any(p.ret)
        stm(c, rid, f, bad, n, unk)


def first_lin(k):
    return [x for x in k[1:] if isinstance(x, Lin)][0]


def has_prefix_(l, pre):
    while isinstance(l, tuple) and l:
        if l == pre:
            return True
        if l[0] not in ('f', 'i'):
            return False
        l = l[1]
    return False


def tree(c, P, rid):
    f = fn1(P, CM + '::makeRoot')
    ro = init(F('croot_'), 'ptr')
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True), facts=[('ne', ro)])
    if ps is not None:
        c.ob(rid, label(f) + ' second root', f.where(), 'bad' if normals(ps) else 'ok', 'accepted' if normals(ps) else 'refused')
    for f in P.find(CM + '::makeRoot') + P.find(CM + '::makeClock'):
        I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            ad = [e for e in p.events('cont') if e.obj == F('clist_') and e.name in ('push_back', 'emplace_back', 'insert', 'push_front')]
            if len(ad) != 1 and not any(e.kind == 'call' and e.name == CM + '::makeClock' for e in p.events()):
                bad = 'the clock is recorded %d times, it will not get a period' % len(ad)
            if f.short == 'makeRoot' and entails(p.st.facts, ('eq', I.load(p.st, F('croot_'), 'ptr'))):
                bad = 'the root is not remembered'
            if f.short == 'makeClock' and 'd' in [x[2] for x in f.params] and not entails(p.st.facts, ('ne', I.load(p.st, F('any_clock_with_explicit_freq_'), 'bool'))):
                bad = 'a clock with a frequency is not announced'
        stm(c, rid, f, bad, len(normals(ps)))
    f = fn1(P, CK + '::associate')
    pa = init(F('parent_'), 'ptr')
    I, ps = run(c, P, f, rid, cfg(f))
    if ps is not None:
        a = par(I, St(), f, 0)
        bad = None
        for p in normals(ps):
            if not entails(p.st.facts, ('eq', pa)) and not entails(p.st.facts, eq(pa, a)):
                bad = 'a second parent is accepted; ' + path_show(p)[:500]
            ch = [e for e in p.events('cont') if e.obj[0] == 'f' and e.obj[2] == 'children_' and e.name in ('push_back', 'emplace_back', 'insert', 'push_front')]
            if len(ch) != 1 or not names(ch[0].obj, f.params[0][1]):
                bad = 'the parent gets the clock %d times' % len(ch)
            if not entails(p.st.facts, eq(I.load(p.st, F('parent_'), 'ptr'), a)):
                bad = 'the parent is not remembered'
        stm(c, rid, f, bad, len(normals(ps)))
    reg = lambda p, n: [e for e in p.events('call') if e.name == SCH + '::' + n]
    for f in P.find(CK + '::Clock'):
        if len(f.params) == 1:
            continue
        I, ps = run(c, P, f, rid, cfg(f, opaque=[CK + '::associate', CK + '::setRatio', SCH + '::registerClock']))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            r = reg(p, 'registerClock')
            dele = [e for e in p.events('ctor') if e.name == CK]
            if len(r) > 1 or not r and not dele:
                bad = 'the clock registers %d times' % len(r)
            for e in r:
                if e.args[0] != addr(THIS):
                    bad = 'registers %s' % show_any(e.args[0])
            if any('shared_ptr' in x[2] and 'Clock' in x[2] for x in f.params):
                a = [e for e in p.events('call') if e.name == CK + '::associate']
                if len(a) != 1:
                    bad = 'the clock is tied to its parent %d times' % len(a)
        stm(c, rid, f, bad, len(normals(ps)))
    f = fn1(P, CK + '::~Clock')
    I, ps = run(c, P, f, rid, cfg(f, opaque=[SCH + '::deregisterClock']))
    if ps is not None:
        bad = None
        for p in normals(ps):
            r = reg(p, 'deregisterClock')
            if len(r) != 1 or r[0].args[0] != addr(THIS):
                bad = 'the scheduler keeps a pointer to the destroyed clock; ' + path_show(p)[:500]
        stm(c, rid, f, bad, len(normals(ps)))
    rc = F('registered_clocks_')
    f = fn1(P, SCH + '::registerClock')
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True))
    if ps is not None:
        bad = None
        add = [[e for e in p.events('cont') if e.obj == rc and e.name in ('push_back', 'emplace_back', 'insert')] for p in normals(ps)]
        if not any(add):
            bad = 'clocks are not recorded, they will not be told the elapsed time'
        for x in add:
            if len(x) > 1 or x and not names(' '.join(show_any(a) for a in x[0].args), f.params[0][1]):
                bad = 'records %s' % [ev_show(e) for e in x]
        stm(c, rid, f, bad, len(normals(ps)))
    f = fn1(P, SCH + '::deregisterClock')
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True))
    if ps is not None:
        bad = None
        rem = [[e for e in p.events('cont') if e.obj == rc and e.name in ('erase', 'remove', 'pop_back', 'clear', 'erase_if')] for p in normals(ps)]
        if not any(rem):
            bad = 'a destroyed clock is not removed'
        if any(e.name == 'clear' for x in rem for e in x):
            bad = 'removes all clocks'
        stm(c, rid, f, bad, len(normals(ps)))


def crossing(c, P, rid, r5):
    for nm, rev in (('sparta::calculateClockCrossingDelay', 0), ('sparta::calculateReverseClockCrossingDelay', 1)):
        f = fn1(P, nm)
        q = [par(Interp(P, Config()), St(), f, i) for i in range(len(f.params))]
        arr = q.pop(0) if rev else None
        sd, sc, dd, dc = q
        I0 = Interp(P, cfg(f))
        sp, dp = [I0.load(St(), fld(at(x), 'period_'), 'u32') for x in (sc, dc)]
        sch = [I0.load(St(), fld(at(x), 'scheduler_'), 'ptr') for x in (sc, dc)]
        I, ps = run(c, P, f, rid, cfg(f), facts=[('le', -sp + 1), ('le', -dp + 1)])
        if ps is None:
            continue
        bad = unk = b5 = None
        for p in normals(ps):
            fs = p.st.facts
            if not (entails(fs, ('ne', sc)) and entails(fs, ('ne', dc))):
                b5 = 'a null clock is accepted; ' + path_show(p)[:400]
            elif not entails(fs, eq(*sch)):
                b5 = 'clocks of two schedulers are accepted; ' + path_show(p)[:400]
            r = p.ret
            if not isinstance(r, Lin):
                unk = 'result %s' % show_any(r)
                continue
            s = p.st.copy()
            curs = [arr] if rev else [I.load(s, fld(at(x), 'current_tick_'), 'u64') for x in sch]
            good = False
            for cu in curs:
                if rev:
                    m = I.mod(s, cu - sd - dd, sp, 'u64')
                    alts = [[eq(r, sd + dd + m)]]
                else:
                    m = I.mod(s, cu + sd + dd, dp, 'u64')
                    alts = [[eq(r, sd + dd), ('eq', m)], [eq(r, sd + dd + dp - m), ('ne', m)]]
                if any(all(entails(s.facts, x) for x in a) for a in alts):
                    good = True
            if not good:
                t = 'the delay is %s under %s' % (show(r), '; '.join(show_fact(x) for x in fs if '%' in show_fact(x) or 'mod' in show_fact(x))[:300])
                plain = all(isinstance(a, tuple) and (a[0] in ('ld', 'arg') or a[0] == 'mod' and linear_only(a[1])) for a in r.atoms())
                ms = [a for a in r.atoms() if a[0] == 'mod']
                want = I.mod(s, (curs[0] + sd + dd) if not rev else curs[0] - sd - dd, sp if rev else dp, 'u64').single()
                if 'trunc' in show(r) or plain and (not ms or any(a[1:] != want[1:] and a[1].t == want[1].t and a[1].c == want[1].c for a in ms) or all(a == want for a in ms) or any(a[2] != want[2] for a in ms) or any(len(a[1].t) < len(want[1].t) for a in ms)):
                    bad = t
                else:
                    unk = t
        stm(c, rid, f, bad, len(normals(ps)), unk)
        stm(c, r5, f, b5, len(normals(ps)))
