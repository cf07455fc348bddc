"""K06 events, K07 payload events."""
from lib import *
from kernel import fld, par, SCH
from dag import stm, names
from clock import cfg as ccfg
from loops import norm

SA = 'sparta::Scheduleable'
PUE, PSC, PPE = 'sparta::PhasedUniqueEvent', 'sparta::PhasedSingleCycleUniqueEvent', 'sparta::PhasedPayloadEvent'
CLK = ['sparta::Clock::*']
EVN = ['sparta::EventNode::*']


def cfg(f, **kw):
    kw.setdefault('transparent', CLK + EVN)
    return ccfg(f, **kw)


def calls(p, *nm):
    """calls of the methods (short or qualified names), overridden ones included"""
    return [e for e in p.events('call') if e.name in nm or e.name.rsplit('::', 1)[-1] in nm]


def member_of(key):
    """the method named by a mangled template argument &T::m"""
    i = key.find('Xad')
    i = key.find('L_ZN', i) + 4 if i >= 0 else -1
    if i < 4:
        return None
    m, depth = None, 0
    while i < len(key):
        ch = key[i]
        if ch.isdigit():
            j = i
            while key[j].isdigit():
                j += 1
            n = int(key[i:j])
            if not depth:
                m = key[j:j + n]
            i = j + n
        elif ch == 'S' and key[i + 1:i + 2].isdigit() or ch == 'S' and key[i + 1:i + 2] == '_':
            i = key.index('_', i) + 1
        elif ch == 'I' or ch == 'N':
            depth += 1
            i += 1
        elif ch == 'E':
            if not depth:
                return m
            depth -= 1
            i += 1
        else:
            i += 1
    return m


def bound(f):
    """names of the methods the function binds into handlers: from_member<T, &T::m>(...)"""
    out = []
    for n in walk([f.body, f.inits]):
        if n[0] == 'call' and isinstance(n[3], str) and n[3].startswith('sparta::SpartaHandler::from_member'):
            m = member_of(n[2])
            out.append((m, n[4][0][0] if n[4] else None))
    return out


def handler_of(c, P, rid, cls, pred=lambda f: True):
    """the method(s) the constructors of cls bind into the scheduled handler"""
    hs = set()
    for f in P.find(cls + '::' + cls.rsplit('::', 1)[-1]):
        if not pred(f):
            continue
        for m, obj in bound(f):
            if obj is not None and obj != 'this':
                c.unk(rid, label(f) + ' handler', f.where(), 'the handler is bound to %s' % obj)
            if m:
                hs.add(m)
    return [g for m in sorted(hs) for g in P.find(cls + '::' + m)]


def tick(I, st, clk, cyc):
    return I.arith(st, '*', cyc, I.load(st, fld(at(clk), 'period_'), 'u32'), 'u64')


def same(p, a, b):
    return a == b or isinstance(a, Lin) and isinstance(b, Lin) and entails(p.st.facts, eq(a, b))


def K06(c):
    P = c.program('inst/ports.cpp', 'Scheduleable.cpp')
    r1 = c.rule('schedule', 'every schedule call schedules the event once, with its clock\'s tick for the delay, on that clock\'s scheduler, with the event\'s group, flags; without a clock or scheduler it is refused', 5)
    r2 = c.rule('ctor', 'an event carries the handler, delay, phase it was given; a unique event is announced as unique', 6)
    r3 = c.rule('unique', 'a unique event that fired in a tick is refused for that tick again; the tick is noted before the handler runs, which runs once', 2)
    r4 = c.rule('single-cycle', 'a single cycle event takes delays 0 and 1 only, schedules at most once per call, skips only a tick it is already scheduled for, and a cancelled one can be scheduled again', 3)
    r5 = c.rule('cancel', 'cancel and isScheduled name this event and the tick of the given cycle', 5)
    r6 = c.rule('async', 'an asynchronous event goes through the scheduler\'s asynchronous queue', 2)
    r7 = c.rule('global', 'a global event schedules its handler with the given delay and clock; a handler that is gone is not called', 6)
    r8 = c.rule('startup', 'a startup event is registered once and refused after finalization', 2)
    hint(c, P, SA, 'pgid_', 'continuing_', 'is_unique_event_', 'delay_', 'local_clk_', 'scheduler_')
    schedule(c, P, r1)
    ctors(c, P, r2)
    unique(c, P, r3)
    single(c, P, r4)
    cancel(c, P, r5)
    asynch(c, P, r6)
    glob(c, P, r7)
    startup(c, P, r8)


def sched_event(p):
    return calls(p, SCH + '::scheduleEvent', SCH + '::scheduleAsyncEvent')


def schedule(c, P, rid):
    pg, co, un, dl = init(F('pgid_'), 'u32'), init(F('continuing_'), 'bool'), init(F('is_unique_event_'), 'bool'), init(F('delay_'), 'u64')
    lc = init(F('local_clk_'), 'ptr')
    for f in fns(P, SA + '::schedule') + fns(P, SA + '::scheduleRelativeTick'):
        I, ps = run(c, P, f, rid, cfg(f))
        if ps is None:
            continue
        bad = unk = None
        nm = [x[2] for x in f.params]
        for p in normals(ps):
            rel = f.short == 'scheduleRelativeTick'
            ev = sched_event(p)
            inner = [e for e in calls(p, 'scheduleRelativeTick', 'schedule') if e.name.startswith(SA)]
            if len(ev) + len(inner) != 1:
                bad = 'schedules %d times; %s' % (len(ev) + len(inner), path_show(p)[:400])
                continue
            clk, cyc, sc = lc, dl, None
            for i, t in enumerate(nm):
                if 'Clock' in t and '*' in t:
                    clk = par(I, p.st, f, i)
                elif 'Scheduler' in t:
                    sc = par(I, p.st, f, i)
                else:
                    cyc = par(I, p.st, f, i)
            if rel:
                wt, ws = cyc, sc
                chk = [sc]
            else:
                wt = tick(I, p.st, clk, cyc)
                ws = I.load(p.st, fld(at(clk), 'scheduler_'), 'ptr')
                chk = [clk]
            e = (ev or inner)[0]
            if ev:
                if e.name.endswith('Async'):
                    bad = 'schedules asynchronously'
                for got, want, what in ((e.args[0], addr(THIS), 'event'), (e.args[1], wt, 'tick'), (e.args[2], pg, 'group'), (e.args[3], co, 'continuing flag'), (e.args[4], un, 'uniqueness flag')):
                    if not same(p, got, want):
                        t = 'the %s is %s instead of %s' % (what, show_any(got), show_any(want))
                        bad = t
                if e.obj != at(ws):
                    bad = 'goes to the scheduler %s instead of %s' % (show_any(e.obj), show_any(ws))
                for x in chk:
                    if not entails(p.st.facts, ('ne', x)):
                        bad = 'accepts a null %s; %s' % ('scheduler' if rel else 'clock', path_show(p)[:300])
            elif e.name.endswith('scheduleRelativeTick'):
                if not same(p, e.args[0], wt) or not same(p, e.args[1], ws):
                    bad = 'schedules for tick %s on %s' % (show_any(e.args[0]), show_any(e.args[1]))
            else:
                unk = 'not followed: %s' % ev_show(e)
        stm(c, rid, f, bad, len(normals(ps)), unk)


def ctors(c, P, rid):
    def pick(f, what):
        for i, (pid, n, t) in enumerate(f.params):
            if what in t and (what != 'u64' or t.split()[-1].strip('&') == 'u64'):
                return i
        return None
    for f in fns(P, SA + '::' + 'Scheduleable'):
        if len(f.params) < 3:
            continue
        I, ps = run(c, P, f, rid, cfg(f))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            for fn, i in (('delay_', pick(f, 'u64')), ('sched_phase_', pick(f, 'SchedulingPhase')), ('is_unique_event_', pick(f, 'bool'))):
                if i is None:
                    continue
                v = I.load(p.st, F(fn), f.params[i][2])
                if not same(p, v, par(I, St(), f, i)):
                    bad = '%s becomes %s' % (fn, show_any(v))
            w = [e for e in p.events() if e.kind in ('ctor', 'write') and e.obj == F('consumer_event_handler_')]
            if not w or not names(w[-1].args, f.params[0][1]):
                bad = 'the handler is not the one given'
        stm(c, rid, f, bad, len(normals(ps)))
    for cls, uniq in ((PUE, True), ('sparta::Event', False), (PSC, False)):
        for f in fns(P, cls + '::' + cls.rsplit('::', 1)[-1]):
            if len(f.params) < 3:
                continue
            I, ps = run(c, P, f, rid, cfg(f, transparent=CLK, opaque=[SA + '::Scheduleable', SA + '::PrecedenceSetup::*', SA + '::setLabel', SA + '::setScheduleableClock']))
            if ps is None:
                continue
            bad = unk = None
            for p in normals(ps):
                ct = [e for e in p.events('ctor') if e.name == SA and (e.obj == THIS or e.obj[0] == 'f')]
                if len(ct) != 1:
                    unk = 'the base is constructed %d times' % len(ct)
                    continue
                a = ct[0].args
                d = pick(f, 'u64')
                if d is not None and not same(p, a[1], par(I, St(), f, d)):
                    bad = 'the delay is %s' % show_any(a[1])
                ph = pick(f, 'SchedulingPhase')
                if ph is not None and not same(p, a[2], par(I, St(), f, ph)):
                    bad = 'the phase is %s' % show_any(a[2])
                en = [e for e in p.events('ctor') if e.name == 'sparta::EventNode']
                if en and not same(p, en[0].args[2], a[2]):
                    bad = 'node and event are in the phases %s and %s' % (show_any(en[0].args[2]), show_any(a[2]))
                if len(a) > 3 and uniq is True and a[3] != ONE:
                    bad = 'the event is not announced as unique'
                if uniq is True and len(a) < 4:
                    bad = 'the event is not announced as unique'
                if uniq is False and len(a) > 3 and a[3] != ZERO and cls == 'sparta::Event':
                    bad = 'an ordinary event is announced as unique'
            stm(c, rid, f, bad, len(normals(ps)), unk)


def unique(c, P, rid):
    hint(c, P, PUE, 'last_tick_called_', 'pue_consumer_event_handler_')
    lt_ = init(F('last_tick_called_'), 'u64')
    f = fn1(P, PUE + '::scheduleRelativeTick')
    rel, sc = [par(Interp(P, cfg(f)), St(), f, i) for i in (0, 1)]
    cur = Interp(P, cfg(f)).load(St(), fld(at(sc), 'current_tick_'), 'u64')
    bad, n = None, 0
    # it has fired at an earlier tick or at this one, or never
    for inv in ([le(lt_, cur)], [eq(lt_, 2 ** 64 - 1), le(cur + rel, 2 ** 64 - 2)]):
        I, ps = run(c, P, f, rid, cfg(f), facts=inv)
        for p in normals(ps or ()):
            n += 1
            ev = sched_event(p) + [e for e in calls(p, 'scheduleRelativeTick') if e.name == SA + '::scheduleRelativeTick']
            if len(ev) != 1:
                bad = 'schedules %d times' % len(ev)
                continue
            i = 1 if ev[0].name.startswith(SCH) else 0
            if not same(p, ev[0].args[i], rel):
                bad = 'schedules for %s' % show_any(ev[0].args[i])
            if not entails(ev[0].facts, ne(lt_, cur + rel)) and len(inv) == 1:
                bad = 'an event that fired in that tick can be scheduled for it again; ' + path_show(p)[:400]
        for p in throws(ps or ()):
            eff = [e for e in p.events() if e.kind == 'call' and e.name in (SCH + '::scheduleEvent', SA + '::scheduleRelativeTick')]
            if eff:
                bad = 'scheduled, then refused'
            # a refusal is for a missing scheduler or a tick that already fired
            if (not entails(p.st.facts, eq(lt_, cur + rel)) or len(inv) > 1) and not any(re.fullmatch(r'-?(this\.|arg:)scheduler_?[\w.]* == 0', show_fact(x)) for x in p.st.facts):
                bad = 'refuses a tick the event did not fire in; ' + path_show(p)[:400]
    stm(c, rid, f, bad, n)
    delivers(c, P, rid, PUE, lambda I, p, st: (I.load(st, F('last_tick_called_'), 'u64'), init(F('local_clk_'), 'ptr')), 'pue_consumer_event_handler_')


def delivers(c, P, rid, cls, noted, hnd):
    for f in handler_of(c, P, rid, cls):
        at_call = {}
        def watch(I, st, e):
            if e.kind == 'icall':
                at_call[id(e)] = st.copy()
        I, ps = run(c, P, f, rid, cfg(f, watch=watch))
        if ps is None:
            continue
        bad = unk = None
        for p in normals(ps):
            ic = p.events('icall')
            if len(ic) != 1:
                bad = 'the handler is called %d times; %s' % (len(ic), path_show(p)[:300])
                continue
            if hnd and hnd not in show_any(ic[0].obj) + show_any(ic[0].args):
                unk = 'calls %s' % show_any(ic[0].obj)
            s = at_call.get(id(ic[0]))
            if s is None:
                unk = 'state unknown'
                continue
            v, clk = noted(I, p, s)
            if entails(p.st.facts, ('eq', clk)):
                continue
            sc = fld(at(clk), 'scheduler_') if clk == init(F('local_clk_'), 'ptr') else None
            cur = I.load(St(), fld(at(I.load(St(), sc, 'ptr')) if sc else at(clk), 'current_tick_'), 'u64')
            if not same(p, v, cur):
                bad = 'the tick noted when the handler is called is %s' % show_any(v)
        stm(c, rid, f, bad, len(normals(ps)), unk)


def single(c, P, rid):
    ok = hint(c, P, PSC, 'next_scheduled_tick_', 'prev_scheduled_tick_', 'is_init_tick_', 'local_scheduler_', 'local_clk_')
    nx, pv, it = init(F('next_scheduled_tick_')), init(F('prev_scheduled_tick_')), init(F('is_init_tick_'), 'bool')
    lc, ls = init(F('local_clk_'), 'ptr'), init(F('local_scheduler_'), 'ptr')
    f = fn1(P, PSC + '::schedule')
    # invariant: prev <= next; before anything was scheduled both are zero
    cur = init(fld(at(ls), 'current_tick_'))
    I, ps = run(c, P, f, rid, cfg(f), facts=[le(pv, nx), ('ne', ls), ('ne', lc)])
    if ps is not None:
        bad = unk = None
        for p in normals(ps):
            r = par(I, St(), f, 0)
            rt = tick(I, p.st, lc, r)
            ab = cur + rt
            if not entails(p.st.facts, le(r, 1)):
                bad = 'a delay above one cycle is accepted; ' + path_show(p)[:300]
            ev = sched_event(p) + [e for e in calls(p, 'scheduleRelativeTick')]
            n1, p1 = [I.load(p.st, F(x), 'u64') for x in ('next_scheduled_tick_', 'prev_scheduled_tick_')]
            if len(ev) > 1:
                bad = 'schedules %d times' % len(ev)
            elif not ev:
                if not entails(p.st.facts, eq(ab, nx)) and not entails(p.st.facts, eq(ab, pv)):
                    bad = 'a tick the event is not scheduled for is skipped; ' + path_show(p)[:500]
                if entails(p.st.facts, ('ne', it)):
                    bad = 'the first schedule call is skipped; ' + path_show(p)[:400]
                if not (same(p, n1, nx) and same(p, p1, pv)):
                    bad = 'forgets a scheduled tick without scheduling'
            else:
                e = ev[0]
                i = 1 if e.name.startswith(SCH) else 0
                if not same(p, e.args[i], rt):
                    bad = 'schedules for %s instead of %s' % (show_any(e.args[i]), show_any(rt))
                if not any(same(p, x, ab) for x in (n1, p1)):
                    bad = 'the tick just scheduled is not remembered, it can be scheduled twice; ' + path_show(p)[:400]
                if not any(same(p, x, nx) for x in (n1, p1)) and not entails(p.st.facts, lt(nx, cur)):
                    bad = 'the tick scheduled before is forgotten; ' + path_show(p)[:400]
                if not entails(p.st.facts, ('ne', it)) and (entails(p.st.facts, eq(ab, nx)) or entails(p.st.facts, eq(ab, pv))):
                    bad = 'schedules a tick twice; ' + path_show(p)[:400]
                if not entails(p.st.facts, ('ne', it)) and not (entails(p.st.facts, ne(ab, nx)) and entails(p.st.facts, ne(ab, pv))) :
                    # ticks in [cur, cur+period]: the earlier of the two is decided by next or prev
                    if not entails(p.st.facts, lt(nx, ab)):
                        bad = 'may schedule a tick the event is already scheduled for; ' + path_show(p)[:500]
                if not entails(p.st.facts, le(p1, n1)) and not entails(p.st.facts, ('ne', it)):
                    bad = 'the ticks scheduled come out of order; ' + path_show(p)[:400]
                if not entails(p.st.facts, ('eq', I.load(p.st, F('is_init_tick_'), 'bool'))) and not entails(p.st.facts, ('eq', it)):
                    bad = 'the event still counts as never scheduled, it can be scheduled again for the same tick; ' + path_show(p)[:400]
        stm(c, rid, f, bad, len(normals(ps)), unk)
    f = fn1(P, PSC + '::cancel')
    I, ps = run(c, P, f, rid, cfg(f, opaque=[SA + '::cancel']))
    if ps is not None:
        bad = unk = None
        lf, hf = init(F('last_fired_tick_')), init(F('has_fired_'), 'bool')
        for p in normals(ps):
            if len(calls(p, SA + '::cancel', SCH + '::cancelEvent')) != 1:
                bad = 'the event is not cancelled'
            n1, p1 = [I.load(p.st, F(x), 'u64') for x in ('next_scheduled_tick_', 'prev_scheduled_tick_')]
            if same(p, n1, nx) or same(p, p1, pv):
                bad = 'the ticks of the cancelled occurrences stay noted, scheduling the event again for them is skipped'
            elif has_field(P, PSC, 'last_fired_tick_') and not (same(p, n1, lf) and same(p, p1, lf)):
                unk = 'ticks noted: %s, %s' % (show_any(n1), show_any(p1))
        stm(c, rid, f, bad, len(normals(ps)), unk)
    delivers(c, P, rid, PSC, lambda I, p, st: (I.load(st, F('last_fired_tick_'), 'u64'), ls), 'consumer_event_handler_')


def cancel(c, P, rid):
    lc, sc = init(F('local_clk_'), 'ptr'), 'scheduler_'
    for n, tgt in (('cancel', 'cancelEvent'), ('isScheduled', 'isScheduled')):
        for f in fns(P, SA + '::' + n):
            I, ps = run(c, P, f, rid, cfg(f, opaque=[SCH + '::isScheduled', SCH + '::cancelEvent']))
            if ps is None:
                continue
            bad = None
            for p in normals(ps):
                ev = calls(p, SCH + '::' + tgt)
                if len(ev) != 1:
                    bad = '%s is called %d times' % (tgt, len(ev))
                    continue
                e = ev[0]
                if e.args[0] != addr(THIS):
                    bad = 'names the event %s' % show_any(e.args[0])
                if sc not in show_any(e.obj):
                    bad = 'asks the scheduler %s' % show_any(e.obj)
                if f.params:
                    if len(e.args) < 2 or not same(p, e.args[1], tick(I, p.st, lc, par(I, St(), f, 0))):
                        bad = 'names the tick %s' % (show_any(e.args[1]) if len(e.args) > 1 else 'of any time')
                elif len(e.args) > 1:
                    bad = 'is limited to the tick %s' % show_any(e.args[1])
                if n == 'isScheduled' and not (isinstance(p.ret, Lin) and 'isScheduled' in show_any(p.ret)):
                    if not (p.ret in (ZERO, ONE) and any('isScheduled' in show_fact(x) for x in p.st.facts)):
                        bad = 'answers %s' % show_any(p.ret)
                if n == 'cancel' and not f.params:
                    after = [x for x in calls(p, 'eventCancelled_') if x.obj == THIS]
                    if not after and P.find(SA + '::eventCancelled_'):
                        # the base version does nothing: it is seen as entered or as a virtual call
                        if not any(x.kind in ('enter', 'leave', 'call') and 'eventCancelled_' in str(x.name) for x in p.events()):
                            bad = 'the event is not told that it was cancelled'
            stm(c, rid, f, bad, len(normals(ps)))
    for f in fns(P, PSC + '::isScheduled'):
        I, ps = run(c, P, f, rid, cfg(f, opaque=[SCH + '::isScheduled']))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            if 'isScheduled' not in show_any(p.ret):
                bad = 'answers %s' % show_any(p.ret)
        stm(c, rid, f, bad, len(normals(ps)))


def asynch(c, P, rid):
    for f in fns(P, 'sparta::AsyncEvent::scheduleRelativeTick'):
        I, ps = run(c, P, f, rid, cfg(f, opaque=[SCH + '::scheduleAsyncEvent']))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            a, s = calls(p, SCH + '::scheduleAsyncEvent'), calls(p, SCH + '::scheduleEvent', SA + '::scheduleRelativeTick')
            if len(a) != 1 or s:
                bad = 'is scheduled %d times asynchronously and %d times from the wrong thread' % (len(a), len(s))
                continue
            if not same(p, a[0].args[0], addr(THIS)) and 'this' not in show_any(a[0].args[0]) or not same(p, a[0].args[1], par(I, St(), f, 0)) or a[0].obj != at(par(I, St(), f, 1)):
                bad = 'schedules %s' % ev_show(a[0])
            if not entails(a[0].facts, ('ne', par(I, St(), f, 1))):
                bad = 'accepts a null scheduler'
        stm(c, rid, f, bad, len(normals(ps)))
    for f in fns(P, 'sparta::AsyncEvent::cancel'):
        I, ps = run(c, P, f, rid, cfg(f, opaque=[SCH + '::cancelAsyncEvent', SCH + '::cancelEvent']))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            a, s = calls(p, SCH + '::cancelAsyncEvent'), calls(p, SCH + '::cancelEvent', SA + '::cancel')
            if len(a) != 1 or s:
                bad = 'cancels %d asynchronous requests and touches the schedule %d times' % (len(a), len(s))
        stm(c, rid, f, bad, len(normals(ps)))


def glob(c, P, rid):
    GE, GP = 'sparta::GlobalEvent', 'sparta::GlobalEventProxy'
    for f in fns(P, GE + '::schedule'):
        I, ps = run(c, P, f, rid, cfg(f, opaque=[PPE + '::preparePayload', SA + '::schedule', GP + '::GlobalEventProxy']))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            pp, s = calls(p, 'preparePayload'), [e for e in calls(p, SA + '::schedule')]
            if len(pp) != 1 or len(s) != 1:
                bad = 'prepares %d and schedules %d payloads; %s' % (len(pp), len(s), path_show(p)[:300])
                continue
            a = s[0].args
            if not any(same(p, a[0], x) for x in (par(I, St(), f, 0, 'u64'), I.load(p.st, ('d', par(I, St(), f, 0)), 'u64') if False else par(I, St(), f, 0, 'u64'))) and not names(a[0], f.params[0][1]):
                bad = 'the delay is %s' % show_any(a[0])
            wc = par(I, St(), f, 1) if len(f.params) > 1 else init(F('local_clk_'), 'ptr')
            if len(a) < 2 or not same(p, a[1], wc):
                bad = 'the clock is %s' % (show_any(a[1]) if len(a) > 1 else 'that of the shared event')
            ctor = [e for e in p.events() if e.name == GP and 'ev_handler_lifetime_' in show_any(e.args)]
            if not ctor and 'ev_handler_lifetime_' not in path_show(p, 60):
                bad = 'the payload is not bound to the life of this event\'s handler'
        stm(c, rid, f, bad, len(normals(ps)))
    for f in fns(P, GP + '::operator()'):
        I, ps = run(c, P, f, rid, cfg(f))
        if ps is None:
            continue
        bad = None
        n = sum(1 for p in normals(ps) if p.events('icall'))
        for p in normals(ps):
            if len(p.events('icall')) > 1:
                bad = 'calls the handler %d times' % len(p.events('icall'))
            ex = [x for x in p.st.facts if 'expired' in show_fact(x) or 'lock' in show_fact(x)]
            if p.events('icall') and not ex:
                bad = 'calls the handler without asking whether it still exists; ' + path_show(p)[:300]
            for x in ex:
                if 'expired' in show_fact(x):
                    if (x[0] == 'ne' or x[0] == 'eq' and x[1].c) and p.events('icall'):
                        bad = 'calls a handler that is gone; ' + path_show(p)[:300]
        if not n and not bad:
            bad = 'never calls the handler'
        stm(c, rid, f, bad, n)
    # copies and moves have a life of their own, a moved-from event has none
    lt_ = 'ev_handler_lifetime_'
    for f in [x for x in P.find(GE + '::GlobalEvent') + P.find(GE + '::operator=') if len(x.params) == 1 and 'GlobalEvent' in x.params[0][2]]:
        I, ps = run(c, P, f, rid, cfg(f, opaque=['sparta::utils::LifeTracker::*']))
        if ps is None:
            continue
        mv = '&&' in f.params[0][2]
        bad = None
        for p in normals(ps):
            own = [e for e in p.events() if e.kind in ('ctor', 'write', 'call', 'cont') and (e.obj == F(lt_) or 'LifeTracker' in e.name) and any(addr(F('event_handler_')) == a for a in e.args)]
            if not own:
                bad = 'does not get a life of its own; ' + path_show(p)[:400]
            if mv:
                rs = [e for e in p.events() if e.name.endswith('reset') and lt_ in show_any(e.obj) and names(e.obj, f.params[0][1])]
                if not rs and not any(lt_ in show_any(e.obj) and names(e.obj, f.params[0][1]) for e in p.events() if e.kind in ('write', 'cont', 'call')):
                    bad = 'the moved-from event\'s payloads would call its emptied handler'
        stm(c, rid, f, bad, len(normals(ps)))


def startup(c, P, rid):
    for f in fns(P, 'sparta::StartupEvent::StartupEvent'):
        if 'Handler' not in ''.join(x[2] for x in f.params):
            continue
        I, ps = run(c, P, f, rid, cfg(f, opaque=[SCH + '::scheduleStartupHandler_', SCH + '::isFinalized'], transparent=CLK + EVN))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            r = calls(p, SCH + '::scheduleStartupHandler_')
            r2 = [e for e in p.events('cont') if 'startup_events_' in show_any(e.obj)]
            if len(r) + len(r2) != 1:
                bad = 'registers %d times' % (len(r) + len(r2))
                continue
            e = (r + r2)[0]
            if not names(e.args, f.params[-1][1]):
                bad = 'registers %s' % show_any(e.args)
            if not any(re.search('isFinalized|finalized|getPhase|phase', show_fact(x)) for x in e.facts):
                bad = 'accepted whatever the phase; ' + path_show(p)[:300]
        stm(c, rid, f, bad, len(normals(ps)))


# ---- K07 payload events --------------------------------------------------------

FL = 'sparta::utils::FastList'
PDP = PPE + '::PayloadDeliveringProxy'
SH = 'sparta::ScheduleableHandle'
PURE = {FL + '::' + x for x in ('begin', 'end', 'size', 'getStorage', 'max_size')}


def pcfg(f, **kw):
    op = list(kw.pop('opaque', ())) + [FL + '::*']
    return cfg(f, opaque=op, pure=PURE, **kw)


def probe(fs):
    return [f for f in fs if re.search(r'PhasedPayloadEvent<VpElem>', f.cls or '')]


def destroys(p):
    return [e for e in p.events() if e.kind in ('call', 'dtor') and (e.name == 'std::destroy_at' or e.kind == 'dtor')]


def K07(c):
    P = c.program('inst/ports.cpp')
    r1 = c.rule('prepare', 'a prepared payload is put into a free proxy, recorded in flight once, with the event\'s continuing flag and group, and handed out', 1)
    r2 = c.rule('schedule', 'a payload is scheduled once; a scheduled or cancelled one is refused with no effect', 1)
    r3 = c.rule('deliver', 'the handler runs once, with the payload, while the payload is alive and can be scheduled again; an unscheduled payload is refused', 1)
    r4 = c.rule('reclaim', 'a payload is destroyed once, exactly when it is neither scheduled nor held nor being delivered, and its proxy becomes free once and leaves the in-flight list', 2)
    r5 = c.rule('end', 'the payloads still in flight are destroyed with the event', 1)
    r6 = c.rule('cancel', 'cancelling visits every payload in flight, leaves the list\'s element before it goes away, cancels exactly those asked for and counts them', 4)
    r7 = c.rule('find', 'getHandleIf, confirmIf and isScheduled look at every payload in flight', 5)
    r8 = c.rule('handle', 'the number of handles of a payload is one up per handle made, one down per handle gone, and a payload without handles is offered for reclaiming', 6)
    hint(c, P, PPE, 'inflight_pl_', 'free_pl_', 'free_idx_', 'allocated_proxies_', 'allocation_idx_', 'prototype_')
    prepare(c, P, r1)
    pschedule(c, P, r2)
    deliver(c, P, r3)
    reclaim(c, P, r4)
    ending(c, P, r5)
    pcancel(c, P, r6, r7)
    handles(c, P, r8)


def pone(P, name):
    fs = probe(P.find(name))
    if not fs:
        from check import Broken
        raise Broken('no function ' + name)
    return fs[0]


def prepare(c, P, rid):
    f = pone(P, PPE + '::preparePayload')
    fi, ai = init(F('free_idx_'), 'u32'), init(F('allocation_idx_'), 'u32')
    snap = {}
    def watch(I, st, e):
        if e.kind == 'call' and e.obj == F('inflight_pl_') and e.args and isinstance(e.args[-1], tuple) and e.args[-1][0] == 'REF':
            snap[id(e)] = I.load(st.copy(), e.args[-1][1], 'ptr')
    I, ps = run(c, P, f, rid, pcfg(f, maxpaths=4000, watch=watch))
    if ps is None:
        return
    bad = unk = None
    for p in normals(ps):
        pl = [e for e in p.events('call') if e.name in (FL + '::emplace_back', FL + '::emplace_front', FL + '::emplace', FL + '::insert') and e.obj == F('inflight_pl_')]
        if len(pl) != 1:
            bad = 'the payload is recorded in flight %d times' % len(pl)
            continue
        px = snap.get(id(pl[0]), pl[0].args[-1])
        if not isinstance(px, Lin):
            unk = 'proxy %s' % show_any(px)
            continue
        if entails(p.st.facts, ('eq', px)):
            continue
        f1, a1 = I.load(p.st, F('free_idx_'), 'u32'), I.load(p.st, F('allocation_idx_'), 'u32')
        s = p.st.copy()
        fr = I.load(St(), ('i', F('free_pl_'), fi - 1), 'ptr')
        if entails(p.st.facts, eq(f1, fi - 1)):
            if not same(p, px, fr):
                bad = 'the free proxy taken is not the one used; ' + path_show(p)[:300]
            if not entails(p.st.facts, ('le', -fi + 1)):
                bad = 'takes a proxy from an empty free list'
        elif entails(p.st.facts, eq(f1, fi)):
            if not entails(p.st.facts, eq(a1, ai + 1)):
                bad = 'the proxy stays available for the next payload; ' + path_show(p)[:300]
            if 'allocated_proxies_' not in show_any(px):
                unk = 'proxy %s' % show_any(px)
        else:
            bad = 'the free list goes from %s to %s proxies' % (show(fi), show(f1))
        pn = p.events('pnew')
        if len(pn) != 1:
            bad = 'the payload is constructed %d times' % len(pn)
        elif not names([e.args for e in p.events() if e.kind in ('write', 'ctor') and e.obj == pn[0].obj], f.params[0][1]):
            bad = 'the payload is not the one given'
        for fn, src, ty in (('continuing_', 'continuing_', 'bool'), ('pgid_', 'pgid_', 'u32')):
            v = I.load(p.st, fld(at(px), fn), ty)
            if not same(p, v, init(fld(F('prototype_'), src), ty)):
                bad = 'the payload does not get the event\'s %s' % fn
        lo = [e for e in p.events('write') if e.obj[0] == 'f' and 'loc_' in show_any(e.obj) and 'emplace' in show_any(e.args)]
        if not lo:
            bad = 'the payload does not know its place in the list'
        if len({id(e) for e in pl}) == 1 and not any(e.kind == 'write' and 'scheduleable_handle_count_' in show_any(e.obj) for e in p.events()):
            bad = 'no handle is counted; %s %s' % (show_any(px), [show_fact(x) for x in p.st.facts])
    stm(c, rid, f, bad, len(normals(ps)), unk)


def pschedule(c, P, rid):
    f = pone(P, PDP + '::scheduleRelativeTick')
    sc, cn = init(F('scheduled_'), 'bool'), init(F('cancelled_'), 'bool')
    I, ps = run(c, P, f, rid, pcfg(f))
    if ps is None:
        return
    hint(c, P, PDP, 'scheduled_', 'cancelled_')
    bad = None
    for p in normals(ps):
        ev = sched_event(p) + [e for e in calls(p, SA + '::scheduleRelativeTick')]
        if len(ev) != 1:
            bad = 'schedules %d times' % len(ev)
            continue
        e = ev[0]
        k = 1 if e.name.startswith(SCH) else 0
        if not same(p, e.args[k], par(I, St(), f, 0)):
            bad = 'schedules for %s' % show_any(e.args[k])
        if not entails(e.facts, ('eq', sc)):
            bad = 'a payload that is scheduled already is accepted; ' + path_show(p)[:300]
        if not entails(e.facts, ('eq', cn)):
            bad = 'a cancelled payload is accepted; ' + path_show(p)[:300]
        if not entails(p.st.facts, ('ne', I.load(p.st, F('scheduled_'), 'bool'))):
            bad = 'the payload is not marked as scheduled; ' + path_show(p)[:300]
    stm(c, rid, f, bad, len(normals(ps)))
    if not bad:
        refuse_clean(c, P, rid, f, ps)


def after_handler(I, st):
    for n in ('scheduled_', 'cancelled_', 'scheduleable_handle_count_', 'loc_'):
        I.havoc_field(st, n)


def deliver(c, P, rid):
    fs = probe(handler_of(c, P, rid, PDP))
    for f in fs:
        snaps = {}
        def watch(I, st, e):
            if e.kind == 'icall':
                snaps[id(e)] = st.copy()
        I, ps = run(c, P, f, rid, pcfg(f, watch=watch, on_icall=after_handler, opaque=[PDP + '::reclaim_']))
        if ps is None:
            continue
        sc = init(F('scheduled_'), 'bool')
        bad = unk = None
        dl = has_field(P, f.cls, 'delivering_')
        for p in normals(ps):
            ic = p.events('icall')
            if len(ic) != 1:
                bad = 'the handler runs %d times' % len(ic)
                continue
            if not entails(ic[0].facts, ('ne', sc)):
                bad = 'a payload that is not scheduled is delivered; ' + path_show(p)[:300]
            if 'payload_' not in show_any(ic[0].args):
                bad = 'the handler gets %s' % show_any(ic[0].args)
            s = snaps.get(id(ic[0]))
            if s is not None and not entails(s.facts, ('eq', I.load(s, F('scheduled_'), 'bool'))):
                bad = 'the handler sees the payload as still scheduled, it cannot schedule it again'
            if s is not None and dl and not entails(s.facts, ('ne', I.load(s, F('delivering_'), 'bool'))):
                bad = 'the payload can be reclaimed while its handler runs'
            if dl and not entails(p.st.facts, ('eq', I.load(p.st, F('delivering_'), 'bool'))):
                bad = 'the payload stays marked as being delivered, it is never reclaimed'
            ev = p.events()
            ih = ev.index(ic[0])
            rc = [i for i, e in enumerate(ev) if e.kind == 'call' and e.name == PDP + '::reclaim_']
            if [i for i in rc if i < ih] or destroys_before(ev, ih):
                bad = 'the payload is given back before its handler ran'
            if not [i for i in rc if i > ih]:
                unk = 'not offered for reclaiming after the handler'
                if not any(e.kind == 'call' and 'reclaim' in e.name for e in ev) and not destroys(p):
                    bad = 'the payload is never given back; ' + path_show(p)[:300]
                    unk = None
        for p in throws(ps):
            if p.events('icall') and not entails(p.st.facts, ('ne', sc)):
                bad = 'delivered, then refused'
            # refused although scheduled
            if entails(p.st.facts, ('ne', sc)) and not p.events('icall'):
                bad = 'a scheduled payload is refused'
        stm(c, rid, f, bad, len(normals(ps)), unk)


def destroys_before(ev, i):
    return [e for e in ev[:i] if e.kind == 'call' and e.name == 'std::destroy_at']


def reclaim(c, P, rid):
    for nm in ('reclaim_', 'eventCancelled_'):
        fs = probe(P.find(PDP + '::' + nm))
        for f in fs[:1]:
            dl = has_field(P, f.cls, 'delivering_')
            I, ps = run(c, P, f, rid, pcfg(f))
            if ps is None:
                continue
            bad = unk = None
            n = 0
            for p in normals(ps):
                d = destroys(p)
                free = {'scheduled_': init(F('scheduled_'), 'bool'), 'a held handle': init(F('scheduleable_handle_count_'), 'u32')}
                if nm == 'eventCancelled_':
                    del free['scheduled_']
                    if not entails(p.st.facts, ('eq', I.load(p.st, F('scheduled_'), 'bool'))):
                        bad = 'a cancelled payload still counts as scheduled; ' + path_show(p)[:200]
                if dl:
                    free['being delivered'] = init(F('delivering_'), 'bool')
                er = [e for e in p.events('call') if e.name == FL + '::erase']
                fr = [e for e in p.events('write') if e.obj[0] == 'i' and 'free_pl_' in show_any(e.obj)]
                if d:
                    n += 1
                    for k, v in free.items():
                        if not entails(p.st.facts, ('eq', v)):
                            bad = 'a payload is destroyed in spite of %s; %s' % (k, path_show(p)[:300])
                    if len(d) != 1 or len(er) != 1 or len(fr) != 1:
                        bad = 'destroyed %d times, taken from the list %d times, made available %d times; %s' % (len(d), len(er), len(fr), path_show(p)[:300])
                        continue
                    pp = init(F('parent_'), 'ptr')
                    fi = fld(at(pp), 'free_idx_')
                    if fr[0].obj[2] != init(fi, 'u32') or not entails(p.st.facts, eq(I.load(p.st, fi, 'u32'), init(fi, 'u32') + 1)):
                        bad = 'the proxy is put into the free list at %s, leaving %s free' % (show_any(fr[0].obj[2]), show_any(I.load(p.st, fi, 'u32')))
                    ie, idd = p.events().index(er[0]), p.events().index(d[0])
                    if ie < idd and 'getStorage' in show_any(d[0].args):
                        bad = 'the proxy is looked up in the list after it left it'
                    lc = I.load(p.st, fld(F('loc_'), 'node_idx_'), 'i32')
                    if entails(p.st.facts, eq(lc, init(fld(F('loc_'), 'node_idx_'), 'i32'))):
                        bad = 'the payload keeps its old place in the list, it can be destroyed twice; ' + path_show(p)[:300]
                else:
                    if er or fr:
                        bad = 'made available without being destroyed'
                    inlist = [x for x in p.st.facts if x[0] == 'eq' and 'loc_' in show_fact(x) and 'end(' in show_fact(x)]
                    # neither in use nor gone already, and yet not reclaimed
                    if not any(entails(p.st.facts, ('ne', v)) for v in free.values()) and not inlist:
                        bad = 'a payload nobody uses is not given back; ' + path_show(p)[:300]
            stm(c, rid, f, bad, n, unk)


def ending(c, P, rid):
    f = pone(P, PPE + '::~PhasedPayloadEvent')
    I, ps = run(c, P, f, rid, pcfg(f))
    if ps is None:
        return
    norm(I)
    bad = unk = None
    ok = False
    for info in I.loopinfo:
        if info['cont'] != F('inflight_pl_') and 'inflight_pl_' not in str(info.get('elem')):
            continue
        n0 = len(info['head'].events())
        ok = True
        if info['breaks'] or info['rets']:
            bad = 'not every payload in flight is destroyed'
        for e in info['ends']:
            d = [x for x in e.events()[n0:] if x.kind == 'call' and x.name == 'std::destroy_at' or x.kind == 'dtor']
            if len(d) != 1:
                bad = 'a payload in flight is destroyed %d times' % len(d)
    if not ok:
        if not any(destroys(p) for p in ps):
            bad = 'the payloads in flight are not destroyed'
        else:
            unk = 'loop not recognised'
    stm(c, rid, f, bad, len(normals(ps)), unk)


def pcancel(c, P, rid, rfind):
    OP = [SA + '::cancel', SA + '::isScheduled', PDP + '::eventCancelled_']
    for nm in ('cancel', 'cancelIf', 'getHandleIf', 'confirmIf', 'isScheduled'):
        for f in probe(P.find(PPE + '::' + nm)):
            canc = nm.startswith('cancel')
            if nm == 'isScheduled' and not f.params:
                continue
            r = rid if canc else rfind
            I, ps = run(c, P, f, r, pcfg(f, opaque=OP))
            if ps is None:
                continue
            norm(I)
            bad = unk = None
            crit = 'isScheduled' if f.params and re.search('Cycle', f.params[0][2]) else 'criteria|fcall|compare|' + re.escape(f.params[0][1] or '?') if f.params else '$^'
            act = lambda es: [e for e in es if canc and e.kind == 'call' and (e.name in (SA + '::cancel', SCH + '::cancelEvent') or e.name.endswith('::eventCancelled_'))
                              or nm == 'getHandleIf' and e.kind == 'cont' and re.search('push|emplace|insert', e.name)]
            loops = [i for i in I.loopinfo if i['ends'] or i['rets'] or i['breaks']]
            if not loops:
                bad = 'the payloads in flight are not visited' if not any(act(p.events()) for p in ps) else None
                unk = 'no loop'
            for info in loops:
                h = info['head']
                n0 = len(h.events())
                over = info['cont'] == F('inflight_pl_')
                if info['breaks'] or info['rets']:
                    if canc or nm == 'getHandleIf':
                        bad = 'stops before the last payload in flight'
                seen = {}
                ends_ = []
                early = [x[1] for x in info['rets'] if x[0] == 'ret'] if not canc and nm != 'getHandleIf' else []
                for x in info['rets'] if early else ():
                    if x[0] == 'ret' and x[2] != ONE:
                        bad = 'answers %s at the first match' % show_any(x[2])
                if not canc and nm != 'getHandleIf':
                    for p in normals(ps):
                        if p.ret == ONE and not info['rets']:
                            unk = 'answer not followed'
                for e in info['ends'] + early:
                    ev = e.events()[n0:]
                    a = act(ev)
                    adv = [i for i, x in enumerate(ev) if x.kind == 'call' and x.name.rsplit('::', 1)[-1] in ('advanceNode_', 'operator++')]
                    if canc and a:
                        ia = ev.index(a[0])
                        if over and not adv or adv and min(adv) > ia:
                            bad = 'the list is advanced from an element that is already gone'
                        if len(a) > 1:
                            bad = 'cancels %d times' % len(a)
                        if nm == 'cancelIf' and a[0].args and a[0].name == SA + '::cancel':
                            bad = 'cancels only the time %s' % show_any(a[0].args)
                    if nm in ('cancelIf', 'getHandleIf', 'confirmIf') or f.params:
                        hit = bool(a) if canc or nm == 'getHandleIf' else any(e is x for x in early)
                        cond = [x for x in e.facts - h.facts if re.search(crit, show_fact(x))]
                        pol = None
                        for x in cond:
                            fcall = re.search('fcall|isScheduled', show_fact(x))
                            pos = (x[0] == 'ne' or x[0] == 'eq' and x[1].c != 0) if fcall else x[0] == 'eq'
                            pol = pos if pol in (None, pos) else 'mixed'
                        if pol is None:
                            if a and canc and not cond:
                                bad = 'cancels a payload without asking whether it is meant'
                            else:
                                unk = unk or 'condition not seen'
                        elif pol != 'mixed' and pol != hit:
                            bad = '%s a payload that is %s' % ('takes' if hit else 'leaves', 'not meant' if hit else 'meant')
                    elif canc and not a:
                        bad = 'leaves a payload in flight'
                    ends_.append((e, len(a)))
                for k in {k for e, _ in ends_ for k in e.store if k[0] == 'var'}:
                    hv = I.load(h.copy(), k, 'u32')
                    for e, n in ends_:
                        v = I.load(e.copy(), k, 'u32')
                        if isinstance(hv, Lin) and isinstance(v, Lin) and (v - hv).is_const():
                            seen.setdefault(k, []).append(((v - hv).c, n))
                # the returned counter moves with the cancellations
                if canc:
                    rets = {show_any(p.ret) for p in normals(ps)}
                    for k, ds in seen.items():
                        if any(re.match(re.escape(str(k[2])) + r"'", r_) for r_ in rets) and any(d != n for d, n in ds):
                            bad = 'counts %d for %d cancelled payloads' % [x for x in ds if x[0] != x[1]][0]
            stm(c, r, f, bad, len(normals(ps)), unk)


def handles(c, P, rid):
    me = init(F('scheduleable_'), 'ptr')
    cnt = lambda I, st, ptr: I.load(st, fld(at(ptr), 'scheduleable_handle_count_'), 'u32')
    hint(c, P, SH, 'scheduleable_')
    for f in P.find(SH + '::ScheduleableHandle') + P.find(SH + '::operator=') + P.find(SH + '::~ScheduleableHandle'):
        snap = {}
        def watch(I, st, e):
            if e.kind == 'call' and e.name.endswith('::reclaim_'):
                snap[id(e)] = st.copy()
        def reclaim_stub(I, st, call):
            # gives the payload back; the counts of other payloads stay
            I.event(st, 'call', SA + '::reclaim_', None, (), call.line, call)
            return [(st, ZERO)]
        mk = lambda: cfg(f, opaque=[SA + '::reclaim_'], stubs={SA + '::reclaim_': reclaim_stub}, watch=watch)
        if f.short == 'operator=' and 'Handle' in f.params[0][2]:
            # the two handles name one payload, or two
            src = Interp(P, mk()).load(St(), refloc(f, 0, 'scheduleable_'), 'ptr')
            I, ps = run(c, P, f, rid, mk(), facts=[ne(me, src)])
            I2, ps2 = run(c, P, f, rid, mk(), facts=[eq(me, src)])
            ps = None if ps is None or ps2 is None else list(ps) + list(ps2)
        else:
            I, ps = run(c, P, f, rid, mk())
        if ps is None:
            continue
        bad = unk = None
        dtor, asg = f.short.startswith('~'), f.short == 'operator='
        for p in normals(ps):
            fs = p.st.facts
            src = None
            if f.params:
                t = f.params[0][2]
                if 'Handle' in t:
                    src = I.load(St(), refloc(f, 0, 'scheduleable_'), 'ptr')
                elif '*' in t:
                    src = par(I, St(), f, 0)
                else:
                    src = addr(refloc(f, 0))
            mv = f.params and '&&' in f.params[0][2]
            want = []
            if dtor or asg:
                if not entails(fs, ('eq', me)):
                    want.append((me, -1))
            if src is not None and not mv:
                if not entails(fs, ('eq', src)):
                    want.append((src, 1))
            tot = {}
            if len(want) == 2 and entails(fs, eq(want[0][0], want[1][0])):
                want = [(want[0][0], 0)]
            for ptr, d in want:
                at_ = [snap[id(e)] for e in p.events('call') if id(e) in snap]
                a, b = cnt(I, St(), ptr), cnt(I, (at_[0] if at_ and d == -1 else p.st).copy(), ptr)
                if not same(p, b, a + d) and not (b - a).is_const():
                    unk = 'count not followed'
                elif not same(p, b, a + d):
                    bad = 'the number of handles goes from %s to %s instead of %+d; %s' % (show_any(a), show_any(b), d, path_show(p)[:300])
                rc = [e for e in p.events('call') if e.name.endswith('::reclaim_')]
                if d == -1:
                    zero = entails(fs, eq(a, 1))
                    if zero and not rc or not zero and not entails(fs, ne(a, 1)) and not rc:
                        bad = 'a payload whose last handle goes is not given back; ' + path_show(p)[:300]
                    if rc and entails(fs, ne(a, 1)):
                        bad = 'a payload that still has handles is given back; ' + path_show(p)[:300]
            if not dtor:
                v = I.load(p.st, F('scheduleable_'), 'ptr')
                w = src if src is not None else const(0)
                if not same(p, v, w) and not (asg and entails(fs, eq(me, src))):
                    bad = 'refers to %s instead of %s; %s' % (show_any(v), show_any(w), path_show(p)[:300])
            if mv and not asg:
                s = p.st.copy()
                z = I.load(s, refloc(f, 0, 'scheduleable_'), 'ptr')
                if not entails(fs, ('eq', z)) and not entails(fs, ('eq', src)):
                    bad = 'the moved-from handle still refers to the payload, it will be counted down twice'
                if not same(p, cnt(I, St(), src), cnt(I, p.st.copy(), src)):
                    # counted up for this one is only right if the other stays
                    bad = 'the number of handles changes by a move'
        stm(c, rid, f, bad, len(normals(ps)), unk)


def refloc(f, i, *flds):
    """location a reference parameter refers to"""
    return fld(('p', f.params[i][1] or 'arg%d' % i), *flds)
