"""P01 what a port sends arrives; P02 binding; P03 sync ports."""
from lib import *
from kernel import fld, par, SCH
from dag import stm, names
from events import (cfg, calls, same, tick, handler_of, PPE, SA, refloc, bound)
from loops import norm

PT = 'sparta::Port'
IP, OP = 'sparta::InPort', 'sparta::OutPort'
DIP, DOP = 'sparta::DataInPort', 'sparta::DataOutPort'
SIP, SOP = 'sparta::SignalInPort', 'sparta::SignalOutPort'
YIP, YOP = 'sparta::SyncInPort', 'sparta::SyncOutPort'
DC = 'sparta::DataContainer'
EVT = [PPE + '::*', SA + '::schedule', SA + '::scheduleRelativeTick']


def P01(c):
    P = c.program('inst/ports.cpp', 'Scheduleable.cpp')
    r1 = c.rule('fan-out', 'send, cancel, cancelIf and isDriven of an out port visit every bound in port once, with what was given, and combine the answers; sending unbound is refused', 6)
    r2 = c.rule('delay', 'what is sent is delivered once: at the sum of the send and port delay in 64 bits on the receiver\'s clock, or at once when that sum is zero and the phase is the current one; a zero delay into a phase already past is refused', 2)
    r3 = c.rule('receive', 'on arrival the data is stored with the current tick before the registered handler is called, once, with that data', 2)
    r4 = c.rule('container', 'received data stays readable until pulled or cleared; reading without data is refused; the time stamp is the tick of arrival', 6)
    r5 = c.rule('pending', 'cancel, cancelIf and isDriven of an in port act on its own pending deliveries', 4)
    fanout(c, P, r1)
    delay(c, P, r2)
    receive(c, P, r3)
    container(c, P, r4)
    pending(c, P, r5)


def gives(x, p):
    """x is derived from parameter p (a copy of it included)"""
    return names(x, p) or "('p', '%s')" % p in show_any(x) or re.search(r'\(R tmp', show_any(x)) is not None


def vp(fs):
    """one instance per class template"""
    return [f for f in fs if '<' not in (f.cls or '') or 'VpElem' in f.cls or 'DataContainer<bool>' in f.cls]


def fanout(c, P, rid):
    for cls, icls in ((DOP, DIP), (SOP, SIP), (YOP, YIP)):
        for m in ('send', 'cancel', 'cancelIf', 'isDriven'):
            if cls == YOP and m != 'isDriven':
                continue
            for f in vp(P.find(cls + '::' + m)):
                tgt = {'send': 'send_'}.get(m, m)
                ops = [icls + '::' + x for x in ('send_', 'cancel', 'cancelIf', 'isDriven')] + [PPE + '::*', SA + '::schedule*']
                I, ps = run(c, P, f, rid, cfg(f, opaque=ops))
                if ps is None:
                    continue
                norm(I)
                bad = unk = None
                loops = [i for i in I.loopinfo if i['ends'] or i['rets'] or i['breaks']]
                hit = lambda es: [e for e in es if e.kind == 'call' and e.name.rsplit('::', 1)[-1] == tgt]
                if not loops:
                    if not any(hit(p.events()) for p in ps):
                        bad = 'the bound ports are not visited'
                    else:
                        unk = 'no loop'
                for info in loops:
                    h = info['head']
                    n0 = len(h.events())
                    el = info['elem']
                    if el is None:
                        unk = 'loop not recognised'
                    if (info['breaks'] or info['rets']) and m != 'isDriven' and any(x[0] == 'ret' for x in info['rets']) or info['breaks'] and m != 'isDriven':
                        bad = 'stops before the last bound port'
                    accs = {}
                    rets = [x for x in info['rets'] if x[0] == 'ret']
                    for e, early in [(x, None) for x in info['ends']] + [(x[1], x[2]) for x in rets]:
                        hs = hit(e.events()[n0:])
                        if len(hs) != 1:
                            bad = '%s of a bound port is called %d times' % (tgt, len(hs))
                            continue
                        if el is not None and hs[0].obj is not None and show_any(el) not in show_any(hs[0].obj) and show_loc(el) not in show_any(hs[0].obj):
                            unk = unk or 'called on %s, element %s' % (show_any(hs[0].obj), show_loc(el))
                        for i, q in enumerate(f.params):
                            if len(hs[0].args) <= i or not gives(hs[0].args[i], q[1] or 'arg%d' % i):
                                bad = 'passes on %s for %s' % (show_any(hs[0].args[i]) if len(hs[0].args) > i else 'nothing', q[1])
                            elif q[2] == 'u64' and not same_st(e, hs[0].args[i], par(I, St(), f, i, 'u64')):
                                bad = 'passes on %s for %s' % (show_any(hs[0].args[i]), q[1])
                        if m == 'isDriven':
                            res = [x for x in e.facts - h.facts if 'isDriven' in show_fact(x)]
                            pos = any(x[0] == 'ne' or x[0] == 'eq' and x[1].c for x in res)
                            if early is not None:
                                if not (early == ONE and pos or isinstance(early, Lin) and not early.is_const() and 0):
                                    bad = 'answers %s at a port that is%s driven' % (show_any(early), '' if pos else ' not')
                            elif pos and not any(isinstance(v, Lin) and v == ONE for k, v in e.store.items() if k[0] == 'var'):
                                bad = 'a driven port does not make the out port driven'
                        if m.startswith('cancel'):
                            rets_ = {show_any(p.ret) for p in normals(ps)}
                            for k, v in e.store.items():
                                if k[0] == 'var' and isinstance(v, Lin):
                                    old = I.load(h.copy(), k, 'u32')
                                    d = v - old
                                    if any(re.match(re.escape(str(k[2])) + r"'", x) for x in rets_):
                                        if d.is_const() and d.c:
                                            bad = 'counts %d per port instead of what it cancelled' % d.c
                                        elif isinstance(old, Lin) and not set(old.atoms()) <= set(v.atoms()) and tgt in show_any(v):
                                            bad = 'only the count of the last port is returned'
                                    if tgt in show_any(d) and not names(d, 'cancel_none'):
                                        accs[k] = d
                    if m.startswith('cancel') and info['ends']:
                        rs = {show_any(p.ret) for p in normals(ps)}
                        good = [k for k, d in accs.items() if len(d.t) == 1 and not d.c and d.t[0][1] == 1]
                        if not accs and rs <= {'0'}:
                            bad = 'the cancelled deliveries are not counted'
                        elif not good:
                            unk = 'the sum of the counts is not followed'
                if m == 'isDriven':
                    for p in normals(ps):
                        if p.ret == ONE and not any(x[0] == 'ret' for i in loops for x in i['rets']) and not any(i['ends'] for i in loops):
                            bad = 'always driven'
                        if isinstance(p.ret, Lin) and p.ret.is_const() and p.ret.c and not loops:
                            bad = 'always driven'
                if m == 'send':
                    unbound = [p for p in normals(ps) if entails(p.st.facts, ('eq', init(fld(F('bound_in_ports_'), '$size'))))]
                    if unbound:
                        bad = 'sending on an unbound port is accepted; ' + path_show(unbound[0])[:300]
                    for p in throws(ps):
                        if any(is_effect(e) for e in p.events()) and entails(p.st.facts, ('eq', init(fld(F('bound_in_ports_'), '$size')))):
                            bad = 'refused after an effect'
                stm(c, rid, f, bad, len(normals(ps)), unk, '')


def Lin_of(L, a):
    """the atom a of L as a value"""
    for x, k in L.t:
        if x == a or atom_key(x) == a:
            return Lin(0, ((x, 1),))
    return None


def same_st(st, a, b):
    return a == b or isinstance(a, Lin) and isinstance(b, Lin) and entails(st.facts, eq(a, b))


def delay(c, P, rid):
    for cls, n in ((DIP, 'user_payload_delivery_'), (SIP, 'user_signal_delivery_')):
        hnd = {g.name for g in vp(handler_of(c, P, rid, cls))}
        if not hnd:
            raise Broken('no delivery handler of ' + cls)
        for f in vp(fns(P, cls + '::send_')):
            ok = hint(c, P, f.cls, 'port_delay_', n)
            I, ps = run(c, P, f, rid, cfg(f, opaque=EVT + sorted(hnd)))
            if ps is None:
                continue
            bad = unk = None
            data = len(f.params) == 2
            rel = par(I, St(), f, len(f.params) - 1, 'u64')
            tot = rel + init(F('port_delay_'), 'u64')
            ev = at(init(F(n), 'ptr'))
            ph = init(fld(ev, 'sched_phase_'), 'i32')
            cur = None
            for p in normals(ps):
                imm = [e for e in p.events('call') if e.name in hnd]
                sch = [e for e in calls(p, SA + '::schedule', SA + '::scheduleRelativeTick')]
                pre = calls(p, PPE + '::preparePayload')
                if len(imm) + len(sch) != 1:
                    bad = 'delivered %d times; %s' % (len(imm) + len(sch), path_show(p)[:400])
                    continue
                zero = entails(p.st.facts, ('eq', tot))
                past = [x for x in p.st.facts if 'current_scheduling_phase_' in show_fact(x)]
                if imm:
                    if not zero:
                        bad = 'delivered at once although delayed by %s; %s' % (show(tot), path_show(p)[:300])
                    if not any(x[0] == 'eq' for x in past) and not (any(x[0] == 'le' for x in past) and len(past) > 1):
                        bad = 'delivered at once whatever the phase; ' + path_show(p)[:300]
                    elif any(x[0] == 'ne' for x in past):
                        bad = 'delivered at once in another phase; ' + path_show(p)[:300]
                    if data and not names(imm[0].args, f.params[0][1]):
                        bad = 'delivers %s' % show_any(imm[0].args)
                else:
                    a = sch[0].args
                    if data and (len(pre) != 1 or not names(pre[0].args, f.params[0][1])):
                        bad = 'the payload is %s' % show_any([e.args for e in pre])
                    elif data and show_any(pre[0].obj) != show_loc(ev):
                        bad = 'the payload goes to the event %s' % show_any(pre[0].obj)
                    if sch[0].name.endswith('scheduleRelativeTick'):
                        unk = 'scheduled in ticks'
                    else:
                        v = a[0] if a else None
                        if v is None or not same(p, v, tot):
                            bad = 'the delay is %s instead of %s' % (show_any(v) if a else 'that of the event', show(tot))
                        if len(a) < 2 or not re.search('receiver_clock_|getClock', show_any(a[1])):
                            bad = 'the clock is %s' % (show_any(a[1]) if len(a) > 1 else 'that of the event')
                cur = {a for x in past for a in x[1].atoms() if 'current_scheduling_phase_' in show_any(a)}
                own = {a for x in past for a in x[1].atoms() if a not in cur}
                lin = lambda a: [y for x in past for y in [Lin_of(x[1], a)] if y is not None][0]
                if zero and len(cur) == 1 and len(own) == 1 and not entails(p.st.facts, le(lin(list(cur)[0]), lin(list(own)[0]))):
                    bad = 'a zero delay into a phase already past is accepted; ' + path_show(p)[:400]
                if zero and not any(x[0] in ('le', 'eq') for x in past):
                    bad = 'a zero delay is accepted whatever the current phase; ' + path_show(p)[:400]
            for p in throws(ps):
                if not entails(p.st.facts, ('eq', tot)) and not any('current_scheduling_phase_' in show_fact(x) for x in p.st.facts):
                    bad = 'a send is refused; ' + path_show(p)[:300]
                if entails(p.st.facts, ('ne', tot)):
                    bad = 'a delayed send is refused; ' + path_show(p)[:300]
            stm(c, rid, f, bad, len(normals(ps)), unk)
            refuse_clean(c, P, rid, f, ps)


def receive(c, P, rid):
    for cls in (DIP, SIP):
        for f in vp(handler_of(c, P, rid, cls)):
            snap = {}
            def watch(I, st, e):
                if e.kind == 'icall':
                    snap[id(e)] = st.copy()
            I, ps = run(c, P, f, rid, cfg(f, watch=watch))
            if ps is None:
                continue
            bad = unk = None
            h = init(fld(F('explicit_consumer_handler_'), 'object_ptr'), 'ptr')
            hint(c, P, f.cls, 'explicit_consumer_handler_')
            for p in normals(ps):
                ic = p.events('icall')
                st = snap.get(id(ic[0])) if ic else p.st
                if len(ic) > 1:
                    bad = 'the handler is called %d times' % len(ic)
                if not ic and not entails(p.st.facts, ('eq', h)):
                    bad = 'the handler is not called; ' + path_show(p)[:400]
                if ic and 'explicit_consumer_handler_' not in show_any(ic[0].obj) + show_any(ic[0].args):
                    unk = 'calls %s' % show_any(ic[0].obj)
                if ic and f.params and not names(ic[0].args, f.params[0][1]) and 'data_' not in show_any(ic[0].args):
                    bad = 'the handler gets %s' % show_any(ic[0].args)
                if st is None:
                    continue
                v = I.load(st.copy(), fld(F('data_'), 'valid_'), 'bool')
                if not entails(st.facts, ('ne', v)):
                    bad = 'the data is not stored when the handler is called; ' + path_show(p)[:300]
                t = I.load(st.copy(), F('data_valid_time_stamp_'), 'u64')
                ck = init(F('clock_'), 'ptr')
                cur = I.load(St(), fld(at(I.load(St(), fld(at(ck), 'scheduler_'), 'ptr')), 'current_tick_'), 'u64')
                if not same(p, t, cur):
                    bad = 'the data is stamped %s' % show_any(t)
                w = [e for e in p.events() if e.kind in ('write', 'ctor', 'cont', 'pnew') and e.obj is not None and 'data_.value' in show_any(e.obj)]
                if f.params and w and not gives([e.args for e in w], f.params[0][1]):
                    bad = 'stores %s' % show_any([e.args for e in w])
            stm(c, rid, f, bad, len(normals(ps)), unk)


def container(c, P, rid):
    cls = DC
    val, stamp, ck = init(fld(F('data_'), 'valid_'), 'bool'), init(F('data_valid_time_stamp_')), init(F('clock_'), 'ptr')
    hint(c, P, vp(fns(P, DC + '::dataReceived'))[0].cls, 'data_', 'data_valid_time_stamp_', 'clock_')
    one = lambda m: [f for f in fns(P, DC + '::' + m) if 'VpElem' in f.cls][0]
    cur = lambda I: I.load(St(), fld(at(I.load(St(), fld(at(ck), 'scheduler_'), 'ptr')), 'current_tick_'), 'u64')

    def go(m, chk):
        f = one(m)
        I, ps = run(c, P, f, rid, cfg(f))
        if ps is None:
            return
        bad = unk = None
        for p in normals(ps):
            r = chk(I, p)
            bad = bad or r
        stm(c, rid, f, bad and bad + '; ' + path_show(p)[:300], len(normals(ps)), unk)
        return ps

    def truth(p, v):
        if isinstance(v, Lin) and (v == ONE or entails(p.st.facts, ('ne', v))):
            return True
        if isinstance(v, Lin) and (v == ZERO or entails(p.st.facts, ('eq', v))):
            return False
        return None

    def received(I, p):
        t = truth(p, p.ret)
        if t is None:
            return None if p.ret == val else 'answers %s' % show_any(p.ret)
        if t and not entails(p.st.facts, ('ne', val)) or not t and not entails(p.st.facts, ('eq', val)):
            return 'answers %s' % show_any(p.ret)

    def now(I, p):
        t = truth(p, p.ret)
        if t is None:
            return None
        if t and not (entails(p.st.facts, ('ne', val)) and entails(p.st.facts, eq(stamp, cur(I)))):
            return 'data of another cycle counts as received in this one'
        if not t and not entails(p.st.facts, ('eq', val)) and not entails(p.st.facts, ne(stamp, cur(I))):
            return 'data received in this cycle is denied'

    def need(I, p):
        if not entails(p.st.facts, ('ne', val)):
            return 'reads data that is not there'

    def pull(I, p):
        if need(I, p):
            return need(I, p)
        if not entails(p.st.facts, ('eq', I.load(p.st.copy(), fld(F('data_'), 'valid_'), 'bool'))):
            return 'pulled data stays'
        if 'data_' not in show_any(p.ret) and 'data_' not in path_show(p):
            return 'returns %s' % show_any(p.ret)

    def peek(I, p):
        if need(I, p):
            return need(I, p)
        if [e for e in p.events('write') if root(e.obj) == THIS]:
            return 'peeking changes the data'
        if 'data_.value' not in show_any(p.ret):
            return 'returns %s' % show_any(p.ret)

    def clear(I, p):
        if not entails(p.st.facts, ('eq', I.load(p.st.copy(), fld(F('data_'), 'valid_'), 'bool'))):
            return 'cleared data stays'

    def when(I, p):
        if need(I, p):
            return need(I, p)
        if not same(p, p.ret, I.arith(p.st.copy(), '/', stamp, I.load(St(), fld(at(ck), 'period_'), 'u32'), 'u64')):
            return 'the time stamp is %s' % show_any(p.ret)

    go('dataReceived', received)
    go('dataReceivedThisCycle', now)
    go('pullData', pull)
    go('peekData', peek)
    go('clearData', clear)
    go('getReceivedTimeStamp', when)


def pending(c, P, rid):
    for m in ('cancel', 'cancelIf', 'isDriven'):
        for f in vp(fns(P, DIP + '::' + m)):
            I, ps = run(c, P, f, rid, cfg(f, opaque=[PPE + '::*']))
            if ps is None:
                continue
            bad = None
            for p in normals(ps):
                tg = {'isDriven': 'isScheduled'}.get(m, m)
                es = calls(p, PPE + '::' + tg)
                # const members may be pure: then only the value shows them
                txt = show_any(p.ret)
                if len(es) > 1 or not es and tg not in txt:
                    bad = 'asks the delivery event %d times' % len(es)
                    continue
                if tg not in txt:
                    bad = 'answers %s' % txt
                for i, q in enumerate(f.params):
                    if not gives(es[0].args if es else p.ret, q[1]):
                        bad = 'asks for %s' % show_any(es[0].args if es else p.ret)
            stm(c, rid, f, bad, len(normals(ps)))


def P02(c):
    P = c.program('inst/ports.cpp', 'ExportedPort.cpp', 'Scheduleable.cpp')
    r1 = c.rule('accept', 'an out port takes only an in port it is not bound to yet, of the same data type and clock frequency; both sides record the other once, and a refused bind records nothing', 6)
    r2 = c.rule('in-side', 'binding from the in port\'s side binds the out port to it, and refuses anything but an out port of its type', 3)
    r3 = c.rule('register', 'consumer events, producer events and producing ports are refused once the port is bound; a second handler, or one with the wrong number of arguments, is refused', 6)
    r4 = c.rule('precedence', 'on a zero delay bind every producer precedes every consumer of its phase and the delivery event, which precedes the consumers of its phase', 5)
    r5 = c.rule('free-bind', 'sparta::bind binds its first port to its second and refuses null', 3)
    r6 = c.rule('exported', 'an exported port binds the port it stands for', 1)
    r7 = c.rule('portset', 'a port set takes ports only, each name once per direction, none once finalized; getPort finds each and refuses unknown names', 2)
    accept(c, P, r1)
    inside(c, P, r2)
    register(c, P, r3)
    precede(c, P, r4)
    freebind(c, P, r5)
    exported(c, P, r6)
    portset(c, P, r7)


def zero_of(p, rx):
    """facts of the path that say: something matching rx is zero / nonzero"""
    z = [x for x in p.st.facts if re.search(rx, show_fact(x))]
    return z


def accept(c, P, rid):
    f = fn1(P, OP + '::bind', nparams=1)
    f = [g for g in fns(P, OP + '::bind') if '*' in g.params[0][2]][0]
    bnd = fld(F('bound_ports_'), '$size')
    I, ps = run(c, P, f, rid, cfg(f, opaque=['sparta::Clock::getFrequencyMhz', PT + '::isAlreadyBound', SA + '::precedes', IP + '::bind_', PT + '::setContinuing', IP + '::setProducerPrecedence_']))
    if ps is not None:
        bad = unk = None
        inp = f.params[0][1]
        for p in normals(ps):
            t = path_show(p, 60)
            dirs = [x for x in p.st.facts if 'getDirection' in show_fact(x) and x[0] == 'eq' and len(x[1].t) == 1]
            if not any(x[1].c == 0 for x in dirs):
                bad = 'accepts a port whatever its direction; ' + t[:300]
            al = [x for x in p.st.facts if re.search('isAlreadyBound|find|count|operator[!=]=', show_fact(x))]
            if not al:
                bad = 'accepts a port that is bound already; ' + t[:300]
            elif not any(x[0] == 'eq' and x[1].c == 0 for x in al if 'isAlreadyBound' in show_fact(x)) and any('isAlreadyBound' in show_fact(x) for x in al):
                bad = 'accepts only a port that is bound already; ' + t[:300]
            if not entails(p.st.facts, ('ne', init(F('sync_port_'), 'bool'))):
                fr = [x for x in p.st.facts if show_fact(x).count('getFrequencyMhz') >= 2]
                if not fr:
                    bad = 'binds ports of different clock frequency; ' + t[:300]
                elif not any(x[0] == 'eq' for x in fr):
                    bad = 'refuses equal frequencies'
            add = [e for e in p.events('cont') if e.obj == F('bound_ports_') and re.search('push|emplace|insert', e.name)]
            if len(add) != 1 or not names(add[0].args, inp) and 'dyncast' not in show_any(add[0].args):
                bad = 'records the port %d times' % len(add)
            sc = calls(p, 'setContinuing')
            if len(sc) != 1 or not same(p, sc[0].args[0], init(F('continuing_'), 'bool')):
                bad = 'the in port does not get this port\'s continuing setting'
            b = calls(p, 'bind_')
            if len(b) != 1 or b[0].args[0] != addr(THIS):
                bad = 'the in port is told %d times' % len(b)
        for p in throws(ps):
            add = [e for e in p.events('cont') if e.obj == F('bound_ports_')]
            if add and not any(e.kind == 'throw' and 'from:' in show_any(e.args) for e in p.events()) and not calls(p, 'bind_', 'setContinuing'):
                bad = 'refused after recording; ' + path_show(p)[:300]
        stm(c, rid, f, bad, len(normals(ps)), unk)
    # the in side's record
    g = fn1(P, IP + '::bind_')
    I, ps = run(c, P, g, rid, cfg(g))
    if ps is not None:
        bad = None
        for p in normals(ps):
            add = [e for e in p.events('cont') if e.obj == F('bound_ports_') and re.search('push|emplace|insert', e.name)]
            if len(add) != 1 or not names(add[0].args, g.params[0][1]):
                bad = 'the out port is recorded %d times' % len(add)
        stm(c, rid, g, bad, len(normals(ps)))
    g = fn1(P, PT + '::isBound')
    I, ps = run(c, P, g, rid, cfg(g))
    if ps is not None:
        bad = None
        for p in normals(ps):
            t = entails(p.st.facts, ('ne', init(bnd)))
            z = entails(p.st.facts, ('eq', init(bnd)))
            if p.ret == ONE and not t or p.ret == ZERO and not z:
                bad = 'answers %s' % show_any(p.ret)
        stm(c, rid, g, bad, len(normals(ps)))
    # typed out ports
    for cls, icls in ((DOP, DIP), (SOP, SIP), (YOP, YIP)):
        for f in [g for g in vp(fns(P, cls + '::bind')) if '*' in g.params[0][2]]:
            I, ps = run(c, P, f, rid, cfg(f, opaque=[OP + '::bind']))
            if ps is None:
                continue
            bad = unk = None
            for p in normals(ps):
                ev = p.events()
                b = [i for i, e in enumerate(ev) if e.kind == 'call' and e.name == OP + '::bind']
                if len(b) != 1:
                    bad = 'bound %d times' % len(b)
                    continue
                if not gives(ev[b[0]].args, f.params[0][1]):
                    bad = 'binds %s' % show_any(ev[b[0]].args)
                dc = [x for x in p.st.facts if 'dyncast' in show_fact(x)]
                if not any(x[0] == 'ne' and icls.rsplit(':', 1)[-1] in show_fact(x) for x in dc):
                    bad = 'a port of another type is accepted; ' + path_show(p)[:300]
                add = [i for i, e in enumerate(ev) if e.kind == 'cont' and e.obj == F('bound_in_ports_') and re.search('push|emplace|insert', e.name)]
                if len(add) != 1:
                    bad = 'the port to send to is recorded %d times' % len(add)
                for e in ev[:b[0]]:
                    if e.kind == 'write' and root(e.obj) == THIS or e.kind == 'cont' and e.obj is not None and root(e.obj) == THIS and re.search('push|emplace|insert', e.name):
                        bad = 'the receiver is recorded (%s) before OutPort::bind can refuse it' % ev_show(e)
                if cls == YOP:
                    sp = init(F('sync_in_port_'), 'ptr')
                    if not entails(p.st.facts, ('eq', sp)) and not entails(p.st.facts, ('eq', init(fld(F('bound_in_ports_'), '$size')))):
                        bad = 'a second receiver is accepted; ' + path_show(p)[:300]
                    if has_field(P, f.cls, 'sync_in_port_'):
                        v = I.load(p.st, F('sync_in_port_'), 'ptr')
                        if 'dyncast' not in show_any(v) and not names(v, f.params[0][1]):
                            bad = 'the receiver is %s' % show_any(v)
            for p in throws(ps):
                for e in p.events():
                    if e.kind == 'write' and root(e.obj) == THIS or e.kind == 'cont' and e.obj is not None and root(e.obj) == THIS and re.search('push|emplace|insert', e.name):
                        bad = 'a refused bind records the port (%s)' % ev_show(e)
            stm(c, rid, f, bad, len(normals(ps)), unk)


def inside(c, P, rid):
    for cls, ocls in ((DIP, DOP), (SIP, SOP), (YIP, YOP), (IP, OP)):
        for f in [g for g in vp(fns(P, cls + '::bind')) if '*' in g.params[0][2]]:
            I, ps = run(c, P, f, rid, cfg(f, opaque=[IP + '::bind'] if cls != IP else []))
            if ps is None:
                continue
            bad = unk = None
            for p in normals(ps):
                b = [e for e in p.events('call') if e.name.endswith('::bind')]
                if len(b) != 1:
                    bad = 'bound %d times; %s' % (len(b), path_show(p)[:300])
                    continue
                if cls == IP or b[0].name != IP + '::bind':
                    if b[0].args[0] != addr(THIS) or not gives(b[0].obj, f.params[0][1]):
                        bad = 'binds %s to %s' % (show_any(b[0].obj), show_any(b[0].args))
                elif not gives(b[0].args, f.params[0][1]):
                    bad = 'binds %s' % show_any(b[0].args)
                if cls == IP:
                    d = [x for x in p.st.facts if 'getDirection' in show_fact(x)]
                    if not any(x[0] == 'eq' and x[1].c == -1 or x[0] == 'eq' and x[1].c == 1 for x in d):
                        bad = 'accepts a port whatever its direction; ' + path_show(p)[:300]
                elif not any(x[0] == 'ne' and ocls.rsplit(':', 1)[-1] in show_fact(x) for x in p.st.facts if 'dyncast' in show_fact(x)):
                    bad = 'a port of another type is accepted; ' + path_show(p)[:300]
            for p in throws(ps):
                if any(is_effect(e) and e.kind == 'write' for e in p.events()):
                    bad = 'a refused bind leaves an effect; ' + path_show(p)[:300]
            stm(c, rid, f, bad, len(normals(ps)), unk)


def register(c, P, rid):
    bnd = init(fld(F('bound_ports_'), '$size'))
    for qual, fld_ in ((IP + '::registerConsumerEvent', 'port_consumers_'), (OP + '::registerProducingEvent', 'port_producers_'), (OP + '::registerProducingPort', 'port_producers_')):
        f = fn1(P, qual)
        I, ps = run(c, P, f, rid, cfg(f))
        if ps is None:
            continue
        bad = unk = None
        for p in normals(ps):
            ib = [x for x in p.st.facts if re.search('isBound', show_fact(x))]
            if not entails(p.st.facts, ('eq', bnd)) and not any(x[0] == 'eq' and x[1].c == 0 for x in ib):
                bad = 'accepted although the port is bound; ' + path_show(p)[:300]
            add = [e for e in p.events('cont') if re.search('push|emplace|insert', e.name) and root(e.obj) == THIS]
            if len(add) != 1 or not gives(add[0].args, f.params[0][1]):
                bad = 'recorded %d times' % len(add)
        stm(c, rid, f, bad, len(normals(ps)), unk)
        if not bad:
            refuse_clean(c, P, rid, f, ps, pure=['getDirection', 'isBound'])
    f = fn1(P, IP + '::registerConsumerHandler')
    I, ps = run(c, P, f, rid, cfg(f, opaque=[IP + '::registerConsumerHandler_']))
    if ps is not None:
        bad = None
        h = init(fld(F('explicit_consumer_handler_'), 'object_ptr'), 'ptr')
        for p in normals(ps):
            if not entails(p.st.facts, ('eq', h)):
                bad = 'a second handler is accepted; ' + path_show(p)[:300]
            if not any(e.kind in ('write', 'call', 'cont') and e.obj is not None and 'explicit_consumer_handler_' in show_any(e.obj) for e in p.events()):
                bad = 'the handler is not stored'
            if len(calls(p, 'registerConsumerHandler_')) != 1:
                bad = 'the port is not told about its handler'
        stm(c, rid, f, bad, len(normals(ps)))
    for cls, n in ((DIP, 1), (SIP, 0), (YIP, 1)):
        for f in vp(fns(P, cls + '::registerConsumerHandler_')):
            I, ps = run(c, P, f, rid, cfg(f))
            if ps is None:
                continue
            bad = None
            for p in normals(ps):
                a = [x for x in p.st.facts if 'argCount' in show_fact(x) or 'arg_count' in show_fact(x)]
                if not any(x[0] == 'eq' and abs(x[1].c) == n for x in a):
                    bad = 'a handler with another number of arguments than %d is accepted; %s' % (n, path_show(p)[:300])
            stm(c, rid, f, bad, len(normals(ps)))


def precede(c, P, rid):
    f = [g for g in fns(P, OP + '::bind') if '*' in g.params[0][2]][0]
    I, ps = run(c, P, f, rid, cfg(f, opaque=['sparta::Clock::getFrequencyMhz', PT + '::isAlreadyBound', SA + '::precedes', IP + '::bind_', PT + '::setContinuing', IP + '::setProducerPrecedence_']))
    if ps is not None:
        norm(I)
        bad = unk = None
        hint(c, P, OP, 'port_producers_', 'presume_zero_delay_')
        prod = [i for i in I.loopinfo if i['cont'] == F('port_producers_') and i['ends']]
        cons = [i for i in I.loopinfo if i['cont'] is not None and i['cont'][0] == 'f' and i['cont'][2] == 'port_consumers_' and i['ends']]
        if not prod or not cons:
            if not any(calls(p, 'setProducerPrecedence_', 'precedes') for p in ps):
                bad = 'no precedence is set'
            else:
                unk = 'loops not recognised'
        for i in prod + cons:
            if i['breaks'] or any(x[0] == 'ret' for x in i['rets']):
                bad = 'stops before the last producer or consumer'
        for i in prod:
            n0 = len(i['head'].events())
            for e in i['ends']:
                ev = e.events()[n0:]
                s = [x for x in ev if x.kind == 'call' and x.name.endswith('setProducerPrecedence_')]
                if len(s) != 1 or show_loc(i['elem']) not in show_any(s[0].args):
                    bad = 'the delivery event is put after a producer %d times' % len(s)
        for i in cons:
            n0 = len(i['head'].events())
            for e in i['ends']:
                ev = e.events()[n0:]
                s = [x for x in ev if x.kind == 'call' and x.name == SA + '::precedes']
                nf = [x for x in e.facts - i['head'].facts if show_fact(x).count('sched_phase_') >= 2]
                eqp = any(x[0] == 'eq' for x in nf)
                nep = any(x[0] == 'ne' or x[0] == 'le' for x in nf) and not eqp
                if eqp and len(s) != 1:
                    bad = 'producer and consumer of one phase are ordered %d times' % len(s)
                if nep and s:
                    bad = 'producer and consumer of different phases are ordered'
                if s and (show_loc(i['elem']) not in show_any(s[0].args) or 'port_producers_' not in show_any(s[0].obj)):
                    bad = 'orders %s before %s' % (show_any(s[0].obj), show_any(s[0].args))
        for p in normals(ps):
            vis = [e for e in p.events('iter') if e.obj == F('port_producers_')]
            gd = [x for x in p.st.facts if 'getPortDelay' in show_fact(x)]
            zero = any(x[0] == 'eq' and x[1].c == 0 for x in gd)
            if vis and not (zero and entails(p.st.facts, ('ne', init(F('presume_zero_delay_'), 'bool')))):
                bad = 'ordered although the connection has a delay; ' + path_show(p)[:300]
            if zero and entails(p.st.facts, ('ne', init(F('presume_zero_delay_'), 'bool'))) and not vis and not entails(p.st.facts, ('eq', init(fld(F('port_producers_'), '$size')))):
                if any('port_producers_' in show_fact(x) for x in p.st.facts):
                    unk = unk or 'producers not visited on a path'
                else:
                    bad = bad or 'no producer is ordered on a zero delay bind; ' + path_show(p)[:300]
        stm(c, rid, f, bad, len(normals(ps)), unk, ' order')
    for cls in (DIP, SIP, YIP):
        for f in vp(fns(P, cls + '::setProducerPrecedence_')):
            I, ps = run(c, P, f, rid, cfg(f, opaque=[SA + '::precedes']))
            if ps is None:
                continue
            bad = None
            for p in normals(ps):
                s = calls(p, SA + '::precedes')
                nf = [x for x in p.st.facts if show_fact(x).count('sched_phase_') >= 2]
                if any(x[0] == 'eq' for x in nf):
                    if len(s) != 1 or not names(s[0].obj, f.params[0][1]) or 'deliver' not in show_any(s[0].args) and 'event' not in show_any(s[0].args):
                        bad = 'the producer is ordered %d times before the delivery; %s' % (len(s), path_show(p)[:300])
                elif s:
                    bad = 'ordered across phases; ' + path_show(p)[:300]
            if not any(calls(p, SA + '::precedes') for p in ps):
                bad = 'the delivery is never ordered after a producer'
            stm(c, rid, f, bad, len(normals(ps)))
        for f in vp([g for g in fns(P, cls + '::bind_') if 'Port' in g.params[0][2] and 'SyncOutPort' not in g.params[0][2]]):
            I, ps = run(c, P, f, rid, cfg(f, opaque=[SA + '::precedes', IP + '::bind_']))
            if ps is None:
                continue
            norm(I)
            bad = unk = None
            for p in normals(ps):
                if len(calls(p, IP + '::bind_')) != 1:
                    bad = 'the out port is recorded %d times' % len(calls(p, IP + '::bind_'))
            loops = [i for i in I.loopinfo if i['ends']]
            if not loops:
                bad = bad or 'the consumers are not visited'
            for i in loops:
                if i['breaks'] or any(x[0] == 'ret' for x in i['rets']):
                    bad = 'stops before the last consumer'
                if i['cont'] != F('port_consumers_'):
                    unk = 'loop over %s' % (show_loc(i['cont']) if i['cont'] else '?')
                    continue
                n0 = len(i['head'].events())
                for e in i['ends']:
                    s = [x for x in e.events()[n0:] if x.kind == 'call' and x.name == SA + '::precedes']
                    nf = [x for x in e.facts - i['head'].facts if show_fact(x).count('sched_phase_') >= 2]
                    if any(x[0] == 'eq' for x in nf):
                        if len(s) != 1 or show_loc(i['elem']) not in show_any(s[0].args) or 'port_consumers_' in show_any(s[0].obj):
                            bad = 'a consumer of the delivery\'s phase is ordered after it %d times' % len(s)
                    elif s:
                        bad = 'ordered across phases'
            stm(c, rid, f, bad, len(normals(ps)), unk)


def freebind(c, P, rid):
    for f in fns(P, 'sparta::bind'):
        if len(f.params) != 2 or not all('Port' in x[2] for x in f.params):
            continue
        I, ps = run(c, P, f, rid, cfg(f))
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            b = [e for e in p.events('call') if e.name.endswith('::bind')]
            if len(b) != 1 or not names(b[0].obj, f.params[0][1]) or not names(b[0].args, f.params[1][1]):
                bad = 'binds %s' % [(show_any(e.obj), show_any(e.args)) for e in b]
            for i in (0, 1):
                if '*' in f.params[i][2] and not entails(p.st.facts, ('ne', par(I, St(), f, i, 'ptr'))):
                    bad = 'a null port is accepted; ' + path_show(p)[:200]
        stm(c, rid, f, bad, len(normals(ps)))


def exported(c, P, rid):
    EX = 'sparta::ExportedPort'
    f = [g for g in fns(P, EX + '::bind') if '*' in g.params[0][2]][0]
    I, ps = run(c, P, f, rid, cfg(f, opaque=[EX + '::resolvePort_']))
    if ps is not None:
        bad = None
        for p in normals(ps):
            ev = p.events()
            b = [i for i, e in enumerate(ev) if e.kind == 'call' and e.name.endswith('::bind')]
            r = [i for i, e in enumerate(ev) if e.kind == 'call' and e.name.endswith('resolvePort_')]
            if len(b) != 1:
                bad = 'binds %d times' % len(b)
                continue
            e = ev[b[0]]
            if 'internal_port_' not in show_any(e.obj):
                bad = 'binds %s' % show_any(e.obj)
            ex = [x for x in p.st.facts if 'dyncast' in show_fact(x) and 'ExportedPort' in show_fact(x)]
            if any(x[0] == 'ne' for x in ex):
                if 'internal_port_' not in show_any(e.args):
                    bad = 'binds the exported port itself, not the one it stands for; ' + path_show(p)[:300]
                if len([i for i in r if i < b[0]]) < 2 and r:
                    bad = 'the other exported port is not resolved first'
            elif ex and not names(e.args, f.params[0][1]):
                bad = 'binds %s' % show_any(e.args)
            if not [i for i in r if i < b[0]]:
                if P.find(EX + '::resolvePort_'):
                    bad = 'bound before the exported port is resolved'
        stm(c, rid, f, bad, len(normals(ps)))
    f = fn1(P, EX + '::isBound')
    I, ps = run(c, P, f, rid, cfg(f))
    if ps is not None:
        bad = None
        ip = init(F('internal_port_'), 'ptr')
        for p in normals(ps):
            if entails(p.st.facts, ('ne', ip)) and 'isBound' not in show_any(p.ret) and not any('isBound' in show_fact(x) for x in p.st.facts):
                bad = 'answers %s' % show_any(p.ret)
            if entails(p.st.facts, ('eq', ip)) and p.ret != ZERO:
                bad = 'bound without a port'
        stm(c, rid, f, bad, len(normals(ps)))


def portset(c, P, rid):
    PS = 'sparta::PortSet'
    f = fn1(P, PS + '::onAddingChild_')
    I, ps = run(c, P, f, rid, cfg(f))
    if ps is not None:
        bad = unk = None
        for p in normals(ps):
            if not any('dyncast' in show_fact(x) and x[0] == 'ne' for x in p.st.facts):
                bad = 'a child that is not a port is accepted; ' + path_show(p)[:300]
            fz = [x for x in p.st.facts if re.search('isFinalized|phase_', show_fact(x))]
            if not fz:
                bad = 'a port is accepted whatever the phase; ' + path_show(p)[:300]
            elif any('isFinalized' in show_fact(x) for x in fz) and not any(x[0] == 'eq' and x[1].c == 0 and 'isFinalized' in show_fact(x) for x in fz):
                bad = 'a port is accepted once finalized; ' + path_show(p)[:300]
            add = [e for e in p.events('cont', 'write') if e.obj is not None and 'registered_ports_' in show_any(e.obj) and e.name not in ('count', 'find')]
            if not add:
                bad = 'the port is not registered'
            dup = [x for x in p.st.facts if re.search('<has this.registered_ports_|find|count', show_fact(x))]
            if not dup or any('<has' in show_fact(x) for x in dup) and not any(x[0] == 'eq' and x[1].c == 0 for x in dup if '<has' in show_fact(x)):
                bad = 'a second port of that name replaces the first; ' + path_show(p)[:400]
        stm(c, rid, f, bad, len(normals(ps)), unk)
        if not bad:
            refuse_clean(c, P, rid, f, ps, pure=['getDirection', 'isFinalized', 'getName'])
    f = fn1(P, PS + '::getPort')
    I, ps = run(c, P, f, rid, cfg(f))
    if ps is not None:
        bad = unk = None
        for p in normals(ps):
            if 'registered_ports_' not in show_any(p.ret):
                bad = 'answers %s' % show_any(p.ret)
        if not throws(ps):
            bad = 'an unknown name is not refused'
        stm(c, rid, f, bad, len(normals(ps)), unk)


CCD = 'sparta::calculateClockCrossingDelay'
CROSS = init(('p', '$crossing'), 'u64')


def cross_stub(I, st, call):
    """the delay of a clock crossing (what it is, K05 decides)"""
    st = st.copy()
    args = []
    for a in call.args:
        (st, v), = I.ev(a, st)
        args.append(v)
    I.event(st, 'call', CCD, None, tuple(args), call.line, call)
    return [(st, CROSS)]


def P03(c):
    P = c.program('inst/ports.cpp', 'Scheduleable.cpp')
    r1 = c.rule('send', 'a send on a sync port schedules the data once, at the clock crossing delay or, when it may slide, one receiver cycle after the data before; it is refused unbound, off the sender\'s edge, or when that tick has its data already; the tick is recorded', 5)
    r2 = c.rule('occupied', 'a sync in port is driven exactly when the data sent last arrives no earlier than a send now would', 2)
    r3 = c.rule('ready', 'ready is latched for a cycle; an out port is ready exactly when the receiver\'s tick is free and it was ready, or nothing is in flight to a receiver one cycle away', 5)
    r4 = c.rule('deliver', 'data that arrives is stored and handed to the handler once when the receiver was ready, and otherwise sent again once, one cycle later, and stays in flight', 1)
    r5 = c.rule('port-delay', 'a port delay is refused once bound or set before, is the receiver clock\'s ticks for the cycles given, and is what getPortDelay reports', 3)
    ysend(c, P, r1)
    occupied(c, P, r2)
    ready(c, P, r3)
    deliver(c, P, r4)
    portdelay(c, P, r5)


def dec(p, fact):
    """does the path imply fact (1), its negation (0), or neither (None)?"""
    from terms import neg, norm_fact
    fact = norm_fact(fact)
    return 1 if entails(p.st.facts, fact) else 0 if entails(p.st.facts, neg(fact)) else None


def and3(*xs):
    return 0 if 0 in xs else None if None in xs else 1


def or3(*xs):
    return 1 if 1 in xs else None if None in xs else 0


def not3(x):
    return None if x is None else 1 - x


def ycfg(f, **kw):
    kw.setdefault('stubs', {CCD: cross_stub})
    return cfg(f, opaque=[PPE + '::*', SA + '::schedule*', YOP + '::computeNextAvailableCycleForSend', SCH + '::kickTheDog',
                          'sparta::Clock::isPosedge'], **kw)


class Y:
    """the fields of the sync in port at inp"""
    def __init__(self, I, inp):
        L = lambda n, ty='u64': I.load(St(), fld(inp, n), ty)
        self.prev, self.none = L('prev_data_arrival_tick_'), L('PREV_DATA_ARRIVAL_TICK_INIT')
        self.sch = L('scheduler_', 'ptr')
        self.cur = I.load(St(), fld(at(self.sch), 'current_tick_'), 'u64')
        self.rclk = L('receiver_clock_', 'ptr')
        self.period = I.load(St(), fld(at(self.rclk), 'period_'), 'u32')
        self.rdt, self.rdc = L('receive_delay_ticks_'), L('receive_delay_cycles_')
        self.set, self.flight = L('set_ready_tick_'), L('num_in_flight_', 'u32')
        self.now, self.was = L('cur_is_ready_', 'bool'), L('prev_is_ready_', 'bool')
        self.arrive = CROSS + self.cur

    def latched(self, p):
        same_ = dec(p, eq(self.set, self.cur))
        return or3(and3(same_, dec(p, ('ne', self.was))), and3(not3(same_), dec(p, ('ne', self.now))))

    def free(self, p, t=None):
        return or3(dec(p, lt(self.prev, self.arrive if t is None else t)), dec(p, eq(self.prev, self.none)))


YF = ('prev_data_arrival_tick_', 'PREV_DATA_ARRIVAL_TICK_INIT', 'receiver_clock_', 'scheduler_', 'receive_delay_ticks_', 'receive_delay_cycles_',
      'set_ready_tick_', 'num_in_flight_', 'cur_is_ready_', 'prev_is_ready_')


def inst(P, cls):
    return vp(fns(P, cls + '::isDriven'))[0].cls


def crossing_args(p, I, y, clk, dly):
    """what is wrong with the call of calculateClockCrossingDelay"""
    cs = calls(p, 'calculateClockCrossingDelay')
    if not cs:
        return 'the clock crossing delay is not taken'
    for e in cs:
        want = I.arith(St(), '*', dly, I.load(St(), fld(at(clk), 'period_'), 'u32'), 'u64') if dly is not ZERO else ZERO
        for g, w, n in zip(e.args, (want, clk, y.rdt, y.rclk), ('the send delay', 'the sending clock', 'the port delay', 'the receiving clock')):
            if not same(p, g, w):
                if n == 'the send delay' and 'period_' in show_any(g) and names(g, show_any(dly).replace('arg:', '')):
                    continue
                return 'the crossing is taken with %s for %s' % (show_any(g), n)


def ysend(c, P, rid):
    ok = hint(c, P, inst(P, YIP), *YF) and hint(c, P, inst(P, YOP), 'sync_in_port_', 'clk_')
    for f in vp(P.find(YOP + '::send') + P.find(YOP + '::sendAndAllowSlide')):
        I, ps = run(c, P, f, rid, ycfg(f))
        if ps is None:
            continue
        bad = unk = None
        sip, clk = init(F('sync_in_port_'), 'ptr'), init(F('clk_'), 'ptr')
        y = Y(I, at(sip))
        isu = [i for i, q in enumerate(f.params) if q[2] == 'u64']
        isb = [i for i, q in enumerate(f.params) if 'bool' in q[2]]
        dly = par(I, St(), f, isu[0], 'u64') if isu else ZERO
        slide = par(I, St(), f, isb[0], 'bool') if isb else ONE if 'Slide' in f.name else ZERO
        for p in normals(ps):
            t = '; ' + path_show(p)[:300]
            pe = [x for x in p.st.facts if 'isPosedge' in show_fact(x)]
            if not any(x[0] == 'eq' and x[1].c in (-1, 1) or x[0] == 'ne' for x in pe):
                bad = 'accepted off the sender\'s edge' + t
            if not entails(p.st.facts, ('ne', sip)):
                bad = 'accepted on an unbound port' + t
            pp, sc = calls(p, 'preparePayload'), calls(p, 'schedule', 'scheduleRelativeTick')
            if len(pp) != 1 or len(sc) != 1:
                bad = 'the data is prepared %d times and scheduled %d times' % (len(pp), len(sc))
                continue
            if not gives(pp[0].args, f.params[0][1]):
                bad = 'delivers %s' % show_any(pp[0].args)
            if sc[0].name.endswith('::schedule'):
                unk = 'scheduled by cycle'
                continue
            T = sc[0].args[0]
            if not isinstance(T, Lin):
                unk = 'the delay is %s' % show_any(T)
                continue
            if not ok:
                unk = 'fields not recognised'
                continue
            bad = bad or crossing_args(p, I, y, clk, dly)
            v = I.load(p.st, fld(at(sip), 'prev_data_arrival_tick_'), 'u64')
            if not same(p, v, T + y.cur):
                bad = 'the tick is recorded as %s, the delivery is at %s' % (show_any(v), show_any(T + y.cur)) + t
            s = dec(p, ('ne', slide))
            fr = y.free(p)
            if same(p, T, CROSS):
                if fr == 0 and s == 1:
                    bad = 'data that may slide is delivered at a tick that has its data' + t
                elif fr != 1:
                    bad = 'a tick that has its data gets another' + t
            elif same(p, T, y.prev + y.period - y.cur):
                if s != 1:
                    bad = 'the data slides although it must not' + t
                if fr == 1:
                    bad = 'the data slides although its tick is free' + t
                elif fr is None:
                    unk = 'slide condition not followed'
            else:
                bad = 'the data is delivered after %s' % show_any(T) + t
            if not same(p, p.ret, T):
                bad = 'answers %s, the delivery is in %s' % (show_any(p.ret), show_any(T))
            n = I.load(p.st, fld(at(sip), 'num_in_flight_'), 'u32')
            if not same(p, n, y.flight + 1):
                bad = 'in flight: %s' % show_any(n)
        for p in throws(ps):
            if not ok or dec(p, ('ne', slide)) != 1 or y.free(p) != 0 or calls(p, 'preparePayload'):
                continue
            fs = [show_fact(x) for x in p.st.facts]
            if not any('<mod' in x and x.endswith('!= 0') or 'sched_phase_' in x for x in fs):
                bad = 'data that may slide is refused because its tick has data; ' + path_show(p)[:400]
        stm(c, rid, f, bad, len(normals(ps)), unk)


def occupied(c, P, rid):
    ok = hint(c, P, inst(P, YIP), *YF)
    for f in vp(P.find(YIP + '::isDriven')):
        ck = [i for i, q in enumerate(f.params) if 'Clock' in q[2]]
        if not ck:
            continue
        I, ps = run(c, P, f, rid, ycfg(f))
        if ps is None:
            continue
        bad = unk = None
        y = Y(I, THIS)
        clk = par(I, St(), f, ck[0], 'ptr')
        isu = [i for i, q in enumerate(f.params) if q[2] == 'u64']
        dly = par(I, St(), f, isu[0], 'u64') if isu else ZERO
        for p in normals(ps):
            if not ok or not isinstance(p.ret, Lin) or not p.ret.is_const():
                unk = 'answers %s' % show_any(p.ret)
                continue
            bad = bad or crossing_args(p, I, y, clk, dly)
            fr = y.free(p)
            if fr is None:
                bad = bad or 'answers %s whatever arrives; %s' % (show_any(p.ret), path_show(p)[:300])
            elif bool(p.ret.c) == bool(fr):
                bad = 'answers %s; %s' % (show_any(p.ret), path_show(p)[:300])
        stm(c, rid, f, bad, len(normals(ps)), unk)


def ready(c, P, rid):
    ok = hint(c, P, inst(P, YIP), *YF) and hint(c, P, inst(P, YOP), 'sync_in_port_', 'clk_')
    sip, clk = init(F('sync_in_port_'), 'ptr'), init(F('clk_'), 'ptr')
    f = vp(fns(P, YOP + '::isReady'))[0]
    I, ps = run(c, P, f, rid, ycfg(f))
    if ps is not None:
        bad = unk = None
        y = Y(I, at(sip))
        for p in normals(ps):
            t = '; ' + path_show(p)[:400]
            if not entails(p.st.facts, ('ne', sip)):
                bad = 'answers on an unbound port' + t
            if not ok or not isinstance(p.ret, Lin) or not p.ret.is_const():
                unk = 'answers %s' % show_any(p.ret)
                continue
            if calls(p, 'calculateClockCrossingDelay'):
                bad = bad or crossing_args(p, I, y, clk, ZERO)
            l, fr = y.latched(p), y.free(p)
            wait = or3(dec(p, lt(ZERO, y.flight)), dec(p, eq(y.rdc, ZERO)))
            w = and3(fr, or3(l, not3(wait)))
            if w is None or bool(p.ret.c) != bool(w):
                bad = 'answers %s%s' % (show_any(p.ret), '' if w is None else ' where it should be %d' % w) + t
        stm(c, rid, f, bad, len(normals(ps)), unk)
    f = vp(fns(P, YOP + '::isReadyPS'))[0]
    I, ps = run(c, P, f, rid, ycfg(f))
    if ps is not None:
        bad = unk = None
        y = Y(I, at(sip))
        for p in normals(ps):
            if not entails(p.st.facts, ('ne', sip)):
                bad = 'answers on an unbound port; ' + path_show(p)[:300]
            if ok and not same(p, p.ret, y.now) and dec(p, ('ne', y.now)) != (p.ret.c if isinstance(p.ret, Lin) and p.ret.is_const() else -1):
                bad = 'answers %s' % show_any(p.ret)
        stm(c, rid, f, bad, len(normals(ps)), unk)
    f = vp(fns(P, YIP + '::getReady'))[0]
    I, ps = run(c, P, f, rid, ycfg(f))
    if ps is not None:
        y = Y(I, THIS)
        bad = None
        for p in normals(ps):
            if ok and not same(p, p.ret, y.now) and dec(p, ('ne', y.now)) != (p.ret.c if isinstance(p.ret, Lin) and p.ret.is_const() else -1):
                bad = 'answers %s' % show_any(p.ret)
        stm(c, rid, f, bad, len(normals(ps)))
    f = vp(fns(P, YIP + '::setReady'))[0]
    I, ps = run(c, P, f, rid, ycfg(f))
    if ps is not None:
        y = Y(I, THIS)
        bad = unk = None
        new = par(I, St(), f, 0, 'bool')
        for p in normals(ps):
            if not ok:
                unk = 'fields not recognised'
                break
            t = '; ' + path_show(p)[:300]
            st, cu, pr = (I.load(p.st, F(n), ty) for n, ty in (('set_ready_tick_', 'u64'), ('cur_is_ready_', 'bool'), ('prev_is_ready_', 'bool')))
            first = dec(p, ne(y.set, y.cur))
            if not same(p, cu, new):
                bad = 'ready becomes %s' % show_any(cu) + t
            if not same(p, st, y.cur):
                bad = 'the tick of the change is %s' % show_any(st) + t
            if first == 1 and not same(p, pr, y.now):
                bad = 'the value latched is %s' % show_any(pr) + t
            if first == 0 and not same(p, pr, y.was):
                bad = 'a second setReady in the tick changes the latched value' + t
            if first is None and not same(p, pr, y.was):
                bad = 'a second setReady in the tick changes the latched value' + t
        stm(c, rid, f, bad, len(normals(ps)), unk)
        if not bad:
            refuse_clean(c, P, rid, f, ps)
    f = vp(fns(P, YIP + '::setInitialReadyState'))[0]
    I, ps = run(c, P, f, rid, ycfg(f))
    if ps is not None:
        y = Y(I, THIS)
        bad = unk = None
        new = par(I, St(), f, 0, 'bool')
        for p in normals(ps):
            for n in ('cur_is_ready_', 'prev_is_ready_'):
                v = I.load(p.st, F(n), 'bool')
                if ok and not same(p, v, new):
                    bad = '%s becomes %s' % (n, show_any(v))
            if not entails(p.st.facts, eq(y.cur, ZERO)):
                bad = 'accepted after tick 0; ' + path_show(p)[:300]
        stm(c, rid, f, bad, len(normals(ps)), unk)


def deliver(c, P, rid):
    ok = hint(c, P, inst(P, YIP), *YF) and hint(c, P, inst(P, YIP), 'explicit_consumer_handler_')
    h = init(fld(F('explicit_consumer_handler_'), 'object_ptr'), 'ptr')
    for f in vp(handler_of(c, P, rid, YIP)):
        snap = {}
        def watch(I, st, e):
            if e.kind == 'icall':
                snap[id(e)] = st.copy()
        I, ps = run(c, P, f, rid, ycfg(f, watch=watch))
        if ps is None:
            continue
        bad = unk = None
        y = Y(I, THIS)
        for p in normals(ps):
            t = '; ' + path_show(p)[:400]
            ic, pp, sc = p.events('icall'), calls(p, 'preparePayload'), calls(p, 'scheduleRelativeTick')
            if not ok:
                unk = 'fields not recognised'
                continue
            l = y.latched(p)
            n = I.load(p.st, F('num_in_flight_'), 'u32')
            if l is None:
                bad = 'delivers whatever the ready state' + t
            elif l:
                if pp or sc:
                    bad = 'sent again although the receiver was ready' + t
                if len(ic) > 1 or not ic and dec(p, ('ne', h)) != 0:
                    bad = 'the handler is called %d times' % len(ic) + t
                if not same(p, n, y.flight - 1):
                    bad = 'in flight after the delivery: %s' % show_any(n)
                st = snap.get(id(ic[0])) if ic else p.st
                v = I.load(st.copy(), fld(F('data_'), 'valid_'), 'bool')
                if not entails(st.facts, ('ne', v)):
                    bad = 'the data is not stored when the handler is called' + t
                if ic and not names(ic[0].args, f.params[0][1]) and 'data_' not in show_any(ic[0].args):
                    bad = 'the handler gets %s' % show_any(ic[0].args)
            else:
                if ic:
                    bad = 'the handler is called although the receiver was not ready' + t
                if len(pp) != 1 or len(sc) != 1:
                    bad = 'data not taken is sent again %d times' % len(sc) + t
                    continue
                if not gives(pp[0].args, f.params[0][1]):
                    bad = 'sends %s again' % show_any(pp[0].args)
                if not same(p, n, y.flight):
                    bad = 'in flight after sending again: %s' % show_any(n)
                T = sc[0].args[0]
                if not same(p, T, CROSS):
                    bad = 'sent again after %s' % show_any(T)
                for e in calls(p, 'calculateClockCrossingDelay'):
                    if not same(p, e.args[0], y.period) or not same(p, e.args[1], y.rclk) or not same(p, e.args[3], y.rclk):
                        bad = 'sent again %s later' % show_any(e.args[0])
                if y.free(p) != 1:
                    bad = 'sent again into a tick that has its data' + t
                if not same(p, I.load(p.st, F('prev_data_arrival_tick_'), 'u64'), y.arrive):
                    bad = 'the tick of the data sent again is not recorded' + t
        stm(c, rid, f, bad, len(normals(ps)), unk)


def portdelay(c, P, rid):
    ok = hint(c, P, inst(P, YIP), *YF)
    bnd = init(fld(F('bound_ports_'), '$size'))
    for f in vp(fns(P, YIP + '::setPortDelay')):
        I, ps = run(c, P, f, rid, ycfg(f))
        if ps is None:
            continue
        y = Y(I, THIS)
        bad = unk = None
        ints = f.params[0][2] == 'u64'
        d = par(I, St(), f, 0, 'u64') if ints else None
        once = None
        for p in normals(ps):
            t = '; ' + path_show(p)[:300]
            if not entails(p.st.facts, ('eq', bnd)):
                bad = 'accepted on a bound port' + t
            tk, cy = I.load(p.st, F('receive_delay_ticks_'), 'u64'), I.load(p.st, F('receive_delay_cycles_'), 'u64')
            if not ok:
                unk = 'fields not recognised'
                continue
            if ints:
                if not same(p, cy, d):
                    bad = 'the delay is recorded as %s cycles' % show_any(cy)
                if not same(p, tk, I.arith(St(), '*', d, y.period, 'u64')):
                    bad = 'the delay is recorded as %s ticks' % show_any(tk)
            else:
                if 'period_' not in show_any(tk) or not names(tk, f.params[0][1]):
                    bad = 'the delay is recorded as %s ticks' % show_any(tk)
            # a second call on the state this one leaves is refused
            fl = [e for e in p.events('write') if e.obj is not None and e.obj[0] == 'f' and e.obj[1] == THIS]
            onces = [e for e in fl if any(len(x[1].t) == 1 and x[0] == 'eq' and e.obj[2] in show_fact(x) for x in p.st.facts)]
            if not any(dec_after(I, p, x) for x in p.st.facts):
                bad = 'a second setPortDelay is accepted' + t
        stm(c, rid, f, bad, len(normals(ps)), unk)
        if not bad:
            refuse_clean(c, P, rid, f, ps, pure=['isBound'])
    f = vp(fns(P, YIP + '::getPortDelay'))[0]
    I, ps = run(c, P, f, rid, ycfg(f))
    if ps is not None:
        bad = None
        for p in normals(ps):
            if ok and not same(p, p.ret, Y(I, THIS).rdc):
                bad = 'answers %s' % show_any(p.ret)
        stm(c, rid, f, bad, len(normals(ps)))


def dec_after(I, p, x):
    """the path needed x at entry and makes it false: the same call again is refused"""
    if x[0] != 'eq' or len(x[1].t) != 1:
        return False
    a = atom_key(x[1].t[0][0])
    loc = a[1] if isinstance(a, tuple) and a and a[0] == 'ld' else None
    if loc is None:
        return False
    v = I.load(p.st, loc, 'bool')
    return isinstance(v, Lin) and v.is_const() and x[1].c + x[1].t[0][1] * v.c != 0
