"""Scheduler, precedence DAG, clocks and events."""
from lib import *

SCH = 'sparta::Scheduler'
THROW = SCH + '::throwPrecedenceIssue_'


def fld(l, *names):
    for n in names:
        l = ('f', l, n)
    return l


def ptr(L):
    return at(L)


def chain(l):
    """components of a location, outermost first"""
    out = []
    while l[0] in ('f', 'i'):
        out.append(l)
        l = l[1]
    return out, l


def comp(l, name):
    """the prefix of l ending in field `name`, else None"""
    while l[0] in ('f', 'i'):
        if l[0] == 'f' and l[2] == name:
            return l
        l = l[1]
    return None


def par(I, st, f, i, ty=None):
    return I.load(st, ('p', f.params[i][1] or 'arg%d' % i), ty or f.params[i][2].replace('c ', ''))


def create_stub(I, st, c):
    """a quantum handed out by the allocator: fresh, not linked (what is checked where quanta are given back)"""
    n = I.serial(st, 'new')
    l = ('new', n, 'R:sparta::Scheduler::TickQuantum', c.line)
    I.event(st, 'new', 'quantum', l, (), c.line)
    st.store[fld(l, 'next')] = ZERO
    st.store[fld(l, 'groups', '$size')] = I.load(st, F('firing_group_count_'), 'u32')
    return [(st, addr(l))]


def noret_stub(I, st, c):
    """a function all of whose paths throw"""
    I.event(st, 'throw', 'sparta::SpartaException', None, (), c.line)
    st.exc = 'R:sparta::SpartaException'
    I.sinks[-1].append(st)
    return []


def sched_hints(c, P):
    return hint(c, P, SCH, 'current_tick_quantum_', 'current_tick_', 'group_zero_', 'firing_group_count_', 'current_group_firing_', 'dag_finalized_')


def always_throws(c, P, rid, name):
    """name never returns normally: then calls to it may be treated as refusals"""
    for f in fns(P, name):
        I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True))
        if ps is None:
            return False
        n = [p for p in ps if p.outcome == 'ret']
        if n:
            c.bad(rid, label(f), f.where(), 'the refusal can return normally: ' + path_show(n[0]))
            return False
        c.ok(rid, label(f), f.where(), 'never returns normally (%d paths)' % len(ps))
    return True


def sched_cfg(P, f, thr, **kw):
    stubs = {'sparta::ObjectAllocator::create': create_stub}
    if thr:
        stubs[THROW] = noret_stub
    return Config(thiscls=f.cls, quiet_log=True, history=True, stubs=stubs, maxpaths=4000, maxsteps=400000,
                  opaque=[SCH + '::getScheduleableLabel_', SCH + '::printNextCycleEventTree'], **kw)


def slot_writes(p, val):
    """(event, quantum, group index, slot index) of the writes that put val into a quantum"""
    for e in p.events('write'):
        l = e.obj
        if l[0] == 'i' and l[1][0] == 'f' and e.args and isinstance(e.args[0], Lin) and e.args[0] == val and l[1][1][0] == 'i':
            g = l[1][1]
            if g[1][0] == 'f':
                yield e, g[1][1], g[2], l[2], g


def sched_paths(c, P, rid):
    """paths of scheduleEvent, for add and add-if-not-scheduled"""
    f = fn1(P, SCH + '::scheduleEvent')
    thr = P.by_name.get(THROW) and always_throws(c, P, rid, THROW)
    out = []
    for addif in (0, 1):
        st = St()
        a = [par(I0, st, f, i) for I0 in (Interp(P),) for i in range(4)] + [const(addif)]
        I, ps = run(c, P, f, rid, sched_cfg(P, f, thr), st=st, args=a, facts=groups_inv())
        if ps is None:
            return None
        out.append((f, addif, a, I, ps))
    return out


def groups_inv():
    """established by finalize() (checked by K01/numbering): group zero is the last existing one"""
    gz, fgc = init(F('group_zero_'), 'u32'), init(F('firing_group_count_'), 'u32')
    return [le(const(2), gz), eq(fgc, gz + 1)]


def K01(c):
    P = c.program('Scheduler.cpp')
    sched_hints(c, P)
    r1 = c.rule('target', 'scheduleEvent puts the event, once, behind the last one of the group it names, in the quantum of the tick current + relative time', 2)
    r2 = c.rule('list', 'a quantum that is created is linked into the list so that the ticks stay in ascending order', 2)
    r3 = c.rule('refuse', 'scheduling before finalization, into a group already passed in the current tick, or into a group that does not exist is refused with no effect', 2)
    r4 = c.rule('first-group', 'the first group to fire is never later than the group of an event in the quantum', 2)
    r5 = c.rule('continuing', 'a continuing event extends the time the scheduler keeps running to its tick; a non-continuing one does not', 2)
    sp = sched_paths(c, P, r3)
    if sp is None:
        return
    r6 = c.rule('numbering', 'finalize() gives every dag group 1..n a firing group of its own and group zero the last one', 1)
    f = fn1(P, SCH + '::finalize')
    I, ps = run(c, P, f, r6, Config(thiscls=f.cls, quiet_log=True, opaque=['sparta::DAG::*', SCH + '::restartAt', SCH + '::clearEvents']),
                facts=[('eq', init(F('dag_finalized_'), 'bool'))])
    if ps is not None:
        bad = None
        for p in normals(ps):
            gz, fgc = I.load(p.st, F('group_zero_'), 'u32'), I.load(p.st, F('firing_group_count_'), 'u32')
            n = [x for x in p.events('call') if x.name == 'sparta::DAG::finalize']
            dn = I.load(p.st, F('dag_group_count_'), 'u32')
            if len(n) != 1 or not entails(p.st.facts, eq(fgc, gz + 1)) or not entails(p.st.facts, le(dn + 2, gz)) or not (
                    isinstance(dn.single(), tuple) and dn.single()[0] == 'call') or not entails(p.st.facts, ('ne', I.load(p.st, F('dag_finalized_'), 'bool'))):
                bad = p
        if bad:
            c.bad(r6, label(f), f.where(), 'group zero %s of %s groups with %s dag groups; %s' % (show(gz), show(fgc), show(dn), path_show(bad)))
        else:
            c.ok(r6, label(f), f.where(), '%d paths' % len(normals(ps)))
    T = init(F('current_tick_'), 'u64')
    fin, cgf, gz, fgc = (init(F(n), t) for n, t in (('dag_finalized_', 'bool'), ('current_group_firing_', 'u32'), ('group_zero_', 'u32'), ('firing_group_count_', 'u32')))
    for f, addif, a, I, ps in sp:
        nm = label(f) + (' add_if_not_scheduled' if addif else '')
        sched, rel, grp, cont = a[:4]
        ok = {r1: 0, r2: 0, r4: 0, r5: 0, r3: 0}
        dead = set()

        def fail(r, st, msg, p):
            if r not in dead:
                dead.add(r)
                c.ob(r, nm, f.where(), st, msg + '; ' + path_show(p))
        for p in normals(ps):
            fs = p.st.facts
            ws = list(slot_writes(p, sched))
            # refusals
            for g, cond in (('the graph is not finalized', [('ne', fin)]),):
                if not entails(fs, cond[0]):
                    fail(r3, 'bad', 'accepted although it is not established that the precedence graph is finalized', p)
            if len(ws) > 1:
                fail(r1, 'bad', 'the event is added more than once', p)
                continue
            if not ws:
                if addif:
                    # already there: some slot of the right group equals the event
                    if not any(x[0] == 'eq' and sched.single() in x[1].atoms() for x in fs):
                        fail(r1, 'bad', 'returns without having added the event although no equal entry was found', p)
                    else:
                        ok[r1] += 1
                else:
                    fail(r1, 'bad', 'returns without having added the event', p)
                continue
            e, Q, g, ix, G = ws[0]
            # group
            alt = [[('ne', grp), eq(g, grp + 1)], [('eq', grp), eq(g, gz)]]
            if not any(all(entails(fs, x) for x in al) for al in alt):
                vs = min((max((verdict(fs, x) for x in al), key=sev) for al in alt), key=sev)
                fail(r1, vs, 'group %s is not the one the dag group maps to' % show(g), p)
            tick = I.load(p.st, fld(Q, 'tick'), 'u64')
            v = verdict(fs, eq(tick, T + rel))
            if v == 'unknown' and any(x.kind == 'write' and x.obj == fld(Q, 'tick') for x in p.events()):
                v = 'bad'
            if v != 'ok':
                if entails(fs, eq(tick, T + rel)) is False and Q[0] == 'at' and not any(
                        x[0] == 'eq' and any(comp(k[1], 'tick') for k in x[1].atoms() if isinstance(k, tuple) and k[0] == 'ld') for x in fs):
                    v = 'bad'
                fail(r1, v, 'the quantum used has tick %s, not current tick + relative time' % show(tick), p)
            # position: behind the last
            ci = fld(G, 'current_idx_')
            pre, post = ix, I.load(p.st, ci, 'u64')
            cw = [x for x in p.events('write') if x.obj == ci]
            if not cw:
                fail(r1, 'bad', 'the number of events of the group was not raised', p)
            elif not entails(fs, eq(post, pre + 1)) or pre != cw[0].args[0] - 1:
                fail(r1, 'bad', 'the event is put into slot %s but the group then holds %s' % (show(pre), show(post)), p)
            elif not (isinstance(pre.single(), tuple) and pre.single()[0] == 'ld' and pre.single()[1] == ci):
                fail(r1, 'bad', 'the event is not put behind the last event of the group (slot %s)' % show(pre), p)
            else:
                ok[r1] += 1
            # room in the slot vector
            # first group
            fg = I.load(p.st, fld(Q, 'first_group_idx'), 'u32')
            if not entails(fs, le(fg, g)):
                fail(r4, 'bad', 'first group to fire is %s, the event is in group %s' % (show(fg), show(g)), p)
            else:
                ok[r4] += 1
            # refusals
            if entails(fs, ('eq', rel)) and not entails(fs, le(cgf, g)):
                fail(r3, 'bad', 'accepted into group %s of the current tick although group %s is already firing' % (show(g), show(cgf)), p)
            elif not entails(fs, ('eq', rel)) and not entails(fs, ('ne', rel)) and not entails(fs, le(cgf, g)) and consistent(fs, ('eq', rel)):
                fail(r3, 'bad', 'accepted without comparing the group with the one firing', p)
            elif not entails(fs, lt(g, fgc)) and not entails(fs, lt(g, I.size_of(p.st, fld(Q, 'groups')))):
                fail(r3, 'bad', 'accepted although group %s may not exist' % show(g), p)
            else:
                ok[r3] += 1
            # list
            if Q[0] == 'new':
                A = addr(Q)
                links = [(x.obj, x) for x in p.events('write') if x.args and x.args[0] == A and x.obj[0] == 'f']
                if len(links) != 1:
                    fail(r2, 'bad', 'a new quantum is linked %d times' % len(links), p)
                else:
                    l, x = links[0]
                    nx = I.load(p.st, fld(Q, 'next'), 'ptr')
                    old = None
                    # what the link designated before
                    if l == F('current_tick_quantum_'):
                        old = init(l, 'ptr')
                        prev = None
                    elif l[2] == 'next':
                        prev = l[1]
                        old = nx if any(entails(fs, ('eq', nx)) for _ in (0,)) else None
                    else:
                        prev = None
                    good = True
                    if l == F('current_tick_quantum_') and not entails(fs, eq(nx, old)):
                        fail(r2, 'bad', 'the quanta behind the new first one are lost (next is %s)' % show(nx), p)
                        good = False
                    if good and not entails(fs, ('eq', nx)):
                        k = nx.single()
                        t2 = I.load(p.st, fld(at(nx), 'tick'), 'u64')
                        if not tick_less(I, p, fs, T + rel, at(nx), nx):
                            fail(r2, 'bad', 'the new quantum is put before one that is not known to be later (%s)' % show(nx), p)
                            good = False
                    elif good and prev is not None:
                        # appended: the previous one had no successor
                        if not ended(I, p, fs, prev):
                            fail(r2, 'bad', 'appended behind a quantum that is not known to be the last', p)
                            good = False
                    if good and prev is not None:
                        if not tick_less(I, p, fs, None, prev, None, upper=T + rel):
                            fail(r2, 'bad', 'the new quantum is put behind one that is not known to be earlier', p)
                            good = False
                    if good:
                        ok[r2] += 1
            # continuing
            fi, lc = I.load(p.st, F('is_finished_'), 'bool'), I.load(p.st, F('latest_continuing_event_'), 'u64')
            fi0, lc0 = init(F('is_finished_'), 'bool'), init(F('latest_continuing_event_'), 'u64')
            if entails(fs, ('eq', cont)):
                if fi != fi0 or lc != lc0:
                    fail(r5, 'bad', 'a non-continuing event changed the finish time', p)
                else:
                    ok[r5] += 1
            else:
                if not entails(fs, le(T + rel, lc)) or not entails(fs, le(lc0, lc)):
                    fail(r5, 'bad', 'latest continuing time is %s on return' % show(lc), p)
                elif not entails(fs, ('eq', fi)):
                    fail(r5, 'bad', 'still marked finished', p)
                else:
                    ok[r5] += 1
        for r in ok:
            if r not in dead:
                c.ok(r, nm, f.where(), '%d path instances' % ok[r])
        refuse_clean(c, P, r3, f, ps)


def sev(v):
    return {'ok': 0, 'unknown': 1, 'bad': 2}[v]


def tick_less(I, p, fs, lo, q, qv, upper=None):
    """facts order the tick of quantum q after lo / before upper"""
    for x in fs:
        if x[0] != 'le':
            continue
        for k in x[1].atoms():
            if isinstance(k, tuple) and k[0] == 'ld' and k[1][0] == 'f' and k[1][2] == 'tick' and samequantum(fs, k[1][1], q):
                t = atom(k, 'u64')
                if lo is not None and entails(fs, lt(lo, t)):
                    return True
                if upper is not None and entails(fs, lt(t, upper)):
                    return True
    return False


def samequantum(fs, a, b):
    if a == b:
        return True
    if a[0] == 'at' and b[0] == 'at':
        return entails(fs, eq(a[1], b[1]))
    return False


def ended(I, p, fs, prev):
    for x in fs:
        if x[0] == 'eq':
            for k in x[1].atoms():
                if isinstance(k, tuple) and k[0] == 'ld' and k[1][0] == 'f' and k[1][2] == 'next' and samequantum(fs, k[1][1], prev):
                    return True
    return False


# ---- K02 firing ---------------------------------------------------------------

def run_cfg(P, f, snaps, **kw):
    def watch(I, st, e):
        if e.kind == 'icall' or (e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] == 'current_idx_') or e.kind == 'call' and e.name.startswith('sparta::SleeperThread') or (e.kind == 'call' and e.name in ('sparta::ObjectAllocator::free', 'sparta::Clock::updateElapsedCycles')):
            snaps.setdefault(id(e), (e, st.copy()))

    def after(I, st):
        # the handler may schedule further events in this quantum and after it, cancel, or stop the run
        for n in ('current_idx_', 'size_', 'next', 'first_group_idx', 'running_', 'latest_continuing_event_', 'is_finished_', 'async_event_list_empty_hint_', 'prev_wdt_tick_'):
            I.havoc_field(st, n)
    return Config(thiscls=f.cls, quiet_log=True, maxpaths=4000, maxsteps=600000, watch=watch, on_icall=after,
                  opaque=[SCH + '::scheduleEvent', 'sparta::SleeperThread::*', 'sparta::SleeperThreadBase::*', 'boost::*', 'sparta::ObjectAllocator::*',
                          SCH + '::printNextCycleEventTree'], **kw)


def run_seed(st, **kw):
    for n, v in dict(dict(first_tick_=0, async_event_list_empty_hint_=1, dag_finalized_=1, running_=0), **kw).items():
        st.store[F(n)] = const(v)


def K02(c):
    P = c.program('Scheduler.cpp')
    sched_hints(c, P)
    f = fn1(P, SCH + '::run')
    r1 = c.rule('fire', 'a handler runs only as the current event of the current group of the first quantum, with the current tick equal to that quantum\'s tick, '
                'and getCurrentFiringEvent() and getCurrentSchedulingPhase() describe it', 1)
    r2 = c.rule('each-once', 'the event index starts at 0, advances by one after each handler, and the group is emptied only when the index has reached its current size', 1)
    r3 = c.rule('groups', 'the groups of a quantum are visited from the first used one, one after the other, up to the last one', 1)
    r4 = c.rule('advance', 'after its last group a quantum is unlinked, becomes unlinked from its successor and is given back, and the successor is next', 1)
    r5 = c.rule('clocks', 'every registered clock is told the elapsed time before the first handler of a tick', 1)
    r6 = c.rule('count', 'the number of fired events grows by one per handler', 1)
    r7 = c.rule('refuse', 'running a scheduler that is not finalized or already running is refused with no effect', 1)
    r8 = c.rule('bounded', 'a bounded run schedules the stop event in group zero of the last tick it covers, and an exact idle run advances time by exactly the ticks asked for', 2)
    r9 = c.rule('async', 'every queued asynchronous event is scheduled with its own delay and group, once, under the queue\'s lock', 1)
    need = hint(c, P, SCH, 'current_event_firing_', 'events_fired_', 'elapsed_ticks_', 'registered_clocks_')
    snaps = {}
    st = St()
    run_seed(st)
    I0 = Interp(P)
    args = [I0.load(st, ('g', 'sparta::Scheduler::INDEFINITE'), 'u64'), ZERO, ZERO]
    I, ps = run(c, P, f, r1, run_cfg(P, f, snaps), st=st, args=args)
    if ps is None:
        return
    gfe, gph, gct, gnf = (obs1(P, SCH, n) for n in ('getCurrentFiringEvent', 'getCurrentSchedulingPhase', 'getCurrentTick', 'getNumFired'))
    cq, cg, ce = F('current_tick_quantum_'), F('current_group_firing_'), F('current_event_firing_')
    live = set()
    for p in ps:
        live |= {id(e) for e in p.events()}
    n = 0
    done = False
    for e, s in snaps.values():
        if e.kind != 'icall':
            continue
        tgt = e.x
        k = tgt.single() if isinstance(tgt, Lin) else None
        # the scheduleable whose handler this is
        l = k[1] if isinstance(k, tuple) and k[0] == 'ld' else None
        while l is not None and l[0] in ('f', 'i'):
            l = l[1]
        sv = l[1] if l is not None and l[0] == 'at' else None
        for _ in range(3):
            kk = sv.single() if isinstance(sv, Lin) else None
            if isinstance(kk, tuple) and kk[0] == 'ld' and not comp(kk[1], 'scheduleables_'):
                r = root(kk[1])
                sv = r[1] if r[0] == 'at' else None
        kk = sv.single() if isinstance(sv, Lin) else None
        if not (isinstance(kk, tuple) and kk[0] == 'ld' and comp(kk[1], 'scheduleables_')):
            c.unk(r1, label(f), f.where(), 'fired handler is not a slot of a group: %s' % show_any(tgt)[:200])
            done = True
            break
        sl = kk[1]
        comps, Q = chain(sl)
        idx, grp = sl[2], sl[1][1][2]
        qv = Q[1] if Q[0] == 'at' else None
        bad = None
        if qv is None or not same_val(I, s, qv, I.load(s, cq, 'ptr')):
            bad = 'the quantum fired from is %s, the first one is %s' % (show_loc(Q), show(I.load(s, cq, 'ptr')))
        elif not same_val(I, s, grp, I.load(s, cg, 'u32')):
            bad = 'the group fired is %s, the current group is %s' % (show(grp), show(I.load(s, cg, 'u32')))
        elif not same_val(I, s, idx, I.load(s, ce, 'u32')):
            bad = 'the slot fired is %s, the current event is %s' % (show(idx), show(I.load(s, ce, 'u32')))
        else:
            t = observe1(I, gct, s)
            q = I.load(s, fld(Q, 'tick'), 'u64')
            if not same_val(I, s, t, q):
                bad = 'the current tick is %s while an event of tick %s runs' % (show_any(t), show(q))
            ph = observe1(I, gph, s)
            w = I.load(s, fld(at(sv), 'sched_phase_'))
            if not bad and isinstance(ph, Lin) and not same_val(I, s, ph, w):
                bad = 'the scheduling phase is %s while an event of phase %s runs' % (show_any(ph), show_any(w))
            ev = [v for s2, v in (observe_all(I, gfe, s) or []) if isinstance(v, Lin)]
            if not bad and not any(same_val(I, s, v, sv) for v in ev):
                bad = 'getCurrentFiringEvent() is none of %s' % [show(v) for v in ev]
            if not bad and not entails(s.facts, lt(idx, I.load(s, fld(sl[1][1], 'current_idx_'), 'u64'))):
                bad = 'slot %s of the group is fired without comparing it with the number of events' % show(idx)
        if bad:
            c.bad(r1, label(f), f.where(), bad + ' (line %d)' % e.line)
            done = True
            break
        n += 1
    if not done:
        if n:
            c.ok(r1, label(f), f.where(), '%d handler calls on %d paths' % (n, len(ps)))
        else:
            c.bad(r1, label(f), f.where(), 'no handler is ever called')
    # loops: counters
    bad2 = bad3 = bad6 = None
    n2 = n3 = 0
    for lid, h, e in I.iters:
        d = {}
        for nme, l in (('e', ce), ('g', cg)):
            d[nme] = (I.load(h, l, 'u32'), I.load(e, l, 'u32'))
        fired = [x for x in e.events() if x.kind == 'icall']
        fh = [x for x in h.events() if x.kind == 'icall']
        new = fired[len(fh):] if fired[:len(fh)] == fh else None
        inner = new is not None and len(new) == 1 and new[0].loops and new[0].loops[-1] == lid
        if inner:
            n2 += 1
            if d['e'][1] != d['e'][0] + 1:
                bad2 = 'after a handler the event index goes from %s to %s' % (show(d['e'][0]), show(d['e'][1]))
            if d['g'][1] != d['g'][0]:
                bad2 = 'the group changes between two events of one group'
            a, b = observe1(I, gnf, h), observe1(I, gnf, e)
            if not (isinstance(a, Lin) and isinstance(b, Lin) and b == a + 1):
                bad6 = 'the count goes from %s to %s over one handler' % (show_any(a), show_any(b))
        if d['g'][1] == d['g'][0] + 1 or (d['g'][0] != d['g'][1] and not inner):
            q = I.load(h, cq, 'ptr')
            left = I.load(e, fld(('i', fld(at(q), 'groups'), d['g'][0]), 'current_idx_'), 'u64')
            if same_val(I, h, q, I.load(e, cq, 'ptr')) and left != ZERO and not entails(e.facts, ('eq', left)):
                bad2 = 'a group still holds its events after they were fired'
    for p in ps:
        evs = p.events()
        loopstart = {}
        lastw = {}
        gl = None
        for i, e in enumerate(evs):
            if e.kind == 'write' and e.obj in (ce, cg):
                lastw[e.obj] = (e, i)
            if e.kind == 'write' and e.obj[0] == 'f' and e.obj[2] == 'current_idx_' and e.args[0] == ZERO and e.obj[1][0] == 'i':
                # group emptied
                g = e.obj[1][2]
                n2 += 1
                fs = e.facts
                snap = snaps.get(id(e))
                if snap is not None:
                    now = ('ld', e.obj, I.epoch(snap[1], e.obj))
                    cur = I.load(snap[1], ce, 'u32')
                    if not any(entails(fs, le(atom(now, t), cur)) for t in ('u64', 'u32', None)):
                        bad2 = 'group emptied although its present size was not compared with the number of events fired (line %d)' % e.line
                nxt = [x for x in evs[i:] if x.kind == 'write' and x.obj == cg][:1]
                if nxt:
                    n3 += 1
                    if nxt[0].args[0] != g + 1:
                        bad3 = 'after group %s the next one is %s' % (show(g), show(nxt[0].args[0]))
            if e.kind == 'write' and e.obj == ce and e.args[0].is_const() and e.args[0].c != 0:
                bad2 = 'the first event of a group has index %s' % show(e.args[0])
        # start at first_group_idx
        for i, e in enumerate(evs):
            if e.kind == 'write' and e.obj == F('current_tick_') and len(e.loops) == 1:
                nx = [x for x in evs[i - 4 if i > 4 else 0:] if x.kind == 'write' and x.obj == cg and len(x.loops) == 1 and not (x.args[0].is_const())]
                if nx:
                    k = nx[0].args[0].single()
                    if not (isinstance(k, tuple) and k[0] == 'ld' and k[1][0] == 'f' and k[1][2] == 'first_group_idx'):
                        if not nx[0].args[0].is_const() or nx[0].args[0].c > 0:
                            bad3 = 'the first group of a tick is %s' % show(nx[0].args[0])
                    n3 += 1
    c.ob(r2, label(f), f.where(), 'bad' if bad2 else 'ok' if n2 else 'unknown', bad2 or '%d loop instances' % n2)
    c.ob(r3, label(f), f.where(), 'bad' if bad3 else 'ok' if n3 else 'unknown', bad3 or '%d loop instances' % n3)
    c.ob(r6, label(f), f.where(), 'bad' if bad6 else 'ok' if n2 else 'unknown', bad6 or '%d loop instances' % n2)
    # group loop runs to the last group; quantum handling
    bad4 = None
    n4 = 0
    for e, s in snaps.values():
        if e.kind == 'call' and e.name == 'sparta::ObjectAllocator::free':
            n4 += 1
            q = e.args[0]
            nx = I.load(s, fld(at(q), 'next'), 'ptr')
            cur = I.load(s, cq, 'ptr')
            if not entails(s.facts, ('eq', nx)):
                bad4 = 'a quantum is given back while still linked to %s' % show(nx)
            elif cur == q:
                bad4 = 'the quantum given back is still the first one'
            else:
                k = cur.single()
                if not (isinstance(k, tuple) and k[0] == 'ld' and k[1] == fld(at(q), 'next')):
                    bad4 = 'after quantum %s the next one is %s' % (show(q), show(cur))
            g, m = I.load(s, cg, 'u32'), I.load(s, F('firing_group_count_'), 'u32')
            if not entails(s.facts, le(m, g)) and not entails(s.facts, le(I.size_of(s, fld(at(q), 'groups')), g)):
                bad4 = bad4 or 'a quantum is given back before all its groups were visited (group %s of %s, %s)' % (show(g), show(m), [show_fact(x) for x in s.facts])
    c.ob(r4, label(f), f.where(), 'bad' if bad4 else 'ok' if n4 else 'bad', bad4 or ('%d releases' % n4 if n4 else 'no quantum is ever given back'))
    # clocks
    bad5 = None
    n5 = 0
    for p in ps:
        seen = 0
        told = False
        for e in p.events():
            if e.kind == 'write' and e.obj == F('current_tick_') and len(e.loops) == 1:
                told = False
                el = None
            if e.kind == 'iter' and e.obj == F('registered_clocks_'):
                seen = True
            if e.kind == 'call' and e.name == 'sparta::Clock::updateElapsedCycles':
                told = True
                n5 += 1
            if e.kind == 'icall' and not told and seen_nonempty(e):
                bad5 = 'a handler runs before the clocks were told the time'
    for e, s in snaps.values():
        if e.name == 'sparta::Clock::updateElapsedCycles':
            el = I.load(s, F('elapsed_ticks_'), 'u64')
            if e.args and isinstance(e.args[0], Lin) and e.args[0] != el:
                bad5 = 'the clocks are told %s, elapsed time is %s' % (show(e.args[0]), show(el))
    c.ob(r5, label(f), f.where(), 'bad' if bad5 else 'ok' if n5 else 'bad', bad5 or ('%d notifications' % n5 if n5 else 'clocks are never told the time'))
    # refusals
    for n_, v in (('dag_finalized_', 0), ('running_', 1)):
        st = St()
        run_seed(st, **{n_: v})
        I2, ps2 = run(c, P, f, r7, run_cfg(P, f, {}), st=st)
        if ps2 is None:
            continue
        if normals(ps2):
            c.bad(r7, label(f), f.where(), 'runs although %s is %s; %s' % (n_, bool(v), path_show(normals(ps2)[0])))
        else:
            refuse_clean(c, P, r7, f, ps2)
    bounded(c, P, f, r8)
    asyncs(c, P, f, r9)


def seen_nonempty(e):
    """the facts at the event say there are registered clocks"""
    return any(x[0] == 'le' and x[1].atoms() and all(isinstance(k, tuple) and k[0] == 'ld' and k[1] == F('registered_clocks_', '$size') for k in x[1].atoms()) and x[1].c >= 1
               for x in e.facts)


def same_val(I, s, a, b):
    return isinstance(a, Lin) and isinstance(b, Lin) and (a == b or entails(s.facts, eq(a, b)))


def obs1(P, cls, name):
    fs = [g for g in P.find(cls + '::' + name) if not g.params]
    if not fs:
        raise Broken('%s::%s() not found' % (cls, name))
    return fs[0]


def bounded(c, P, f, rid):
    T, n = init(F('current_tick_'), 'u64'), init(('p', f.params[0][1]), 'u64')
    ind = Interp(P).load(St(), ('g', 'sparta::Scheduler::INDEFINITE'), 'u64')
    for ex in (0, 1):
        # nothing queued
        st = St()
        run_seed(st)
        st.store[F('current_tick_quantum_')] = ZERO
        I, ps = run(c, P, f, rid, run_cfg(P, f, {}), st=st, args=[n, const(ex), ZERO], facts=[ne(n, ind), ('ne', n)])
        if ps is None:
            continue
        bad = None
        for p in normals(ps):
            t = I.load(p.st, F('current_tick_'), 'u64')
            if not entails(p.st.facts, eq(t, T + n if ex else T)):
                bad = 'an idle run of n ticks%s leaves the current tick at %s; %s' % (' that must be exact' if ex else '', show(t), path_show(p))
            if not entails(p.st.facts, ('eq', I.load(p.st, F('running_'), 'bool'))):
                bad = 'still marked running on return'
            if any(e.kind == 'icall' for e in p.events()):
                bad = 'fires an event although none is queued'
        c.ob(rid, label(f) + ' idle exact=%d' % ex, f.where(), 'bad' if bad else 'ok', bad or '%d paths' % len(normals(ps)))
        # something queued
        st = St()
        run_seed(st)
        q = init(F('current_tick_quantum_'), 'ptr')
        snaps = {}
        cfg = run_cfg(P, f, snaps)
        cfg.opaque = list(cfg.opaque) + [SCH + '::cancelEvent']
        I, ps = run(c, P, f, rid, cfg, st=st, args=[n, const(ex), ZERO], facts=[ne(n, ind), ('ne', n), ('ne', q)])
        if ps is None:
            continue
        bad = None
        qt = init(fld(at(q), 'tick'), 'u64')
        k = 0
        for p in ps:
            fired = any(e.kind == 'icall' for e in p.events()) or any(e.kind == 'call' and e.name == 'sparta::ObjectAllocator::free' for e in p.events())
            se = [e for e in p.events('call') if e.name == SCH + '::scheduleEvent' and not e.loops]
            if not fired and p.outcome == 'ret':
                t = I.load(p.st, F('current_tick_'), 'u64')
                if not entails(p.st.facts, lt(T + n, qt)):
                    bad = 'returns without firing although an event may be due in the ticks asked for; %s' % path_show(p)
                elif not entails(p.st.facts, eq(t, T + n if ex else T)):
                    bad = 'current tick is %s; %s' % (show(t), path_show(p))
            if fired:
                k += 1
                if len(se) != 1:
                    bad = 'the stop event is scheduled %d times; %s' % (len(se), path_show(p))
                else:
                    a = se[0].args
                    if a[1] != n - 1 or not a[2].is_const() or a[2].c != 0 or a[3] != const(ex):
                        bad = 'the stop event is scheduled with (%s)' % ', '.join(show_any(x) for x in a)
                    fr = [e for e in p.events('call') if e.name == 'sparta::ObjectAllocator::free']
                    ev = p.events()
                    wr = [e for e in ev if e.kind == 'write' and e.obj == F('running_') and fr and ev.index(e) > ev.index(fr[-1])]
                    if p.outcome == 'ret' and wr:
                        sn = [e for e in ev[:ev.index(wr[-1])] if id(e) in snaps][-1]
                        ca = [e for e in ev[ev.index(fr[-1]):] if e.kind == 'call' and e.name == SCH + '::cancelEvent' and e.args[0] == a[0]]
                        rn = I.load(snaps[id(sn)][1], F('running_'), 'bool')
                        if not ca and consistent(p.st.facts, ('ne', rn)):
                            bad = 'a run that halts before its stop event leaves that event scheduled; %s' % path_show(p)
        c.ob(rid, label(f) + ' bounded exact=%d' % ex, f.where(), 'bad' if bad else 'ok' if k else 'unknown', bad or '%d paths, %d firing' % (len(ps), k))


def asyncs(c, P, f, rid):
    st = St()
    run_seed(st, async_event_list_empty_hint_=0)
    ind = Interp(P).load(st, ('g', 'sparta::Scheduler::INDEFINITE'), 'u64')
    I, ps = run(c, P, f, rid, run_cfg(P, f, {}), st=st, args=[ind, ZERO, ZERO])
    if ps is None:
        return
    bad = None
    n = 0
    al = F('async_event_list_')
    for p in ps:
        for e in p.events('call'):
            if e.name != SCH + '::scheduleEvent':
                continue
            n += 1
            if not any(x[0] == 'each' and x[2] == al for x in e.loops if isinstance(x, tuple)):
                continue
            a = e.args
            el = None
            k = a[0].single() if isinstance(a[0], Lin) else None
            l = k[1] if isinstance(k, tuple) and k[0] == 'ld' else None
            if l is None or l[0] != 'f' or l[2] != 'sched':
                bad = 'schedules %s' % show_any(a[0])
                continue
            d = a[1].single() if isinstance(a[1], Lin) else None
            if not (isinstance(d, tuple) and d[0] == 'ld' and d[1] == ('f', l[1], 'tick')):
                bad = 'an asynchronous event is scheduled with delay %s' % show_any(a[1])
            if len(a) > 4 and not (a[4] == ZERO):
                bad = 'an asynchronous event is scheduled only if it is not already in its group'
            if not in_group(a[2], a[0]):
                bad = 'an asynchronous event is scheduled into group %s' % show_any(a[2])
        lk = [e for e in p.events('ctor', 'call') if 'unique_lock' in (e.name or '') or 'lock_guard' in (e.name or '') or 'scoped_lock' in (e.name or '')]
        used = [e for e in p.events('iter', 'cont') if e.obj == al]
    if not n:
        c.unk(rid, label(f), f.where(), 'no asynchronous event is scheduled on the analysed paths')
        return
    # after a round: the queue was emptied
    for p in ps:
        ev = p.events()
        for i, e in enumerate(ev):
            if e.kind == 'iter' and e.obj == al:
                rest = ev[i:]
                fire = [j for j, x in enumerate(rest) if x.kind == 'icall']
                cl = [j for j, x in enumerate(rest) if x.kind == 'cont' and x.obj == al and (x.name in ('clear', 'swap', 'operator=', 'move') or x.name in ('erase', 'pop_front') and len(x.loops) > 1)]
                if fire and (not cl or cl[0] > fire[0]):
                    bad = 'the asynchronous queue is not emptied after its events were scheduled'
    c.ob(rid, label(f), f.where(), 'bad' if bad else 'ok', bad or '%d scheduling calls' % n)


def in_group(g, sched):
    """g is the group id of scheduleable sched"""
    def has(k, d=0):
        if d > 8:
            return False
        if isinstance(k, Lin):
            return any(has(atom_key(a), d + 1) for a, _ in k.t)
        if isinstance(k, tuple):
            if k == sched or (isinstance(k, tuple) and k and k[0] == 'ld' and atom(k, 'ptr') == sched):
                return True
            return any(has(x, d + 1) for x in k if isinstance(x, (tuple, Lin)))
        return False
    return has(g)


# ---- K03 cancel / isScheduled -------------------------------------------------

def counters(I, info):
    """[(loc, entry value, head value, step)] of the scalars every iteration advances by the same constant"""
    h, out = info['head'], []
    if not info['ends']:
        return out
    for k in set().union(*[set(e.store) for e in info['ends']]):
        hv = h.store.get(k)
        if hv is None:
            hv = I.load(h.copy(), k)
        if not isinstance(hv, Lin) or not hv.t:
            continue
        ds = set()
        for e in info['ends']:
            v = e.store.get(k)
            ds.add((v - hv).c if isinstance(v, Lin) and (v - hv).is_const() else None)
        if len(ds) == 1 and None not in ds and ds != {0}:
            out.append((k, info['entry'].store.get(k) or I.load(info['entry'].copy(), k), hv, ds.pop()))
    return out


def chases(I, info, field='next'):
    """[(loc, entry value, head value)] of the pointers every iteration moves to ->field"""
    h, out = info['head'], []
    if not info['ends']:
        return out
    for k in set().union(*[set(e.store) for e in info['ends']]):
        hv = h.store.get(k)
        if hv is None:
            hv = I.load(h.copy(), k)
        if not isinstance(hv, Lin) or not hv.t:
            continue
        good = True
        for e in info['ends']:
            v = e.store.get(k)
            s = v.single() if isinstance(v, Lin) else None
            if not (isinstance(s, tuple) and s[0] == 'ld' and s[1] == fld(at(hv), field)):
                good = False
        if good:
            out.append((k, info['entry'].store.get(k) or I.load(info['entry'].copy(), k), hv))
    return out


def slot_facts(fs, who):
    """facts comparing a slot of an event list with `who`: [(kind, slot loc)]"""
    out = []
    for k, L in fs:
        if k not in ('eq', 'ne') or L.c:
            continue
        ks = L.atoms()
        if len(ks) == 2 and who.single() in ks:
            o = [x for x in ks if x != who.single()][0]
            if isinstance(o, tuple) and o[0] == 'ld' and o[1][0] == 'i':
                out.append((k, o[1]))
    return out


def group_of(fs, l):
    """(quantum loc, group index) of a group designated by a current_idx_ bound in facts"""
    out = []
    for k, L in fs:
        for a in L.atoms():
            if isinstance(a, tuple) and a[0] == 'ld' and a[1][0] == 'f' and a[1][1][0] == 'i' and a[1][1][1][0] == 'f' and a[1][1][1][1][0] == 'at':
                out.append((a[1][1][1][1], a[1][1][2], a, (k, L)))
    return out


def K03(c):
    P = c.program('Scheduler.cpp')
    sched_hints(c, P)
    r1 = c.rule('sweep', 'cancelEvent/isScheduled look at every slot of the event\'s firing group, in every tick (or in the tick named), and act on exactly the slots that hold the event', 4)
    r2 = c.rule('effect', 'a cancelled slot holds the scheduler\'s no-op event and no other slot changes; isScheduled answers true only on a match and false only after looking everywhere', 4)
    r3 = c.rule('async', 'asynchronous scheduling queues the event, with its delay, under the lock and announces it; asynchronous cancelling removes the queued occurrences and the scheduled ones', 2)
    r4 = c.rule('clear', 'clearing is refused while running and tells every queued event it was cancelled, empties every group and gives back every tick', 2)
    r5 = c.rule('restart', 'restartAt is refused before finalization and while running, and sets the current tick', 1)
    gz = init(F('group_zero_'), 'u32')
    T = init(F('current_tick_'), 'u64')
    for nm, np in (('cancelEvent', 1), ('cancelEvent', 2), ('isScheduled', 1), ('isScheduled', 2)):
        f = fn1(P, SCH + '::' + nm, nparams=np)
        I, ps = run(c, P, f, r1, Config(thiscls=f.cls, quiet_log=True, history=True, maxpaths=4000), facts=groups_inv())
        if ps is None:
            continue
        who = par(I, St(), f, 0)
        want = T + par(I, St(), f, 1) if np == 2 else None
        gid = I.load(St(), fld(at(who), 'pgid_'), 'u32')
        bad = unk = None
        nsl = nq = 0

        def grp_ok(g, fs):
            return (entails(fs, ('eq', gid)) and entails(fs, eq(g, gz))) or (entails(fs, ('ne', gid)) and entails(fs, eq(g, gid + 1)))
        for info in I.loopinfo:
            h = info['head']
            alls = [e for e in info['ends'] + info['breaks'] + [s for _, s, _ in info['rets']]]
            slots = set()
            for e in alls:
                for k, l in slot_facts(e.facts, who):
                    if any(n > 0 for n in (1,)) and (k, l) not in [(a, b) for a, b in slot_facts(h.facts, who)]:
                        slots.add(l)
            ch = chases(I, info)
            if ch:
                # over the ticks
                nq += 1
                k, v0, hv = ch[0]
                if v0 != init(F('current_tick_quantum_'), 'ptr') and not entails(info['entry'].facts, eq(v0, init(F('current_tick_quantum_'), 'ptr'))):
                    bad = 'the search over the ticks starts at %s' % show_any(v0)
                for x in info['exits']:
                    if not entails(x.facts, ('eq', hv)):
                        bad = 'the search over the ticks ends before the last one (%s)' % [show_fact(y) for y in x.facts - h.facts]
                tk = I.load(h.copy(), fld(at(hv), 'tick'), 'u64')
                for x in info['breaks'] + [s for o, s, v in info['rets'] if o == 'ret' and not (nm == 'isScheduled' and v == ONE)]:
                    if want is None or not (entails(x.facts, eq(tk, want)) or entails(x.facts, lt(want, tk))):
                        bad = 'the search over the ticks is left early'
                for e in info['ends']:
                    if want is not None:
                        if not entails(e.facts, ne(tk, want)):
                            if not [1 for q, g, a, x in group_of(e.facts, None) if q == at(hv)]:
                                bad = 'the tick asked for may be passed over (%s)' % [show_fact(y) for y in e.facts - h.facts]
                    else:
                        gs = [(q, g) for q, g, a, x in group_of(e.facts, None) if samequantum(e.facts, q, at(hv))]
                        if not gs:
                            bad = 'a tick is passed over without looking at the event\'s group'
                        elif not all(grp_ok(g, e.facts) for q, g in gs):
                            bad = 'the group looked at is %s' % show(gs[0][1])
            elif slots:
                nsl += 1
                cs = counters(I, info)
                for l in slots:
                    ct = [x for x in cs if x[2] == l[2]]
                    if info['cont'] is not None and l[2] == info['ix']:
                        continue
                    if not ct:
                        unk = 'the slot index %s is not a loop counter' % show(l[2])
                        continue
                    k, v0, hv, d = ct[0]
                    up = d == 1
                    if abs(d) != 1:
                        bad = 'slots are skipped (step %d)' % d
                    elif up and v0 != ZERO:
                        bad = 'the search in a group starts at slot %s' % show(v0)
                    for x in info['exits']:
                        gs = [a for q, g, a, y in group_of(x.facts, None)]
                        if up and gs and not any(entails(x.facts, le(atom(a, t), hv)) for a in gs for t in ('u64', 'u32', None)):
                            bad = 'the search in a group ends before its last event'
                        elif up and not gs:
                            unk = 'loop bound not recognised'
                    if (info['breaks'] or [1 for r in info['rets'] if r[0] == 'ret']) and nm == 'cancelEvent':
                        bad = 'cancelling stops at the first occurrence'
                for e in info['ends']:
                    gs = group_of(e.facts, None)
                    if gs and not any(grp_ok(g, e.facts) for q, g, a, x in gs):
                        bad = 'the group looked at is %s' % show(gs[0][1])
                    if gs and want is not None and not any(entails(e.facts, eq(I.load(e.copy(), fld(q, 'tick'), 'u64'), want)) for q, g, a, x in gs):
                        bad = 'slots of a tick that is not the one asked for'
                if nm == 'cancelEvent':
                    n0 = len(h.events())
                    for e in info['ends']:
                        new = [x for x in e.events()[n0:] if x.kind == 'write' and x.obj in slots]
                        m = [l for k, l in slot_facts(e.facts, who) if k == 'eq' and l in slots]
                        u = [l for k, l in slot_facts(e.facts, who) if k == 'ne' and l in slots]
                        if m and not new:
                            bad = 'a slot that holds the event is left alone'
                        if new and not m:
                            bad = 'a slot is overwritten although it is not known to hold the event'
                        for x in new:
                            if x.args and isinstance(x.args[0], Lin) and not is_cancelled(x.args[0]):
                                bad = 'the slot then holds %s' % show_any(x.args[0])
        for p in ps:
            for x in p.events('write'):
                if x.obj[0] == 'i' and x.args and isinstance(x.args[0], Lin) and is_cancelled(x.args[0]):
                    if not any(k == 'eq' and l == x.obj for k, l in slot_facts(x.facts, who)):
                        bad = 'a slot is overwritten although it is not known to hold the event'
            if nm == 'isScheduled' and p.outcome == 'ret':
                if p.ret == ONE and not any(k == 'eq' for k, l in slot_facts(p.st.facts, who)):
                    bad = 'answers true without a match; ' + path_show(p)
                elif p.ret == ZERO and any(k == 'eq' for k, l in slot_facts(p.st.facts, who)):
                    bad = 'answers false after a match; ' + path_show(p)
                elif p.ret == ZERO:
                    ne_ = {l for k, l in slot_facts(p.st.facts, who) if k == 'ne'}
                    for l in ne_:
                        if any(m[1] == l[1] and m[2] == l[2] + 1 for m in ne_):
                            continue
                        gs = [a for q, g, a, y in group_of(p.st.facts, None)]
                        if gs and not any(entails(p.st.facts, le(atom(a, t), l[2] + 1)) for a in gs for t in ('u64', 'u32', None)):
                            bad = 'answers false before the last event of the group was looked at; ' + path_show(p)
                elif not isinstance(p.ret, Lin) or not p.ret.is_const():
                    unk = 'answer %s' % show_any(p.ret)
        if not nsl or not nq:
            unk = 'search loops not recognised (%d over slots, %d over ticks)' % (nsl, nq)
            if nm == 'cancelEvent' and not any(x.kind == 'write' and x.obj[0] == 'i' for p in ps for x in p.events()):
                bad = 'nothing is ever cancelled'
        for r in (r1, r2):
            c.ob(r, label(f), f.where(), 'bad' if bad else 'unknown' if unk else 'ok', bad or unk or '%d slot loops, %d tick loops, %d paths' % (nsl, nq, len(ps)))
    async_queue(c, P, r3)
    clearing(c, P, r4, r5)


def is_cancelled(v):
    k = v.single() if isinstance(v, Lin) else None
    return isinstance(k, tuple) and k[0] in ('ld', 'addr') and 'cancelled_event_' in show_loc(k[1])


def locked_before(p, i):
    """a lock is held at event i of the path (and not released)"""
    held = 0
    for e in p.events()[:i]:
        if e.kind in ('ctor', 'call', 'dtor') and re.search(r'unique_lock|lock_guard|scoped_lock', e.name or ''):
            if e.kind == 'dtor' or '~' in e.name or e.name.endswith('unlock'):
                held -= 1
            else:
                held += 1
    return held > 0


def async_queue(c, P, rid):
    f = fn1(P, SCH + '::scheduleAsyncEvent')
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True))
    al, hi = F('async_event_list_'), F('async_event_list_empty_hint_')
    if ps is not None:
        bad = None
        a, t = par(I, St(), f, 0), par(I, St(), f, 1)
        for p in normals(ps):
            ad = [(i, e) for i, e in enumerate(p.events()) if e.kind == 'cont' and e.obj == al and e.name not in ('size', 'empty', 'begin', 'end')]
            if len(ad) != 1 or not re.search('push_back|emplace_back|insert|emplace|push', ad[0][1].name):
                bad = 'the event is queued %d times; %s' % (len(ad), path_show(p))
                continue
            hv = I.load(p.st, hi, 'bool')
            if not entails(p.st.facts, ('eq', hv)):
                bad = 'the scheduler is not told that the queue is not empty; ' + path_show(p)
            txt = ' '.join(show_any(x) for x in ad[0][1].args)
            vals = set(x for x in ad[0][1].args if isinstance(x, Lin))
            if vals and len(ad[0][1].args) >= 2 and (a not in vals or t not in vals):
                bad = 'queued with (%s)' % txt
        c.ob(rid, label(f), f.where(), 'bad' if bad else 'ok', bad or '%d paths' % len(ps))
    f = fn1(P, SCH + '::cancelAsyncEvent')
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True, opaque=[SCH + '::cancelEvent']))
    if ps is not None:
        bad = None
        a = par(I, St(), f, 0)
        for p in normals(ps):
            n = [e for e in p.events('call') if e.name == SCH + '::cancelEvent']
            if not n or n[0].args[0] != a:
                bad = 'the occurrences already scheduled are not cancelled; ' + path_show(p)
            if not any(e.kind == 'cont' and e.obj == al and e.name in ('remove_if', 'remove', 'erase', 'erase_if', 'clear') for e in p.events()):
                if not any(e.kind == 'iter' and e.obj == al for e in p.events()):
                    bad = 'the queued occurrences are not removed; ' + path_show(p)
        c.ob(rid, label(f), f.where(), 'bad' if bad else 'ok', bad or '%d paths' % len(ps))


def clearing(c, P, rid, r5):
    f = fn1(P, SCH + '::clearEvents')
    run_ = init(F('running_'), 'bool')
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True), facts=[('ne', run_)])
    if ps is not None:
        c.ob(rid, label(f) + ' running', f.where(), 'bad' if normals(ps) else 'ok', 'accepted while running' if normals(ps) else '%d paths refuse' % len(ps))
        refuse_clean(c, P, rid, f, ps)
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True, history=True, opaque=['sparta::ObjectAllocator::free']), facts=[('eq', run_)])
    if ps is not None:
        bad = unk = None
        fr = 0
        for p in normals(ps):
            q = I.load(p.st, F('current_tick_quantum_'), 'ptr')
            if not entails(p.st.facts, ('eq', q)):
                bad = 'the schedule is not empty on return (%s)' % show(q)
            if not entails(p.st.facts, ('eq', I.load(p.st, F('latest_continuing_event_'), 'u64'))):
                bad = 'the last continuing event is still remembered'
            if entails(p.st.facts, ('eq', I.load(p.st, F('is_finished_'), 'bool'))):
                bad = 'not marked finished'
        from loops import norm
        for info in norm(I):
            n0 = len(info['head'].events())
            ch = chases(I, info)
            if ch:
                for e in info['ends']:
                    n = [x for x in e.events()[n0:] if x.kind == 'call' and x.name == 'sparta::ObjectAllocator::free']
                    fr += len(n)
                    if len(n) != 1 or n[0].args[0] != ch[0][2]:
                        bad = 'a tick is not given back exactly once (%s, %s)' % ([ev_show(x) for x in e.events()[n0:] if x.kind not in ("enter","leave","iter")], show(ch[0][2]))
                if ch[0][1] != init(F('current_tick_quantum_'), 'ptr'):
                    bad = 'clearing does not start at the first tick'
                for x in info['exits']:
                    if not entails(x.facts, ('eq', ch[0][2])):
                        bad = 'clearing stops before the last tick'
                if info['breaks'] or info['rets']:
                    bad = 'clearing stops early'
            elif info['cont'] is not None and info['cont'][0] == 'f' and info['cont'][2] == 'groups':
                for e in info['ends']:
                    ix = info['elem']
                    v = I.load(e.copy(), fld(ix, 'current_idx_'), 'u64')
                    if not entails(e.facts, ('eq', v)):
                        bad = 'a group keeps its events'
                if info['breaks'] or info['rets']:
                    bad = 'clearing stops early'
            else:
                for e in info['ends']:
                    n = [x for x in e.events()[n0:] if x.kind in ('call', 'icall') and (x.name or '').endswith('eventCancelled_')]
                    if len(n) != 1:
                        bad = 'an event is told %d times that it was cancelled' % len(n)
        if not fr:
            unk = 'loops not recognised'
        c.ob(rid, label(f), f.where(), 'bad' if bad else 'unknown' if unk else 'ok', bad or unk or '%d paths, %d loops' % (len(ps), len(I.loopinfo)))
    f = fn1(P, SCH + '::restartAt')
    t = init(('p', f.params[0][1]), 'u64')
    for what, fs in (('before finalization', [('eq', init(F('dag_finalized_'), 'bool'))]), ('while running', [('ne', init(F('dag_finalized_'), 'bool')), ('ne', run_)])):
        I, ps = run(c, P, f, r5, Config(thiscls=f.cls, quiet_log=True), facts=fs)
        if ps is not None:
            c.ob(r5, label(f) + ' ' + what, f.where(), 'bad' if normals(ps) else 'ok', 'accepted ' + what if normals(ps) else '%d paths refuse' % len(ps))
    I, ps = run(c, P, f, r5, Config(thiscls=f.cls, quiet_log=True, opaque=[SCH + '::clearEvents']), facts=[('ne', init(F('dag_finalized_'), 'bool')), ('eq', run_)])
    if ps is not None:
        bad = None
        for p in normals(ps):
            v = I.load(p.st, F('current_tick_'), 'u64')
            n = [e for e in p.events('call') if e.name == SCH + '::clearEvents']
            if not entails(p.st.facts, eq(v, t)):
                bad = 'the current tick is %s; %s' % (show(v), path_show(p))
            if len(n) != 1:
                bad = 'events scheduled before are not cleared; ' + path_show(p)
        c.ob(r5, label(f), f.where(), 'bad' if bad else 'ok' if normals(ps) else 'bad', bad or '%d paths' % len(ps))
