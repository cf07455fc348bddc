"""K04 precedence graph."""
from lib import *
from kernel import fld, par, ptr, groups_inv, SCH
from witness import witness
from loops import norm

VX, DG = 'sparta::Vertex', 'sparta::DAG'


def stm(c, rid, f, bad, n, unk=None, tag=''):
    c.ob(rid, label(f) + tag, f.where(), 'bad' if bad else 'unknown' if unk or not n else 'ok', bad or unk or '%d paths' % n)


def names(x, p):
    """value/location x is derived from parameter p"""
    return re.search(r'arg:%s(?![A-Za-z0-9_])' % re.escape(p), show_any(x)) is not None


def K04(c):
    P = c.program('DAG.cpp', 'Vertex.cpp', 'Scheduleable.cpp')
    r1 = c.rule('edge', 'linking records the edge once on both sides, unlinking removes it from both', 2)
    r2 = c.rule('register', 'both ends of a link are known to the graph before the edge is made; precedence is refused once the graph is finalized', 3)
    r3 = c.rule('sort', 'a group number is greater than that of every predecessor, an event is placed only after all its predecessors, and a leftover (a cycle) is reported', 4)
    r4 = c.rule('finalize', 'finalizing sorts once and reports the number of groups', 1)
    r5 = c.rule('phases', 'the phases are chained in order and every event is linked between the previous phase and its own', 2)
    r6 = c.rule('operators', 'producer >> consumer makes the producer (every member of a group) precede the consumer (every member), and returns the consumer', 20)
    r7 = c.rule('witness', 'a precedence between events of different phases does not compile', 2)
    edge(c, P, r1)
    reg(c, P, r2)
    sorting(c, P, r3, r4)
    phases(c, P, r5)
    ops(c, r6)
    W = '''#include "sparta/events/Precedence.hpp"
using namespace sparta; using SP = SchedulingPhase;
template<SP p> using E = Event<p>; template<SP p> using U = UniqueEvent<p>; template<SP p> using S = SingleCycleUniqueEvent<p>; template<SP p> using L = PayloadEvent<int, p>;
'''
    kinds = 'EUSL'
    ok = [(a, b) for a in kinds for b in kinds if (a, b) not in (('E', 'S'), ('S', 'E'))]
    good = ['void g%s%s(%s<SP::Tick>& a, %s<SP::Tick>& b) { a >> b; }' % (a, b, a, b) for a, b in ok]
    bad = ['void f%s%s(%s<SP::Tick>& a, %s<SP::Update>& b) { a >> b; }' % (a, b, a, b) for a, b in ok if (a, b) not in (('E', 'U'), ('U', 'E'))]
    witness(c, r7, 'operator>> on two phases', W, good, bad)
    good = ['void g%d(Event<>& a, %s<SP::Tick>& b) { EventGroup g(a, b); }' % (i, k) for i, k in enumerate('EUL')]
    bad = ['void f%d(Event<>& a, %s<SP::Flush>& b) { EventGroup g(a, b); }' % (i, k) for i, k in enumerate('EUL')]
    bad += ['void fx%d(Event<>& a, %s& b) { EventGroup g(a, b); }' % (i, k) for i, k in enumerate(('InPort', 'OutPort', 'Bus'))]
    witness(c, r7, 'EventGroup of two phases, or with ports', W, good, bad)


def edge(c, P, rid):
    ok = hint(c, P, VX, 'outbound_edge_map_', 'outbound_edge_list_', 'num_inbound_edges_')
    em, el = F('outbound_edge_map_'), F('outbound_edge_list_')
    f = fn1(P, VX + '::link')
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True))
    if ps is not None:
        d = par(I, St(), f, 1)
        bad = None
        n0 = init(fld(at(d), 'num_inbound_edges_'), 'u32')
        for p in normals(ps):
            ins = [e for e in p.events('cont') if e.obj == em and e.name in ('insert', 'emplace', 'index', 'try_emplace', 'insert_or_assign')]
            add = [e for e in p.events('cont') if e.obj == el and re.search('push|emplace|insert', e.name)]
            n1 = I.load(p.st, fld(at(d), 'num_inbound_edges_'), 'u32')
            made = entails(p.st.facts, eq(n1, n0 + 1))
            same = entails(p.st.facts, eq(n1, n0))
            if p.ret == ZERO:
                if ins or add or not same:
                    bad = 'reports that no edge was made but changes the graph; ' + path_show(p)
                elif not entails(p.st.facts, eq(d, addr(THIS))) and not any(entails(p.st.facts, ('ne', atom(a))) for x in p.st.facts for a in x[1].atoms() if isinstance(a, tuple) and a[0] == 'has'):
                    bad = 'no edge is made although there is none yet; ' + path_show(p)
            elif len(add) != 1 or not made or not ins:
                bad = 'the edge is not recorded on both sides exactly once (%d list, %s); ' % (len(add), show(n1 - n0)) + path_show(p)
            elif not names(add[0].args, f.params[1][1]) and not any(x == d for x in add[0].args) and not names(str([show_any(a) for a in add[0].args]), f.params[1][1]):
                bad = 'links to %s' % ', '.join(show_any(x) for x in add[0].args)
            elif not any(entails(p.st.facts, ('eq', atom(a))) for x in p.st.facts for a in x[1].atoms() if isinstance(a, tuple) and a[0] == 'has'):
                bad = 'an edge that exists already is counted again; ' + path_show(p)
        stm(c, rid, f, bad, len(ps))
    f = fn1(P, VX + '::unlink')
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True))
    if ps is not None:
        bad = None
        d = par(I, St(), f, 1)
        n0 = init(fld(at(d), 'num_inbound_edges_'), 'u32')
        for p in normals(ps):
            er = [e for e in p.events('cont') if e.obj == em and e.name in ('erase', 'extract')]
            n1 = I.load(p.st, fld(at(d), 'num_inbound_edges_'), 'u32')
            if p.ret == ZERO:
                if er or not entails(p.st.facts, eq(n1, n0)):
                    bad = 'reports that nothing was removed but changes the graph; ' + path_show(p)
            elif len(er) != 1 or not entails(p.st.facts, eq(n1, n0 - 1)):
                bad = 'the edge is not removed on both sides exactly once; ' + path_show(p)
        anyel = any(e.kind == 'cont' and e.obj == el and e.name in ('erase', 'remove', 'remove_if') for p in ps for e in p.events())
        if not bad and not anyel:
            bad = 'the destination stays in the list of outgoing edges'
        stm(c, rid, f, bad, len(ps))


def reg(c, P, rid):
    f = fn1(P, DG + '::link')
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True, opaque=[VX + '::link', DG + '::detectCycle', DG + '::getCycles_']))
    if ps is not None:
        hint(c, P, DG, 'alloc_vertices_', 'early_cycle_detect_')
        bad = None
        s, d = par(I, St(), f, 0), par(I, St(), f, 1)
        for p in ps:
            ev = p.events()
            lk = [i for i, e in enumerate(ev) if e.kind == 'call' and e.name == VX + '::link']
            if not lk:
                if p.outcome == 'ret':
                    bad = 'no edge is made; ' + path_show(p)
                continue
            e = ev[lk[0]]
            if e.obj != at(s) or e.args[1] != d:
                bad = 'makes the edge %s -> %s' % (show_any(e.obj), show_any(e.args[1]))
            for v, what in ((s, 'source'), (d, 'destination')):
                vi = init(fld(at(v), 'in_dag_'), 'bool')
                push = [i for i, e in enumerate(ev) if e.kind == 'cont' and e.obj == F('alloc_vertices_') and e.name in ('push_back', 'emplace_back', 'insert') and names(str([show_any(a) for a in e.args]), f.params[0 if v == s else 1][1])]
                inn = [e for e in ev if e.kind == 'write' and e.obj == fld(at(v), 'in_dag_') and e.args[0] == ONE]
                if not push and entails(p.st.facts, ('eq', vi)) and not entails(p.st.facts, eq(s, d)):
                    bad = 'a %s that is new to the graph is not registered; %s' % (what, path_show(p))
                if len(push) > 1:
                    bad = 'the %s is registered twice; %s' % (what, path_show(p))
                if push and not inn:
                    bad = 'a registered %s is not marked as such, it will be registered again; %s' % (what, path_show(p))
            # early detection: a detected cycle is reported
            if p.outcome == 'ret':
                for i, e in enumerate(ev):
                    if e.kind == 'call' and e.name == DG + '::detectCycle' and any(x[0] in ('ne', 'eq') and 'detectCycle' in show_fact(x) and entails(p.st.facts, ('ne', Lin_of(x))) for x in p.st.facts):
                        bad = 'a detected cycle is not reported; ' + path_show(p)
        stm(c, rid, f, bad, len(ps))
    # precedes
    for f in [x for n in ('sparta::Scheduleable::precedes', VX + '::precedes') for x in P.find(n)]:
        stubs = {DG + '::isFinalized': None}
        I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True, opaque=[DG + '::link', 'sparta::DAG::CycleException::*']))
        if ps is None or not f.params:
            continue
        bad = None
        n = 0
        for p in normals(ps):
            lk = [e for e in p.events('call') if e.name == DG + '::link' or e.name in ('sparta::Scheduleable::precedes', VX + '::precedes')]
            if len(lk) != 1:
                bad = 'links %d times; %s' % (len(lk), path_show(p))
                continue
            n += 1
            a = lk[0].args
            if lk[0].name == DG + '::link':
                src = a[0] == addr(THIS) or 'this.vertex_' in show_any(a[0])
                if not src or not names(a[1], f.params[0][1]) or names(a[0], f.params[0][1]):
                    bad = 'links %s -> %s' % (show_any(a[0]), show_any(a[1]))
                if not any(entails(lk[0].facts, x) for x in lk[0].facts if 'finalized_' in show_fact(x) and x[0] == 'eq' and not x[1].c):
                    bad = 'precedence is accepted after the graph was finalized; ' + path_show(p)
        stm(c, rid, f, bad, n)


def Lin_of(x):
    return x[1]


def sorting(c, P, r3, r4):
    f = fn1(P, DG + '::sort')
    ok = hint(c, P, VX, 'outbound_edge_list_', 'sorted_num_inbound_edges_', 'pgid', 'num_inbound_edges_')
    I, ps = run(c, P, f, r3, Config(thiscls=f.cls, quiet_log=True, history=True, maxpaths=4000, maxsteps=600000,
                                    opaque=[DG + '::detectCycle', DG + '::printCycles', DG + '::getCycles_']))
    if ps is not None:
        bad = {}
        ni = nr = no = 0
        for info in norm(I):
            h = info['head']
            n0 = len(h.events())
            if info['cont'] == F('alloc_vertices_'):
                nr += 1
                w = at(I.load(h.copy(), info['elem'], 'ptr'))
                for e in info['ends']:
                    t = e.copy()
                    si, ni0, g = [I.load(t, fld(w, x), 'u32') for x in ('sorted_num_inbound_edges_', 'num_inbound_edges_', 'pgid')]
                    if not entails(e.facts, eq(si, ni0)):
                        bad['reset'] = 'sorting starts with %s predecessors still to come instead of %s' % (show(si), show(ni0))
                    if not entails(e.facts, eq(g, ONE)):
                        bad['reset'] = 'sorting starts with group %s' % show(g)
                    push = [x for x in e.events()[n0:] if x.kind == 'cont' and re.search('push|emplace|insert', x.name)]
                    if push and not entails(e.facts, ('eq', si)):
                        bad['reset'] = 'an event with predecessors is placed first'
                    if not push and not entails(e.facts, ('ne', si)):
                        bad['reset'] = 'an event without predecessors is not placed first'
                if info['breaks'] or info['rets']:
                    bad['reset'] = 'the reset is left early'
            elif info['cont'] and info['cont'][0] == 'f' and info['cont'][2] == 'outbound_edge_list_':
                ni += 1
                v = info['cont'][1]
                w = at(I.load(h.copy(), info['elem'], 'ptr'))
                gv = I.load(info['entry'].copy(), fld(v, 'pgid'), 'u32')
                gv2 = I.load(h.copy(), fld(v, 'pgid'), 'u32')
                g0 = I.load(h.copy(), fld(w, 'pgid'), 'u32')
                s0 = I.load(h.copy(), fld(w, 'sorted_num_inbound_edges_'), 'u32')
                for e in info['ends']:
                    t = e.copy()
                    g1 = I.load(t, fld(w, 'pgid'), 'u32')
                    s1 = I.load(t, fld(w, 'sorted_num_inbound_edges_'), 'u32')
                    if not (entails(e.facts, le(gv + 1, g1)) or entails(e.facts, le(gv2 + 1, g1))) or not entails(e.facts, le(g0, g1)):
                        bad['gid'] = 'a successor in group %s may end up in group %s, its predecessor is in %s' % (show(g0), show(g1), show(gv))
                    if not entails(e.facts, eq(s1, s0 - 1)):
                        bad['gid'] = 'the number of predecessors to come goes from %s to %s' % (show(s0), show(s1))
                    sch = I.load(t, fld(w, 'scheduleable_'), 'ptr')
                    if not entails(e.facts, eq(g1, g0)) and not entails(e.facts, ('eq', sch)):
                        gs = I.load(t, fld(at(sch), 'pgid_'), 'u32')
                        if not entails(e.facts, eq(gs, g1)):
                            bad['gid'] = 'the event keeps group %s although its vertex is in %s' % (show(gs), show(g1))
                    push = [x for x in e.events()[n0:] if x.kind == 'cont' and re.search('push|emplace|insert', x.name)]
                    if push and not entails(e.facts, ('eq', s1)):
                        bad['gid'] = 'an event is placed although a predecessor is still to come'
                    if len(push) != 1 and not entails(e.facts, ('ne', s1)):
                        bad['gid'] = 'an event whose last predecessor was placed is placed %d times' % len(push)
                if info['breaks'] or info['rets']:
                    bad['gid'] = 'the successors are left early'
            elif info['cont'] is None:
                pops = [[x for x in e.events()[n0:] if x.kind == 'cont' and x.name in ('pop_front', 'pop_back', 'erase')] for e in info['ends']]
                if not any(pops):
                    continue
                no += 1
                for e in info['ends']:
                    pass
                if info['breaks']:
                    bad['left'] = 'sorting stops early'
                for e in info['ends']:
                    t = e.copy()
                    ng = I.load(t, F('num_groups_'), 'u32')
                    pop = [x for x in e.events()[n0:] if x.kind == 'cont' and x.name in ('pop_front', 'pop_back', 'erase')]
                    if len(pop) != 1:
                        bad['left'] = 'one round takes %d events' % len(pop)
                    # the vertex: the one whose edges are walked / whose group is compared
                    for x in e.facts - h.facts:
                        pass
                    vs = {i['cont'][1] for i in I.loopinfo if i['cont'] and i['cont'][0] == 'f' and i['cont'][2] == 'outbound_edge_list_'}
                    gs = [I.load(t.copy(), fld(v, 'pgid'), 'u32') for v in vs]
                    if gs and not any(entails(e.facts, le(g, ng)) for g in gs):
                        bad['num'] = 'the number of groups %s may be below the group just placed' % show(ng)
        if not (ni and nr and no):
            c.unk(r3, label(f), f.where(), 'loops not recognised (%d, %d, %d)' % (ni, nr, no))
        else:
            stm(c, r3, f, bad.get('reset'), nr, tag=' start')
            stm(c, r3, f, bad.get('gid'), ni, tag=' successors')
            stm(c, r3, f, bad.get('num') or bad.get('left'), no, tag=' groups')
        b = None
        for p in normals(ps):
            # a normal return has placed every vertex
            if not any(x[0] == 'eq' for x in p.st.facts) or p.ret is not None and p.ret != ONE:
                b = 'returns %s; %s' % (show_any(p.ret), path_show(p))
        left = [i for i in I.loopinfo if i['cont'] is None and counters_dec(I, i)]
        if left:
            keys = {k for i in left for k in counters_dec(I, i)}
            for p in normals(ps):
                if not any(entails(p.st.facts, ('eq', k)) for k in keys):
                    b = 'returns although events were left over (a cycle); ' + path_show(p)
            c.ob(r3, label(f) + ' cycle', f.where(), 'bad' if b else 'ok', b or '%d normal paths, all events placed' % len(normals(ps)))
        else:
            c.unk(r3, label(f) + ' cycle', f.where(), 'count of events left not recognised')
    f = fn1(P, DG + '::finalize')
    I, ps = run(c, P, f, r4, Config(thiscls=f.cls, quiet_log=True, history=True, opaque=[DG + '::sort']))
    if ps is not None:
        bad = None
        fin = init(F('finalized_'), 'bool')
        for p in normals(ps):
            so = [e for e in p.events('call') if e.name == DG + '::sort']
            if len(so) != 1:
                bad = 'sorts %d times' % len(so)
            elif p.ret != I.load(p.st, F('num_groups_'), 'u32'):
                bad = 'reports %s groups' % show_any(p.ret)
            if not entails(p.st.facts, ('eq', fin)):
                bad = 'finalizes twice; ' + path_show(p)
            if not entails(p.st.facts, ('ne', I.load(p.st, F('finalized_'), 'bool'))):
                bad = 'is not marked finalized; ' + path_show(p)
        stm(c, r4, f, bad, len(normals(ps)))


def counters_dec(I, info):
    h = info['head']
    if not info['ends']:
        return []
    out = []
    for k in set.intersection(*[set(e.store) for e in info['ends']]):
        if root(k)[0] != 'var':
            continue
        hv = h.store.get(k)
        if hv is None:
            hv = I.load(h.copy(), k)
        if not isinstance(hv, Lin):
            continue
        if all(isinstance(e.store[k], Lin) and e.store[k] == hv - 1 for e in info['ends']):
            out += [hv, hv - 1, info['entry'].store.get(k, hv)]
    return out


PH = ['Trigger', 'Update', 'PortUpdate', 'Flush', 'Collection', 'Tick', 'PostTick']


def phases(c, P, rid):
    f = fn1(P, DG + '::initializeDAG_')

    txt = {}
    I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True, watch=arg_texts(txt), opaque=[DG + '::link', DG + '::newGOPVertex', DG + '::getGOPoint']))
    if ps is not None and normals(ps):
        bad = None
        n = 0
        for p in normals(ps):
            made = {}
            order = []
            for e in p.events('call'):
                if e.name in (DG + '::newGOPVertex', DG + '::getGOPoint'):
                    s = [x for x in txt[id(e)][1] if x in PH]
                    order.append(s[0] if len(s) == 1 else None)
            lk = [(show_any(e.args[0]), show_any(e.args[1])) for e in p.events('call') if e.name == DG + '::link']
            if None in order or len(order) != 7:
                n = 0
                break
            n += 1
            names_ = {}
            # results are numbered in call order
            res = []
            for a, b in lk:
                for x in (a, b):
                    if x not in res:
                        res.append(x)
            ids = sorted(res, key=lambda s: [int(z) for z in re.findall(r'\d+', s)])
            if len(ids) != 7:
                bad = 'the phases are chained by %d links over %d phases' % (len(lk), len(ids))
                continue
            nm = dict(zip(ids, order))
            got = {(nm[a], nm[b]) for a, b in lk}
            miss = [(a, b) for a, b in zip(PH, PH[1:]) if (a, b) not in got]
            if miss:
                bad = 'no link %s -> %s' % miss[0]
            if any(PH.index(a) >= PH.index(b) for a, b in got):
                bad = 'phases linked against their order'
        stm(c, rid, f, bad, n, unk=None if n else 'phase creation not recognised')
    elif ps is not None:
        c.unk(rid, label(f), f.where(), 'no normal path')
    e = [x for x in P.enums if x.endswith('SchedulingPhase')]
    vals = {}
    for x in e:
        for it in P.enums[x].get('values', P.enums[x].get('items', [])):
            vals[it[0] if isinstance(it, (list, tuple)) else it] = it[1] if isinstance(it, (list, tuple)) else None
    f = fn1(P, 'sparta::Scheduleable::setupDummyPrecedence_ThisMethodToGoAwayOnceDaveAddsPhaseSupportToDAG') if P.find('sparta::Scheduleable::setupDummyPrecedence_ThisMethodToGoAwayOnceDaveAddsPhaseSupportToDAG') else None
    if f is None:
        c.unk(rid, 'setupDummyPrecedence', 'sparta/src/Scheduleable.cpp', 'not found')
        return
    bad = None
    k = 0
    for i, ph in enumerate(PH):
        st = St()
        st.store[F('sched_phase_')] = const(vals.get(ph, i))
        I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True, watch=arg_texts(txt), opaque=[DG + '::link', DG + '::getGOPoint', 'sparta::Scheduleable::precedes']), st=st)
        if ps is None:
            return
        for p in normals(ps):
            n = dict()
            ev = p.events('call')
            if not any(e.name in (DG + '::link', 'sparta::Scheduleable::precedes') for e in ev):
                if not any('finalized' in show_fact(x) for x in p.st.facts):
                    bad = 'an event of phase %s is not tied to its phase; %s' % (ph, path_show(p))
                continue
            k += 1
            last = []
            before_, after = [], []
            res = {}
            for e in ev:
                if e.name == DG + '::getGOPoint':
                    s = [x for x in txt[id(e)][1] if x in PH]
                    last.append(s[0] if s else '?')
                elif e.name == DG + '::link':
                    if 'this.vertex_' in show_any(e.args[1]) and 'getGOPoint' in show_any(e.args[0]):
                        before_ += last
                    elif 'this.vertex_' in show_any(e.args[0]) and 'getGOPoint' in show_any(e.args[1]):
                        after += last
                    last = []
                elif e.name == 'sparta::Scheduleable::precedes':
                    after += last
                    last = []
            want = [PH[i - 1]] if i else []
            if before_ != want or after != [ph]:
                bad = 'an event of phase %s is placed after %s and before the end of %s' % (ph, before_, after)
    stm(c, rid, f, bad, k)


OPAQUE = ['sparta::Scheduleable::precedes', VX + '::precedes', 'sparta::Port::register*', 'sparta::InPort::register*', 'sparta::OutPort::register*', 'sparta::operator>>',
          'sparta::Bus::inportsPrecede', 'sparta::Bus::outportsSucceed']


def ops(c, rid):
    P = c.program('inst/dag.cpp')
    n = 0
    for f in P.find('sparta::operator>>') + P.find('sparta::Bus::inportsPrecede') + P.find('sparta::Bus::outportsSucceed') + P.find('sparta::PhasedSingleCycleUniqueEvent::precedes'):
        if 'basic_' in f.sig or 'std::istream' in f.sig:
            continue
        op = f.short == 'operator>>'
        oq = [o for o in OPAQUE if o != f.name or op]
        I, ps = run(c, P, f, rid, Config(thiscls=f.cls, quiet_log=True, history=True, opaque=oq))
        if ps is None:
            continue
        n += 1
        prod = f.params[0][1] if op else None
        cons = f.params[1][1] if op else f.params[0][1]
        bad = None
        loops = {}
        for info in norm(I):
            if info['cont'] is None:
                continue
            if info['breaks'] or [r for r in info['rets'] if r[0] == 'ret']:
                bad = 'not every member is covered'
            h = info['head']
            for e in info['ends']:
                cl = [x for x in e.events()[len(h.events()):] if x.kind == 'call' and any(match(o, x.name) for o in oq)]
                sub = any(i is not info and i['cont'] is not None and i['head'].events()[:len(h.events())] == h.events() for i in I.loopinfo)
                if len(cl) == 0 and not sub:
                    bad = 'a member gets no precedence'
        looped = any(i['cont'] is not None for i in I.loopinfo)
        if I.loopinfo and not looped:
            c.unk(rid, label(f), f.where(), 'loop not recognised')
            continue
        seen = 0
        for p in normals(ps):
            cl = [x for x in p.events('call') if any(match(o, x.name) for o in oq)]
            if not cl and not looped:
                bad = 'no precedence is set; ' + path_show(p)
            for x in cl:
                seen += 1
                a = (x.obj, ) + tuple(x.args) if x.obj is not None else tuple(x.args)
                if len(a) < 2:
                    continue
                A, B = show_any(a[0]), show_any(a[1])
                swap = 'outportsSucceed' in x.name or 'register' in x.name or 'Precede' in x.name
                if not op:
                    if 'register' in x.name:
                        if names(a[0], cons) or not names(a[1], cons):
                            bad = 'registers %s with %s' % (B, A)
                        if f.short == 'inportsPrecede' and not x.name.endswith('registerConsumerEvent') or f.short == 'outportsSucceed' and not x.name.endswith('registerProducingEvent'):
                            bad = 'calls %s' % x.name
                    elif names(a[0], cons) or not names(a[1], cons):
                        bad = '%s precedes %s' % (A, B)
                elif x.name.endswith('registerConsumerEvent') or x.name.endswith('inportsPrecede'):
                    if not names(a[0], prod) or not names(a[1], cons):
                        bad = '%s: %s, %s' % (x.name, A, B)
                elif x.name.endswith('registerProducingEvent') or x.name.endswith('outportsSucceed'):
                    if not names(a[0], cons) or not names(a[1], prod):
                        bad = '%s: %s, %s' % (x.name, A, B)
                elif not names(a[0], prod) or not names(a[1], cons) or names(a[0], cons):
                    bad = '%s precedes %s' % (A, B)
            if op and p.ret is not None and not names(p.ret, cons):
                bad = 'returns %s instead of the consumer' % show_any(p.ret)
        if op and 'EventGroup,&c R:sparta::EventGroup' in f.sig or f.sig.count('R:sparta::Scheduleable') == 2:
            th = throws(ps)
            if not any('sched_phase_' in show_fact(x) for p in th for x in p.st.facts):
                bad = bad or 'two different phases are accepted'
        stm(c, rid, f, bad, seen)


def match(o, n):
    return n == o or o.endswith('*') and n.startswith(o[:-1])
