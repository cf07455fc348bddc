"""C01 loading a checkpoint restores what it captured; C02 no needed checkpoint is erased."""
from lib import *
from kernel import fld, par, counters
from dag import stm, names
from events import cfg, calls, refloc
from loops import norm
from interp import at, addr, neg
from terms import atom_key
from functional import evs_since, is_fld, AD
from memory import iff, truth

NS = 'sparta::serialization::checkpoint::'
DC, FC, CK, BC, CKR = (NS + x for x in ('DeltaCheckpoint', 'FastCheckpointer', 'Checkpoint', 'CheckpointBase', 'Checkpointer'))
U64MAX = (1 << 64) - 1
GETQ = ['canDelete', 'recursForwardFindAlive_', 'getDistanceToPrevSnapshot', 'cleanupChain_', 'load', 'getRestoreChain', 'loadState', 'prepareForLoad', 'good', 'stringize']


def getter(c, P, cls, nm):
    """the member a getter returns"""
    f = fns(P, cls + '::' + nm)[0]
    try:
        I = Interp(P, cfg(f))
        I.cfg.thiscls = f.cls
        for o, s, v in I.observe(f, St()):
            k = v.single() if isinstance(v, Lin) else None
            if o == 'ret' and isinstance(k, tuple) and k[0] == 'ld' and k[1][0] == 'f' and k[1][1] == ('this',):
                return k[1][2]
    except Unknown:
        pass
    return None


class Names:
    def __init__(self, c, P):
        self.snap = getter(c, P, DC, 'isSnapshot')
        self.prev = getter(c, P, CK, 'getPrev')
        self.id = getter(c, P, BC, 'getID')
        self.tick = getter(c, P, BC, 'getTick')
        self.delid = getter(c, P, DC, 'getDeletedID')
        self.ok = all((self.snap, self.prev, self.id, self.tick, self.delid))

    def get(self, I, s, obj, nm, ty='u64'):
        return I.load(s.copy(), ('f', obj, nm), ty)


def both(c, P, rid, qual, need=1):
    return fns(P, qual, need=need)


def C01(c):
    P = c.program('inst/mem.cpp')
    N = Names(c, P)
    r1 = c.rule('store', 'a checkpoint stores every ArchData, in order: everything for a snapshot, what changed otherwise; the first one is a snapshot; it is known to its predecessor', 2)
    r2 = c.rule('chain', 'what has to be restored is this checkpoint and its predecessors back to a snapshot', 2)
    r3 = c.rule('load', 'loading restores every link of that chain, the oldest first', 2)
    r4 = c.rule('restore', 'each link restores every ArchData, in the order stored and the way it was stored', 2)
    r5 = c.rule('switch', 'loading an unknown id is refused without effect; otherwise the data is restored, the checkpoint becomes the current one and the scheduler restarts at its tick', 1)
    r6 = c.rule('create', 'a new checkpoint follows the current one, under a new id, at the current tick, becomes the current one, and is a snapshot when forced or when the threshold is reached', 2)
    for f in fns(P, DC + '::DeltaCheckpoint'):
        if len(f.params) == 5:
            storing(c, P, r1, f, N)
    for f in fns(P, DC + '::getRestoreChain'):
        chain(c, P, r2, f, N)
    for f in fns(P, DC + '::load'):
        loading(c, P, r3, f, N)
    for f in fns(P, DC + '::loadState'):
        linkload(c, P, r4, f, N)
    switching(c, P, r5, N)
    creating(c, P, r6, N)


def each_dat(I, pn, want, at_=None):
    """the loops over the ArchDatas: every one of them is asked exactly once for want(entry facts); (bad, unk, loops)"""
    bad = unk = None
    ls = [i for i in I.loopinfo if any(e.kind == 'call' and e.name.startswith(AD + '::') and e.name.rsplit('::', 1)[-1] in ('save', 'saveAll', 'restore', 'restoreAll') for s in i['ends'] + i['breaks'] for e in evs_since(s, i['head']))
          or i['cont'] == ('p', pn)]
    for i in ls:
        if i['cont'] != ('p', pn) or i['elem'] is None:
            unk = 'the walk over the ArchDatas'
            continue
        if i['breaks'] or i['rets']:
            bad = 'stops before the last ArchData'
        for s in i['ends']:
            cl = [e for e in evs_since(s, i['head']) if e.kind == 'call' and e.name.startswith(AD + '::')]
            w = want(s)
            if w is None:
                unk = 'which kind of checkpoint'
                continue
            ob = at(s.store.get(i['elem']) or I.load(s.copy(), i['elem']))
            if not cl:
                bad = 'an ArchData is left out; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
            elif len(cl) > 1:
                bad = 'an ArchData is handled twice: %s' % [ev_show(e) for e in cl]
            elif cl[0].name.rsplit('::', 1)[-1] != w:
                bad = '%s where %s is due' % (cl[0].name.rsplit('::', 1)[-1], w)
            elif cl[0].obj != ob and cl[0].obj != at(I.load(s.copy(), i['elem'])):
                unk = 'object %s' % show_loc(cl[0].obj)
            else:
                a = cl[0].args[0] if cl[0].args else None
                if not (isinstance(a, tuple) and a[0] in ('REF', 'R') and a[1][0] == 'f' and a[1][1] == ('this',)):
                    unk = 'storage %s' % show_any(a)
    return bad, unk, ls


def storing(c, P, rid, f, N):
    I, ps = run(c, P, f, rid, cfg(f, opaque=['saveAll', 'save', 'addNext', 'good']))
    if ps is None:
        return
    norm(I)
    pd, pid, ptick, pprev, psnap = (x[1] for x in f.params)
    sn, pv = par(I, St(), f, 4), par(I, St(), f, 3)

    def kind(s):
        return 'saveAll' if entails(s.facts, ne(sn, ZERO)) else 'save' if entails(s.facts, eq(sn, ZERO)) else None
    bad, unk, ls = each_dat(I, pd, kind)
    n = 0
    if not N.ok:
        unk = 'getters'
    for p in normals(ps):
        n += 1
        if not entails(p.st.facts, ne(sn, ZERO)) and not entails(p.st.facts, ne(pv, ZERO)):
            bad = 'a checkpoint without predecessor need not be a snapshot; ' + path_show(p)[:200]
        cl = [e for e in p.events('call')]
        if not [e for e in cl if e.name.rsplit('::', 1)[-1] in ('saveAll', 'save')]:
            if not entails(p.st.facts, eq(I.load(p.st.copy(), ('f', ('p', pd), '$size'), 'u64'), ZERO)):
                bad = 'nothing is stored; ' + path_show(p)[:200]
        an = [e for e in cl if e.name.rsplit('::', 1)[-1] == 'addNext']
        if entails(p.st.facts, ne(pv, ZERO)):
            if len(an) != 1:
                bad = 'the predecessor is told %d times; %s' % (len(an), path_show(p)[:200])
            elif an[0].obj != at(pv) or 'this' not in show_any(an[0].args[0]):
                unk = 'addNext: %s' % ev_show(an[0])
        elif an and entails(p.st.facts, eq(pv, ZERO)):
            unk = 'addNext: %s' % ev_show(an[0])
        if N.ok:
            for nm, a in ((N.id, 1), (N.tick, 2), (N.prev, 3), (N.snap, 4)):
                v = p.st.store.get(('f', ('this',), nm))
                if v is None:
                    bad = '%s is not set' % nm
                elif v != par(I, St(), f, a):
                    w = verdict(p.st.facts, eq(v, par(I, St(), f, a)))
                    if w != 'ok':
                        bad, unk = (bad or '%s becomes %s' % (nm, show_any(v)), unk) if w == 'bad' else (bad, '%s becomes %s' % (nm, show_any(v)))
    stm(c, rid, f, bad, n, unk, '')


def cursor(I, info, X):
    """(variable, value at entry) of the loop variable whose value at the head is X"""
    h = info['head']
    for k in set().union(*[set(e.store) for e in info['ends']] or [set()]):
        if k[0] != 'var':
            continue
        hv = h.store.get(k)
        if hv is None:
            hv = I.load(h.copy(), k)
        if hv == X:
            return k, info['entry'].store.get(k)
    return None, None


def chain(c, P, rid, f, N):
    I, ps = run(c, P, f, rid, cfg(f))
    if ps is None:
        return
    norm(I)
    bad = unk = None
    n = 0
    ls = [i for i in I.loopinfo if any(e.kind == 'cont' and e.name in ('push', 'push_back') for s in i['ends'] + i['breaks'] for e in evs_since(s, i['head']))]
    if len(ls) != 1 or not N.ok:
        unk = '%d loops' % len(ls)
        ls = []
    for i in ls:
        for s in i['ends'] + i['breaks'] + i['exits']:
            n += 1
            pu = [e for e in evs_since(s, i['head']) if e.kind == 'cont' and e.name in ('push', 'push_back')]
            leaving = s not in i['ends']
            if not pu:
                if leaving:
                    unk = 'leaves before adding'
                else:
                    bad = 'a link is left out; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
                continue
            X = pu[0].args[0]
            X = X[2] if isinstance(X, tuple) and len(X) > 2 else X
            if not isinstance(X, Lin):
                unk = 'pushes %s' % show_any(X)
                continue
            k, e0 = cursor(I, i, X)
            if k is None:
                unk = 'pushes %s' % show_any(X)
                continue
            if e0 != addr(('this',)) and e0 != I.load(I_this(I), k):
                if not (isinstance(e0, Lin) and 'this' in show_any(e0) and e0.single() is not None and e0.single()[0] in ('addr', '&')):
                    unk = 'starts at %s' % show_any(e0)
            sv = N.get(I, s, at(X), N.snap, 'bool')
            pv = N.get(I, s, at(X), N.prev)
            if leaving:
                if not entails(s.facts, ne(sv, ZERO)) and not entails(s.facts, eq(pv, ZERO)):
                    bad = 'stops at a link that need not be a snapshot; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
            else:
                nv = s.store.get(k)
                if nv != pv and not (isinstance(nv, Lin) and entails(s.facts, eq(nv, pv))):
                    if isinstance(nv, Lin) and all(names_ld(a) for a in nv.atoms()):
                        bad = 'goes on with %s' % show_any(nv)
                    else:
                        unk = 'goes on with %s' % show_any(nv)
    stm(c, rid, f, bad, n, unk, '')


def I_this(I):
    return St()


def names_ld(a):
    return isinstance(a, tuple) and a[0] == 'ld' and a[1][0] == 'f'


def loading(c, P, rid, f, N):
    I, ps = run(c, P, f, rid, cfg(f, opaque=['getRestoreChain', 'loadState']))
    if ps is None:
        return
    norm(I)
    bad = unk = None
    n = 0
    fp = f.params[0][1]
    if not any(e.name.endswith('::getRestoreChain') for p in normals(ps) for e in p.events('call')):
        unk = 'the chain'
    ls = [i for i in I.loopinfo if any(e.kind == 'cont' and e.name in ('pop', 'pop_back', 'pop_front') for s in i['ends'] + i['breaks'] + i['exits'] for e in evs_since(s, i['head']))]
    if len(ls) != 1:
        unk = '%d loops' % len(ls)
        ls = []
    for i in ls:
        D = None
        for s in i['ends'] + i['breaks']:
            n += 1
            ev = evs_since(s, i['head'])
            po = [e for e in ev if e.kind == 'cont' and e.name == 'pop']
            ld = [e for e in ev if e.kind == 'call' and e.name.endswith('::loadState')]
            if len(po) != 1:
                unk = '%d pops' % len(po)
                continue
            D = po[0].obj
            if not ld:
                bad = 'a link is not restored; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
            elif len(ld) > 1:
                unk = '%d restores' % len(ld)
            elif ('(%s[' % show_loc(D)) not in show_loc(ld[0].obj):
                bad = 'restores %s' % show_loc(ld[0].obj)
            elif not refloc(f, 0) or show_any(refl(ld[0].args[0])) != show_any(('REF', ('p', fp)))[:0] + show_any(refl(ld[0].args[0])):
                unk = 'arguments'
        if D is None:
            continue
        for s in i['exits'] + i['breaks']:
            z = I.load(s.copy(), ('f', D, '$size'), 'u64')
            if not entails(s.facts, eq(z, ZERO)):
                w = 'stops before the chain is restored; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
                bad = bad or w
        for s in i['rets']:
            bad = bad or 'returns before the chain is restored'
    stm(c, rid, f, bad, n, unk, '')


def refl(a):
    return a


def linkload(c, P, rid, f, N):
    I, ps = run(c, P, f, rid, cfg(f, opaque=['restore', 'restoreAll', 'prepareForLoad', 'good']))
    if ps is None:
        return
    norm(I)
    fp = f.params[0][1]

    def kind(s):
        v = N.get(I, s, ('this',), N.snap, 'bool')
        return 'restoreAll' if entails(s.facts, ne(v, ZERO)) else 'restore' if entails(s.facts, eq(v, ZERO)) else None
    if not N.ok:
        stm(c, rid, f, None, 0, 'getters', '')
        return
    bad, unk, ls = each_dat(I, fp, kind)
    n = 0
    for p in normals(ps):
        n += 1
        cl = p.events('call')
        rs = [k for k, e in enumerate(cl) if e.name.startswith(AD + '::')]
        pr = [k for k, e in enumerate(cl) if e.name.endswith('::prepareForLoad')]
        if not rs and not entails(p.st.facts, eq(I.load(p.st.copy(), ('f', ('p', fp), '$size'), 'u64'), ZERO)):
            bad = 'nothing is restored; ' + path_show(p)[:200]
        if rs and (not pr or pr[0] > rs[0]):
            bad = 'the storage is not rewound first; ' + path_show(p)[:200]
    stm(c, rid, f, bad, n, unk, '')


def found(I, p, f):
    """the checkpoint looked up by the id in argument 0: (fact it is known, its address)"""
    a = par_key(f, 0)
    has = kv = None
    for x in p.st.facts:
        for k in x[1].atoms():
            if isinstance(k, tuple) and k[0] == 'has' and show_any(a) in show_any(atom(k)):
                has = x
            if isinstance(k, tuple) and k[0] == 'ld' and 'kv' in show_any(atom(k)) and k[1][0] == 'f' and k[1][2] == 'second':
                kv = atom(k, 'u64')
    return has, kv


def par_key(f, i):
    return atom(('arg', f.params[i][1]), f.params[i][2])


def switching(c, P, rid, N):
    f = fn1(P, FC + '::loadCheckpoint')
    I, ps = run(c, P, f, rid, cfg(f, opaque=['load', 'cleanupChain_', 'getArchDatas', 'restartAt']))
    if ps is None:
        return
    bad = unk = None
    ok = hint(c, P, FC, 'current_', 'sched_', 'chkpts_') and N.ok
    cur = F('current_')
    n = 0
    for p in ps:
        n += 1
        has, kv = found(I, p, f)
        if p.outcome == 'throw':
            if any(is_effect(e) for e in p.events()):
                bad = 'refused after an effect; ' + path_show(p)[:300]
            if has is None:
                unk = 'what is refused'
            elif not (has[0] == 'eq' and entails(p.st.facts, eq(atom([k for k in has[1].atoms() if k[0] == 'has'][0], 'bool'), ZERO))) and not (kv is not None and entails(p.st.facts, eq(kv, ZERO))):
                bad = 'refused although the checkpoint exists; ' + path_show(p)[:300]
            continue
        if p.outcome != 'ret':
            continue
        ev = p.events()
        ld = [k for k, e in enumerate(ev) if e.kind == 'call' and e.name in (DC + '::load', CK + '::load', BC + '::load')]
        if kv is None or not ok:
            unk = 'which checkpoint'
            if not ld:
                bad = 'nothing is loaded; ' + path_show(p)[:300]
            continue
        if len(ld) != 1:
            bad = 'loaded %d times; %s' % (len(ld), path_show(p)[:300])
            continue
        if ev[ld[0]].obj != at(kv):
            bad = 'loads %s' % show_loc(ev[ld[0]].obj)
        cv = I.load(p.st.copy(), cur, 'u64')
        cw = [k for k, e in enumerate(ev) if e.kind == 'write' and e.obj == cur]
        if not entails(p.st.facts, eq(cv, kv)):
            bad = 'the current checkpoint becomes %s; %s' % (show_any(cv), path_show(p)[:300])
        sc = init(F('sched_'))
        rs = [k for k, e in enumerate(ev) if e.kind == 'call' and e.name.endswith('::restartAt')]
        tv = N.get(I, p.st, at(kv), N.tick)
        if entails(p.st.facts, ne(sc, ZERO)):
            if len(rs) != 1:
                bad = 'the scheduler is restarted %d times; %s' % (len(rs), path_show(p)[:300])
            else:
                a = ev[rs[0]].args[0]
                if not is_fld(a.single() if isinstance(a, Lin) else None, at(kv), N.tick):
                    bad = 'the scheduler restarts at %s' % show_any(a)
        elif not entails(p.st.facts, eq(sc, ZERO)) and not rs:
            bad = 'the scheduler is not restarted; ' + path_show(p)[:300]
        cl = [k for k, e in enumerate(ev) if e.kind == 'call' and e.name.endswith('::cleanupChain_')]
        for k in cl:
            if cw and k < cw[-1]:
                bad = 'checkpoints are erased before the loaded one is the current one'
            elif k < ld[0]:
                bad = 'checkpoints are erased before loading'
    stm(c, rid, f, bad, n, unk, '')


def creating(c, P, rid, N):
    for nm in ('createHead_', 'createCheckpoint_'):
        f = fn1(P, FC + '::' + nm)
        I, ps = run(c, P, f, rid, cfg(f, opaque=['DeltaCheckpoint', 'cleanupChain_', 'getDistanceToPrevSnapshot', 'getCurrentTick', 'getTick', 'getID', 'isSnapshot', 'isFinalized', 'getArchDatas', 'getLocation'], pure=['getID', 'getTick', 'isSnapshot']))
        if ps is None:
            continue
        bad = unk = None
        ok = hint(c, P, FC, 'current_', 'head_', 'sched_', 'chkpts_', 'next_chkpt_id_')
        if not ok:
            stm(c, rid, f, None, 0, 'members', '')
            continue
        n = 0
        cu, hd, nx, sch = (init(F(x)) for x in ('current_', 'head_', 'next_chkpt_id_', 'sched_'))
        for p in ps:
            if p.outcome != 'ret':
                continue
            n += 1
            ev = p.events()
            fs = p.st.facts
            ct = [k for k, e in enumerate(ev) if e.kind == 'ctor' and e.name == DC and len(e.args) == 5]
            if len(ct) != 1:
                bad = '%d checkpoints are made; %s' % (len(ct), path_show(p)[:300])
                continue
            e = ev[ct[0]]
            dats, i, t, pv, sn = e.args
            me = addr(e.obj)
            if i != nx:
                bad = 'the id is %s' % show_any(i)
            if not entails(fs, eq(I.load(p.st.copy(), F('next_chkpt_id_'), 'u64'), nx + ONE)):
                bad = 'the next id becomes %s' % show_any(I.load(p.st.copy(), F('next_chkpt_id_'), 'u64'))
            if I.load(p.st.copy(), F('current_'), 'u64') != me:
                bad = 'the new checkpoint is not the current one; ' + path_show(p)[:300]
            if entails(fs, ne(sch, ZERO)):
                k = t.single() if isinstance(t, Lin) else None
                if not (isinstance(k, tuple) and k[0] == 'call' and k[1].endswith('::getCurrentTick')) and not is_fld(k, at(sch), 'current_tick_'):
                    if isinstance(t, Lin) and (t.is_const() or is_fld(k, None, None)):
                        bad = 'the tick is %s' % show_any(t)
                    else:
                        unk = 'the tick is %s' % show_any(t)
            st = [x for x in ev[ct[0]:] if x.kind in ('cont', 'write') and x.obj is not None and has_prefix_(x.obj, F('chkpts_'))]
            if not st:
                bad = 'the checkpoint is not kept; ' + path_show(p)[:300]
            if nm == 'createHead_':
                if I.load(p.st.copy(), F('head_'), 'u64') != me:
                    bad = 'the head is not set; ' + path_show(p)[:300]
                if pv != ZERO:
                    bad = 'the head has a predecessor'
                if sn != ONE:
                    bad = 'the head is not a snapshot'
            else:
                want = hd if entails(fs, eq(cu, ZERO)) else cu if entails(fs, ne(cu, ZERO)) else None
                if want is None:
                    unk = 'whether there is a current checkpoint'
                elif pv != want:
                    if isinstance(pv, Lin) and (pv.is_const() or stable(pv)):
                        bad = 'follows %s; %s' % (show_any(pv), path_show(p)[:200])
                    else:
                        unk = 'follows %s' % show_any(pv)
                force = par(I, St(), f, 0)
                dist = [x for x in ev if x.kind == 'call' and x.name.endswith('::getDistanceToPrevSnapshot')]
                due = entails(fs, ne(force, ZERO))
                if dist and has_field(P, FC, 'snap_thresh_'):
                    dv = atom(dist[-1].key, 'u64')
                    th = init(F('snap_thresh_'))
                    due = due or entails(fs, le(th, dv))
                    if dist[-1].obj != at(cu):
                        unk = 'distance of %s' % show_loc(dist[-1].obj)
                if isinstance(sn, Lin) and not due and not entails(fs, ne(sn, ZERO)):
                    # a delta: it must be known that neither holds
                    if not entails(fs, eq(force, ZERO)) and not entails(p.st.facts, ('eq', force)):
                        bad = 'no snapshot although one may be forced; ' + path_show(p)[:200]
                    elif dist and has_field(P, FC, 'snap_thresh_') and not entails(fs, lt(dv, th)):
                        w = verdict(fs, lt(dv, th))
                        bad = bad or 'no snapshot although the threshold may be reached; ' + path_show(p)[:200]
                    elif not dist and entails(fs, ne(cu, ZERO)):
                        bad = 'the distance to the last snapshot is not looked at'
                elif due and not entails(fs, ne(sn, ZERO)) and sn != ONE:
                    bad = 'no snapshot although one is due; ' + path_show(p)[:200]
                for k, x in enumerate(ev):
                    if x.kind == 'call' and x.name.endswith('::cleanupChain_'):
                        cw = [j for j, y in enumerate(ev) if y.kind == 'write' and y.obj == F('current_')]
                        if cw and k < cw[-1]:
                            bad = 'checkpoints are erased before the new one is the current one'
                r = p.ret
                if isinstance(r, Lin) and r != nx:
                    k = r.single()
                    if not (isinstance(k, tuple) and k[0] == 'call' and k[1].endswith('::getID') and k[2] == e.obj):
                        bad = 'returns %s' % show_any(r)
        if nm == 'createHead_':
            norm(I)
            if not any(i['cont'] == F('roots_') and (i['rets'] or any(p.outcome == 'throw' for p in ps)) for i in I.loopinfo):
                unk = unk or 'the check that the tree is finalized'
        stm(c, rid, f, bad, n, unk, '')


def has_prefix_(l, pre):
    while isinstance(l, tuple) and l:
        if l == pre:
            return True
        if l[0] in ('f', 'i', 'kv'):
            l = l[1]
        elif l[0] == 'at':
            return show_loc(pre) in show_loc(l)
        else:
            return False
    return False


def C02(c):
    P = c.program('inst/mem.cpp')
    N = Names(c, P)
    r1 = c.rule('erase', 'a checkpoint is erased only when it is neither the head nor the current one, may be deleted, and nothing after it needs it; the dead count follows', 1)
    r2 = c.rule('may', 'a checkpoint may be deleted only if it was deleted and so was everything that follows it up to the next snapshots', 2)
    r3 = c.rule('needed', 'nothing needs a checkpoint only if every follower is a snapshot, or is deleted, not the current one and itself not needed', 1)
    r4 = c.rule('delete', 'deleting an unknown id is refused without effect; a live checkpoint is counted once as dead instead of live', 1)
    r5 = c.rule('unlink', 'an erased checkpoint leaves the chain: its predecessor drops it and its followers follow the predecessor', 3)
    r6 = c.rule('list', 'listings show the live checkpoints that fit and no other', 3)
    erasing(c, P, r1, N)
    for f in fns(P, DC + '::canDelete'):
        may(c, P, r2, f, N)
    needed(c, P, r3, N)
    deleting(c, P, r4, N)
    unlinking(c, P, r5, N)
    listing(c, P, r6, N)


def erased(e):
    """the checkpoint (address) whose id the entry erased from the map was looked up with"""
    best = None
    if e.args and isinstance(e.args[0], Lin):
        k = e.args[0].single()
        return k[1][1][1] if is_fld(k, None, None) and k[1][1][0] == 'at' else None
    if len(e.args) > 1:
        return None
    for x in e.facts or ():
        if x[0] == 'ne':
            for k in x[1].atoms():
                if isinstance(k, tuple) and k[0] == 'found':
                    for y in k[1:]:
                        y = y.single() if isinstance(y, Lin) else y
                        y = atom_key(y) if isinstance(y, int) else y
                        if isinstance(y, tuple) and y and y[0] == 'ld' and y[1][0] == 'f' and y[1][1][0] == 'at':
                            best = y[1][1][1]
    return best


def erasing(c, P, rid, N):
    ok = hint(c, P, FC, 'current_', 'head_', 'chkpts_')
    fs = P.find(FC + '::cleanupChain_') or [fn1(P, FC + '::deleteCheckpoint')]
    f = fs[0]
    helper = P.find(FC + '::recursForwardFindAlive_')
    I, ps = run(c, P, f, rid, cfg(f, opaque=['canDelete', 'recursForwardFindAlive_']))
    if ps is None:
        return
    norm(I)
    bad = unk = None
    n = 0
    hd, cu = init(F('head_')), init(F('current_'))
    dead = has_field(P, FC, 'num_dead_checkpoints_')
    seen = set()
    states = [(s, i['head']) for i in I.loopinfo for s in i['ends'] + i['breaks'] + [r[1] for r in i['rets']]]
    for s, h in states:
        er = [e for e in evs_since(s, h) if e.kind == 'cont' and e.obj == F('chkpts_') and e.name in ('erase', 'clear', 'extract')]
        if dead:
            n += 1
            a = I.load(s.copy(), F('num_dead_checkpoints_'), 'u32')
            b = I.load(h.copy(), F('num_dead_checkpoints_'), 'u32')
            d = a - b if isinstance(a, Lin) and isinstance(b, Lin) else None
            if d is not None and d.is_const() and d.c != -len(er):
                bad = bad or 'the dead count changes by %d where %d are erased' % (d.c, len(er))
    for e in [e for s, h in states for e in evs_since(s, h)] + [e for p in normals(ps) for e in p.events()]:
        if e.kind != 'cont' or e.obj != F('chkpts_') or e.name not in ('erase', 'clear', 'extract') or id(e) in seen:
            continue
        seen.add(id(e))
        n += 1
        X = erased(e)
        if X is None or not ok:
            unk = unk or 'which checkpoint is erased'
            continue
        cd = [a for x in e.facts for a in x[1].atoms() if isinstance(a, tuple) and a[0] == 'call' and a[1].endswith('::canDelete') and a[2] == at(X)]
        rf = [a for x in e.facts for a in x[1].atoms() if isinstance(a, tuple) and a[0] == 'call' and a[1].endswith('::recursForwardFindAlive_') and show_any(X) in show_any(atom(a))]
        show = '; '.join(sorted(show_fact(x) for x in e.facts))[:300]
        if not entails(e.facts, ne(X, hd)):
            bad = 'the head may be erased; ' + show
        elif not entails(e.facts, ne(X, cu)):
            bad = 'the current checkpoint may be erased; ' + show
        elif not any(entails(e.facts, ne(atom(a, 'bool'), ZERO)) for a in cd):
            if cd or P.find(DC + '::canDelete'):
                bad = 'a checkpoint that may not be deleted is erased; ' + show
        elif not any(entails(e.facts, eq(atom(a, 'bool'), ZERO)) for a in rf):
            if helper:
                bad = 'a checkpoint that may be needed is erased; ' + show
            else:
                unk = 'whether it is needed'
    stm(c, rid, f, bad, n, unk, '')


def may(c, P, rid, f, N):
    I, ps = run(c, P, f, rid, cfg(f, opaque=['canDelete', 'getNexts']))
    if ps is None:
        return
    norm(I)
    bad = unk = None
    n = 0
    if not N.ok:
        unk = 'getters'
        ps = []
    me = init(F(N.id)) if N.ok else None
    loop = [i for i in I.loopinfo if i['elem'] is not None]
    for p in ps:
        if p.outcome != 'ret':
            continue
        n += 1
        if p.ret == ZERO or isinstance(p.ret, Lin) and entails(p.st.facts, eq(p.ret, ZERO)):
            continue
        if not (isinstance(p.ret, Lin) and p.ret.is_const()):
            unk = 'returns %s' % show_any(p.ret)
            continue
        if not entails(p.st.facts, eq(me, const(U64MAX))):
            bad = 'a live checkpoint may be deleted; ' + path_show(p)[:300]
        if not loop and not any(x.name.endswith('::getNexts') for x in p.events('call')):
            bad = 'what follows is not looked at; ' + path_show(p)[:300]
    for i in loop:
        if i['breaks']:
            unk = 'leaves the loop early'
        for s in i['ends']:
            n += 1
            o = at(I.load(s.copy(), i['elem']))
            cd = [a for x in s.facts for a in x[1].atoms() if isinstance(a, tuple) and a[0] == 'call' and a[1].endswith('::canDelete') and a[2] == o]
            sn = [a for x in s.facts for a in x[1].atoms() if is_fld(a, o, N.snap)]
            if any(entails(s.facts, ne(atom(a, 'bool'), ZERO)) for a in cd + sn):
                continue
            bad = 'passes over a follower that is neither a snapshot nor may be deleted; %s' % '; '.join(show_fact(x) for x in s.facts)[:300]
    if not loop:
        unk = unk or 'the walk over the followers'
    stm(c, rid, f, bad, n, unk, '')


def needed(c, P, rid, N):
    fs = P.find(FC + '::recursForwardFindAlive_')
    if not fs:
        c.ob(rid, 'recursForwardFindAlive_', 'FastCheckpointer.hpp', 'unknown', 'not there')
        return
    f = fs[0]
    I, ps = run(c, P, f, rid, cfg(f, opaque=['recursForwardFindAlive_', 'getNexts']))
    if ps is None:
        return
    norm(I)
    bad = unk = None
    n = 0
    if not N.ok or not hint(c, P, FC, 'current_'):
        stm(c, rid, f, None, 0, 'members', '')
        return
    cu = init(F('current_'))
    loop = [i for i in I.loopinfo if i['elem'] is not None]
    if len(loop) != 1:
        unk = 'the walk over the followers'
    for i in loop:
        if i['breaks']:
            unk = 'leaves the loop early'
        for s in i['ends']:
            n += 1
            o = at(I.load(s.copy(), i['elem']))
            if safe(I, s, o, N, cu):
                continue
            bad = 'passes over a follower that may be live, current or needed; %s' % '; '.join(show_fact(x) for x in s.facts)[:300]
        for _, s, v in [r for r in i['rets'] if r[0] == 'ret']:
            if v == ZERO:
                bad = 'answers not needed before the last follower is looked at; %s' % '; '.join(show_fact(x) for x in s.facts)[:300]
            elif v != ONE:
                unk = 'answers %s' % show_any(v)
    for p in ps:
        if p.outcome == 'ret' and not (isinstance(p.ret, Lin) and p.ret.is_const()):
            unk = 'answers %s' % show_any(p.ret)
        if p.outcome == 'ret' and p.ret == ZERO and not I.loopinfo and not any(x.name.endswith('::getNexts') for x in p.events('call')):
            bad = 'answers not needed without looking'
    stm(c, rid, f, bad, n, unk, '')


def safe(I, s, o, N, cu):
    sn = [a for x in s.facts for a in x[1].atoms() if is_fld(a, o, N.snap)]
    if any(entails(s.facts, ne(atom(a, 'bool'), ZERO)) for a in sn):
        return True
    if not entails(s.facts, ne(cu, o[1])):
        return False
    if not entails(s.facts, eq(I.load(s.copy(), ('f', o, N.id), 'u64'), const(U64MAX))):
        return False
    rf = [a for x in s.facts for a in x[1].atoms() if isinstance(a, tuple) and a[0] == 'call' and a[1].endswith('::recursForwardFindAlive_')]
    return any(entails(s.facts, eq(atom(a, 'bool'), ZERO)) for a in rf)


def deleting(c, P, rid, N):
    f = fn1(P, FC + '::deleteCheckpoint')
    I, ps = run(c, P, f, rid, cfg(f, opaque=['cleanupChain_'], pure=['cleanupChain_']))
    if ps is None:
        return
    bad = unk = None
    n = 0
    cnt = ('num_dead_checkpoints_', 'num_alive_checkpoints_', 'num_alive_snapshots_')
    if not N.ok or not hint(c, P, FC, 'chkpts_', *cnt):
        stm(c, rid, f, None, 0, 'members', '')
        return
    for p in ps:
        n += 1
        has, kv = found(I, p, f)
        if p.outcome == 'throw':
            if any(is_effect(e) for e in p.events()):
                bad = 'refused after an effect; ' + path_show(p)[:300]
            hk = [k for k in has[1].atoms() if isinstance(k, tuple) and k[0] == 'has'] if has else []
            if not hk:
                unk = 'what is refused'
            elif not entails(p.st.facts, eq(atom(hk[0], 'bool'), ZERO)) and not (kv is not None and entails(p.st.facts, eq(kv, ZERO))):
                if not any(is_fld(a, at(kv), N.id) for x in p.st.facts for a in x[1].atoms()) if kv is not None else True:
                    bad = 'refused although the checkpoint exists; ' + path_show(p)[:300]
            continue
        if p.outcome != 'ret':
            continue
        if kv is None:
            unk = 'which checkpoint'
            continue
        D = at(kv)
        id0 = init(('f', D, N.id))
        dl = [I.load(p.st.copy(), F(x), 'u32') - init(F(x), 'u32') for x in cnt]
        if not all(isinstance(x, Lin) and x.is_const() for x in dl):
            unk = 'the counts: %s' % [show_any(x) for x in dl]
            continue
        dl = [x.c for x in dl]
        id1, del1 = I.load(p.st.copy(), ('f', D, N.id), 'u64'), I.load(p.st.copy(), ('f', D, N.delid), 'u64')
        sn = init(('f', D, N.snap), 'bool')
        if entails(p.st.facts, eq(id0, const(U64MAX))):
            if dl != [0, 0, 0]:
                bad = 'deleting again changes the counts (dead, live, snapshots) by %s; %s' % (dl, path_show(p)[:300])
        elif entails(p.st.facts, ne(id0, const(U64MAX))):
            isn = 1 if entails(p.st.facts, ne(sn, ZERO)) else 0 if entails(p.st.facts, eq(sn, ZERO)) else None
            if id1 != const(U64MAX):
                bad = 'the checkpoint is not deleted; ' + path_show(p)[:300]
            elif del1 != id0:
                bad = 'the id it had is remembered as %s' % show_any(del1)
            if dl[:2] != [1, -1]:
                bad = 'the counts (dead, live) change by %s; %s' % (dl[:2], path_show(p)[:300])
            elif isn is None:
                if dl[2] != 0:
                    unk = 'snapshots'
                else:
                    bad = 'the snapshot count does not look at the checkpoint; ' + path_show(p)[:300]
            elif dl[2] != -isn:
                bad = 'the snapshot count changes by %d; %s' % (dl[2], path_show(p)[:300])
        else:
            unk = 'whether it was deleted before'
    stm(c, rid, f, bad, n, unk, '')


def unlinking(c, P, rid, N):
    f = fn1(P, CK + '::~Checkpoint')
    I, ps = run(c, P, f, rid, cfg(f, opaque=['addNext', 'removeNext', 'setPrev']))
    if ps is not None:
        norm(I)
        bad = unk = None
        n = 0
        pv = init(F(N.prev)) if N.ok else None
        if not N.ok or not hint(c, P, CK, 'nexts_'):
            unk = 'members'
        else:
            for p in normals(ps):
                n += 1
                rm = [e for e in p.events('call') if e.name.endswith('::removeNext')]
                if entails(p.st.facts, ne(pv, ZERO)):
                    if len(rm) != 1 or rm[0].obj != at(pv):
                        bad = 'the predecessor still lists it; ' + path_show(p)[:200]
                elif not entails(p.st.facts, eq(pv, ZERO)):
                    unk = 'whether there is a predecessor'
            ls = [i for i in I.loopinfo if i['cont'] == F('nexts_') and i['elem'] is not None]
            if len(ls) < 1:
                unk = 'the walk over the followers'
                if not I.loopinfo:
                    bad = 'the followers keep following it'
            for i in ls:
                if i['breaks'] or i['rets']:
                    bad = 'stops before the last follower'
                for s in i['ends']:
                    n += 1
                    ev = [e for e in evs_since(s, i['head']) if e.kind == 'call']
                    me = I.load(s.copy(), i['elem'])
                    hp = I.load(i['head'].copy(), F(N.prev), 'u64')
                    sp = [k for k, e in enumerate(ev) if e.name.endswith('::setPrev')]
                    an = [k for k, e in enumerate(ev) if e.name.endswith('::addNext')]
                    if not sp:
                        bad = 'a follower keeps following it'
                        continue
                    a = ev[sp[-1]].args[0]
                    if not is_fld(a.single() if isinstance(a, Lin) else None, ('this',), N.prev) and a != hp:
                        bad = 'a follower follows %s' % show_any(a)
                        continue
                    zero = entails(s.facts, eq(a, ZERO))
                    if zero and not an:
                        continue
                    if len(an) != 1:
                        bad = 'the predecessor does not list a follower; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
                    elif an[0] < sp[-1]:
                        bad = 'the follower is added before it follows the predecessor'
        stm(c, rid, f, bad, n, unk, '')
    for nm, kind in (('addNext', 'push_back'), ('removeNext', 'erase')):
        f = fn1(P, CK + '::' + nm)
        I, ps = run(c, P, f, rid, cfg(f))
        if ps is None:
            continue
        bad = unk = None
        n = 0
        if not N.ok or not hint(c, P, CK, 'nexts_'):
            unk = 'members'
            ps = []
        a = par(I, St(), f, 0)
        for p in ps:
            n += 1
            ef = [e for e in p.events('cont') if e.obj == F('nexts_')]
            if p.outcome == 'throw':
                if ef:
                    bad = 'refused after an effect; ' + path_show(p)[:200]
                continue
            if p.outcome != 'ret':
                continue
            if not entails(p.st.facts, eq(init(('f', at(a), N.prev)), addr(('this',)))):
                bad = 'accepts a checkpoint that does not follow this one; ' + path_show(p)[:200]
            if not ef:
                bad = 'nothing happens; ' + path_show(p)[:200]
            elif nm == 'addNext' and (len(ef) != 1 or ef[0].name not in ('push_back', 'emplace_back', 'insert')):
                unk = 'changes the list by %s' % [e.name for e in ef]
            elif nm == 'removeNext' and ef[0].name == 'erase' and len(ef[0].args) > 1:
                bad = 'removes a range'
            elif nm == 'removeNext' and [e.name for e in ef] != ['erase']:
                unk = 'changes the list by %s' % [e.name for e in ef]
            elif nm == 'addNext':
                v = ef[0].args[0]
                v = v[2] if isinstance(v, tuple) and len(v) > 2 else v
                if v != a and not (isinstance(v, tuple)):
                    bad = 'adds %s' % show_any(v)
        stm(c, rid, f, bad, n, unk, '')


def listing(c, P, rid, N):
    for qual, flt in ((FC + '::getCheckpoints', None), (FC + '::getCheckpointsAt', 'tick'), (FC + '::getNextIDs', None), (DC + '::getNextIDs', None)):
        for f in fns(P, qual):
            I, ps = run(c, P, f, rid, cfg(f, opaque=['getNexts']))
            if ps is None:
                continue
            norm(I)
            bad = unk = None
            n = 0
            ls = [i for i in I.loopinfo if i['elem'] is not None]
            if len(ls) != 1 or not N.ok:
                unk = 'the walk'
                ls = []
            for i in ls:
                if i['breaks'] or i['rets']:
                    bad = 'stops before the last checkpoint'
                for s in i['ends']:
                    n += 1
                    ad = [e for e in evs_since(s, i['head']) if e.kind == 'cont' and e.name in ('push_back', 'emplace_back')]
                    ids = [a for x in s.facts for a in x[1].atoms() if is_fld(a, None, N.id)]
                    tks = [(x, a) for x in s.facts for a in x[1].atoms() if is_fld(a, None, N.tick)]
                    if len({a for a in ids}) > 1:
                        unk = 'which checkpoint'
                        continue
                    if len(ad) > 1:
                        bad = 'a checkpoint is listed twice'
                        continue
                    live = bool(ids) and entails(s.facts, ne(atom(ids[0], 'u64'), const(U64MAX)))
                    dead = bool(ids) and entails(s.facts, eq(atom(ids[0], 'u64'), const(U64MAX)))
                    fit = True if flt is None else None
                    if flt:
                        t = par(I, St(), f, 0)
                        fit = True if tks and entails(s.facts, eq(atom(tks[0][1], 'u64'), t)) else False if tks and entails(s.facts, ne(atom(tks[0][1], 'u64'), t)) else None
                    if ad:
                        v = ad[0].args[0]
                        v = v[2] if isinstance(v, tuple) and len(v) > 2 else v
                        k = v.single() if isinstance(v, Lin) else None
                        if not live:
                            bad = 'a deleted checkpoint is listed; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
                        elif flt and fit is not True:
                            bad = 'a checkpoint of another tick is listed; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
                        elif is_fld(k, None, None) and k[1][2] != N.id:
                            bad = 'lists %s' % show_any(v)
                    elif not dead and fit is not False:
                        bad = 'a live checkpoint is left out; %s' % '; '.join(show_fact(x) for x in s.facts)[:200]
            stm(c, rid, f, bad, n, unk, '')
