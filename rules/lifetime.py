"""R07 lifetimes of the elements Array and Buffer keep in raw memory, and the age order of an aged Array."""
from lib import *
from resources import TU, arg, meth, is_idx, argval, same_loc, classes, A, B
from dag import stm, names
from loops import norm
from functional import evs_since


def at_elem(l, base):
    """element of the array reached through this.<base>, or None"""
    while l is not None and l[0] == 'f' and l[1][0] != 'this':
        l = l[1]
    return l


def slot_evs(p, n, up_to=None):
    """construction / destruction events of array elements"""
    out = []
    for e in p.events():
        if e.obj is None or n not in show_any(e.obj):
            continue
        if e.kind == 'dtor' or e.kind == 'pnew':
            out.append(e)
    return out


def has(facts, want):
    """the path knows the index is (not) in the set of valid ones"""
    return [x for x in facts if '<has this.valid_index_set_ 0 ' in show_fact(x) and (want and (x[0] == 'ne' and x[1].c == 0 or x[0] == 'eq' and x[1].c != 0) or not want and x[0] == 'eq' and x[1].c == 0)]


def R07(c):
    P = c.program(TU)
    K = classes(P)
    r1 = c.rule('array', 'writing an Array entry destroys the element it replaces and constructs one, erasing destroys the one erased; nothing else is destroyed', 6)
    r2 = c.rule('array-all', 'clearing or destroying an Array destroys every valid element', 2)
    r3 = c.rule('age', 'an aged Array keeps every valid entry once in its age list, the youngest first', 3)
    r4 = c.rule('buffer', 'erasing from a Buffer destroys the element once and puts its place on the free list; inserting constructs into the place taken off the list', 4)
    r5 = c.rule('buffer-all', 'clearing a Buffer destroys every element and makes the whole pool free; destroying it clears it, an empty pool is not touched', 2)
    r6 = c.rule('relocate', 'moving an element to other memory move-constructs it there and destroys the original', 1)
    array(c, P, K, r1, r2, r3)
    buf(c, P, K[B], r4, r5, r6)


def array(c, P, K, r1, r2, r3):
    for nm, cls in sorted(K.items()):
        if not nm.startswith(A):
            continue
        aged = nm.endswith('aged')
        hint(c, P, cls[1], 'valid_index_set_', 'array_', 'aged_list_')
        AL = F('aged_list_')
        for f in meth(P, cls, 'write', pred=is_idx) + meth(P, cls, 'erase', pred=is_idx):
            I, ps = run(c, P, f, r1, Config(thiscls=f.cls))
            if ps is None:
                continue
            bad = unk = b3 = u3 = None
            wr = f.short == 'write'
            ix = argval(I, f, 0, St())
            for p in normals(ps):
                evs = [e for e in p.events() if e.kind in ('dtor', 'pnew') and e.obj is not None and 'array_' in show_any(e.obj) and not e.loops]
                el = [e for e in evs if at_elem(e.obj, 'array_')[0] == 'i']
                for e in el:
                    k = at_elem(e.obj, 'array_')[2]
                    if k != ix and not entails(p.st.facts, eq(k, ix)):
                        bad = bad or '%s of entry %s, not %s: %s' % ('destruction' if e.kind == 'dtor' else 'construction', show_any(k), show_any(ix), path_show(p, 5))
                if len(el) != len(evs):
                    unk = unk or 'an element is constructed or destroyed in a way not recognised'
                seq = [e.kind for e in el if e.kind == 'dtor' or 'ArrayPosition' in (e.name or '') or e.kind == 'pnew']
                asg = [e for e in p.events('write') if e.obj is not None and show_any(e.obj).endswith('].data') and names(e, f.params[-1][1])] if wr else []
                was, wasnt = has(p.st.facts, True), has(p.st.facts, False)
                tx = '-'.join(seq)
                if wr and not was and not wasnt:
                    # no test at all: constructs over whatever is there
                    if tx == 'pnew':
                        bad = bad or 'constructs over an entry that may hold an element: ' + path_show(p, 5)
                    else:
                        unk = unk or 'validity not examined'
                elif wr and was:
                    if tx == 'pnew':
                        bad = bad or 'the element replaced is not destroyed: ' + path_show(p, 5)
                    elif tx == '' and asg:
                        pass
                    elif tx != 'dtor-pnew':
                        bad = bad or 'the element replaced: %s: %s' % (tx or 'nothing', path_show(p, 5))
                elif wr:
                    if tx != 'pnew':
                        bad = bad or 'the new element: %s: %s' % (tx or 'not constructed', path_show(p, 5))
                elif tx != 'dtor':
                    bad = bad or 'the element erased: %s: %s' % (tx or 'not destroyed', path_show(p, 5))
                if not aged:
                    continue
                ops = [e for e in p.events('cont') if e.obj == AL and e.name in ('push_front', 'push_back', 'emplace_front', 'emplace_back', 'erase', 'insert', 'emplace', 'remove', 'clear', 'splice', 'pop_back', 'pop_front')]
                ms = [e.name for e in ops]
                er = [e for e in ops if e.name in ('erase', 'remove', 'splice')]
                pu = [e for e in ops if e.name not in ('erase', 'remove')]
                if wr and not er and not wasnt:
                    b3 = b3 or 'an entry written again stays in the age list as well: ' + path_show(p, 5)
                if wr and er and wasnt:
                    b3 = b3 or 'a new entry takes another off the age list: ' + path_show(p, 5)
                if wr and 'splice' not in ms:
                    if len(pu) != 1:
                        b3 = b3 or 'the entry enters the age list %d times: %s' % (len(pu), path_show(p, 5))
                    elif pu[0].name in ('push_back', 'emplace_back'):
                        b3 = b3 or 'the newest entry becomes the oldest: ' + path_show(p, 5)
                    elif pu[0].name not in ('push_front', 'emplace_front') or not pu[0].args or not names(pu[0], f.params[0][1]):
                        u3 = u3 or 'age list ' + ev_show(pu[0])
                if not wr and (len(er) != 1 or pu):
                    b3 = b3 or 'the entry erased leaves the age list %d times: %s' % (len(er), path_show(p, 5))
                for e in er:
                    if e.name == 'erase' and e.args and 'list_pointer' not in show_any(e.args[0]):
                        v = None
                        if isinstance(e.args[0], tuple) and e.args[0] and e.args[0][0] in ('R', 'REF'):
                            v = show_any(p.st.store.get(e.args[0][1], ''))
                        if v and 'list_pointer' not in v:
                            u3 = u3 or 'age list ' + ev_show(e)
            stm(c, r1, f, bad, len(normals(ps)), unk)
            if aged:
                stm(c, r3, f, b3, len(normals(ps)), u3)
        ds = [g for g in P.by_rec.get(A, []) if g.cls == cls[1] and g.short.startswith('~')]
        for f in meth(P, cls, 'clear') + ds:
            I, ps = run(c, P, f, r2, Config(thiscls=f.cls, history=True))
            if ps is None:
                continue
            norm(I)
            bad = unk = None
            found = False
            for info in I.loopinfo:
                if info['cont'] == F('valid_index_set_'):
                    found = True
                    for e in info['ends']:
                        ds_ = [x for x in evs_since(e, info['head']) if x.kind == 'dtor' and x.obj is not None and 'array_' in show_any(x.obj)]
                        if len(ds_) != 1:
                            bad = 'a valid element is destroyed %d times' % len(ds_)
                elif info['ends'] and any(x.kind == 'dtor' for e in info['ends'] for x in evs_since(e, info['head'])):
                    found = True
                    unk = 'the walk over the valid elements is not recognised'
            if not found:
                cl = [e for p in normals(ps) for e in p.events() if e.kind in ('dtor', 'call', 'icall')and 'utilization' not in show_any(e.obj)]
                if not cl:
                    bad = 'the elements are not destroyed: ' + path_show(normals(ps)[0], 5) if normals(ps) else None
                else:
                    unk = 'the walk over the valid elements is not recognised'
            if found:
                bad = bad or skipped(ps, 'valid_index_set_')
            if aged and f.short == 'clear':
                for p in normals(ps):
                    if not [e for e in p.events('cont') if e.obj == AL and e.name in ('clear', 'assign', 'swap', 'erase')]:
                        bad = bad or 'the age list is kept: ' + path_show(p, 5)
            stm(c, r2, f, bad, len(normals(ps)), unk)
    # walking an aged array
    return


def buf(c, P, cls, r4, r5, r6):
    hint(c, P, cls[1], 'buffer_map_', 'free_position_', 'data_pool_', 'data_pool_size_', 'first_position_')
    FP = F('free_position_')
    from resources import size_le_cap
    inv, s, k = size_le_cap(P, cls)
    for f in meth(P, cls, 'erase', pred=is_idx):
        I, ps = run(c, P, f, r4, Config(thiscls=f.cls), facts=inv)
        if ps is None:
            continue
        ix = argval(I, f, 0, St())
        ent = init(('i', F('buffer_map_'), ix), 'u64')
        bad = unk = None
        for p in normals(ps):
            d = [e for e in p.events('dtor') if e.obj is not None and 'data' in show_any(e.obj)]
            if len(d) != 1:
                bad = bad or 'the element is destroyed %d times: %s' % (len(d), path_show(p, 5))
            elif show_any(ent) not in show_any(d[0].obj):
                bad, unk = (bad or 'destroys %s' % show_any(d[0].obj), unk) if 'buffer_map_[' in show_any(d[0].obj) and not d[0].loops else (bad, unk or 'destroys ' + show_any(d[0].obj))
            fp = I.load(p.st, FP)
            if show_any(fp) == show_any(init(FP)):
                bad = bad or 'the place of the element does not become free: ' + path_show(p, 5)
            elif show_any(fp) != show_any(ent):
                unk = unk or 'the free list starts at ' + show_any(fp)
            else:
                nx = [e for e in p.events('write') if e.name == 'next_free']
                if not nx:
                    bad = bad or 'the rest of the free list is lost: ' + path_show(p, 5)
                elif show_any(nx[-1].args[0]) == show_any(fp):
                    bad = bad or 'the free list points to itself: ' + path_show(p, 5)
                elif show_any(nx[-1].args[0]) != show_any(init(FP)):
                    unk = unk or 'free list'
        stm(c, r4, f, bad, len(normals(ps)), unk)
    for f in meth(P, cls, 'push_back') + [g for g in meth(P, cls, 'insert') if is_idx(g)]:
        def seed(st):
            st.store[F('is_infinite_mode_')] = ZERO
        st = St()
        if hint(c, P, cls[1], 'is_infinite_mode_'):
            seed(st)
        I, ps = run(c, P, f, r4, Config(thiscls=f.cls), st=st, facts=inv)
        if ps is None:
            continue
        bad = unk = None
        for p in normals(ps):
            n = [e for e in p.events('pnew')]
            if len(n) != 1:
                bad, unk = (bad or 'constructs %d elements: %s' % (len(n), path_show(p, 5)), unk) if not n else (bad, unk or 'constructions')
                continue
            if show_any(init(FP)) not in show_any(n[0].obj):
                bad, unk = (bad or 'constructs into %s, free is %s' % (show_any(n[0].obj), show_any(init(FP))), unk) if 'buffer_map_[' in show_any(n[0].obj) else (bad, unk or 'constructs into ' + show_any(n[0].obj))
            fp = I.load(p.st, FP)
            if show_any(fp) == show_any(init(FP)):
                bad = bad or 'the place taken stays on the free list: ' + path_show(p, 5)
            elif 'next_free' not in show_any(fp) or not show_any(fp).startswith('*(this.free_position_).next_free'):
                unk = unk or 'the free list starts at ' + show_any(fp)
        stm(c, r4, f, bad, len(normals(ps)), unk)
    ds = [g for g in P.by_rec.get(B, []) if g.cls == cls[1] and g.short.startswith('~')]
    PS = init(F('data_pool_size_'), 'u64')
    for f in meth(P, cls, 'clear') + ds:
        I, ps = run(c, P, f, r5, Config(thiscls=f.cls, history=True))
        if ps is None:
            continue
        norm(I)
        bad = unk = None
        found = None
        for info in I.loopinfo:
            if info['cont'] == F('buffer_map_'):
                for e in info['ends']:
                    n = len([x for x in evs_since(e, info['head']) if x.kind == 'dtor' and x.obj is not None])
                    z = any(x[0] == 'eq' and isinstance(x[1].single() or (-x[1]).single(), tuple) and re.search(r'buffer_map_\[.*\]$', show(x[1]).lstrip('-')) for x in e.facts)
                    if n:
                        found = found or 'ok'
                    if n > 1 or (n == 0 and not z):
                        found = 'bad'
                        bad = 'an element is destroyed %d times: %s' % (n, '; '.join(show_fact(x) for x in e.facts)[:160])
        if not found:
            if not any(e.kind in ('dtor',) or e.kind in ('call', 'icall') and not re.search('fill|setValue', e.name) for p in normals(ps) for e in p.events()) and not any(x.kind in ('dtor', 'call') for i in I.loopinfo for e in i['ends'] for x in evs_since(e, i['head'])):
                bad = bad or 'the elements are not destroyed: ' + (path_show(normals(ps)[0], 5) if normals(ps) else '')
            else:
                unk = unk or 'the walk over the elements is not recognised'
        if found:
            bad = bad or skipped(ps, 'buffer_map_')
        for p in normals(ps):
            tc = [e for e in p.events('write') if e.obj is not None and re.search(r'this\.data_pool_\[', show_any(e.obj))]
            if tc and not any(entails(p.st.facts, lt(ZERO, v)) or entails(p.st.facts, ne(v, ZERO)) for v in _pool_sizes(p)):
                bad = bad or 'touches the pool although it may be empty: ' + path_show(p, 5)
            fp = I.load(p.st, FP)
            if show_any(fp) == show_any(init(FP)) and tc:
                bad = bad or 'the free list is not reset: ' + path_show(p, 5)
        stm(c, r5, f, bad, len(normals(ps)), unk)
    mv = [g for g in P.by_rec.get(B + '::DataPointer', []) if g.short == 'DataPointer' and len(g.params) == 1 and g.params[0][2].startswith('&&')]
    if not mv:
        raise Broken('Buffer does not relocate elements through a move constructor')
    for f in mv:
        I, ps = run(c, P, f, r6, Config(thiscls=f.cls))
        if ps is None:
            continue
        o = f.params[0][1] or 'arg0'
        od = init(('f', ('p', o), 'data'), 'u64')
        bad = unk = None
        for p in normals(ps):
            n = [e for e in p.events('pnew')]
            d = [e for e in p.events('dtor') if e.obj is not None and ('arg:%s' % o) in show_any(e.obj)]
            nul = [x for x in p.st.facts if x[0] == 'eq' and show_any(od) in show_fact(x) and not x[1].c]
            bits = [e for e in p.events('call') if re.search('memcpy|memmove|copy', e.name)]
            if bits:
                bad = bad or 'relocates the bytes of an element: ' + path_show(p, 5)
            if nul:
                if n or d:
                    bad = bad or 'constructs or destroys without an element: ' + path_show(p, 5)
                continue
            if not n:
                bad = bad or 'the element is not constructed in its new place: ' + path_show(p, 5)
            elif len(d) != 1:
                bad = bad or 'the original is destroyed %d times: %s' % (len(d), path_show(p, 5))
            else:
                evs = p.events()
                if evs.index(d[0]) < evs.index(n[0]):
                    bad = bad or 'the original is destroyed before it is moved: ' + path_show(p, 5)
                if not any(e.name == 'data' and e.obj == ('f', ('this',), 'data') and 'this' in show_any(e.args[0]) for e in p.events('write')):
                    bad = bad or 'the new place is not recorded: ' + path_show(p, 5)
        stm(c, r6, f, bad, len(normals(ps)), unk)


def skipped(ps, cont):
    """a normal path without the walk, although there may be elements"""
    for p in normals(ps):
        if p.events('iter') or any(e.loops for e in p.events()):
            continue
        if any(x[0] in ('eq', 'le') and not x[1].c and re.search(r'^-?this\.(%s\.\$size|num_valid_)$' % cont, show(x[1])) for x in p.st.facts):
            continue
        return 'the elements are not destroyed: ' + path_show(p, 5)
    return None


def _pool_sizes(p):
    return [init(F('data_pool_size_'), t) for t in ('u32', 'u64')] + [init(('f', F('data_pool_'), '$size'), 'u64')]
