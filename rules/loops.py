"""Recognises the container a loop walks, whichever way the loop is written:
range-for, index from 0 to size(), iterator from begin() to end()."""
from lib import *
from kernel import counters


def norm(I):
    for info in I.loopinfo:
        if 'elem' in info:
            continue
        info['elem'] = None
        if info['cont'] is not None:
            if info['ix'] is not None and info['ix'] is not False:
                info['elem'] = ('i', info['cont'], info['ix'])
            continue
        if not info['ends'] or not info['exits']:
            continue
        for k, v0, hv, d in counters(I, info):
            if d != 1 or v0 != ZERO:
                continue
            for x in info['exits'][0].facts:
                if x[0] not in ('le', 'eq'):
                    continue
                r = x[1] + hv if x[0] == 'le' else None
                s = r.single() if isinstance(r, Lin) else None
                if isinstance(s, tuple) and s[0] == 'ld' and s[1][0] == 'f' and s[1][2] == '$size' and all(entails(e.facts, ('le', r - hv)) for e in info['exits']):
                    info['cont'], info['ix'] = s[1][1], hv
                    info['elem'] = ('i', s[1][1], hv)
        if info['cont'] is not None:
            continue
        h = info['head']
        for k in set().union(*[set(e.store) for e in info['ends']]):
            hv = h.store.get(k)
            if hv is None:
                hv = I.load(h.copy(), k)
            v0 = info['entry'].store.get(k)
            s0 = v0.single() if isinstance(v0, Lin) else None
            if not (isinstance(hv, Lin) and isinstance(s0, tuple) and s0[0] == 'begin'):
                continue
            good = all(isinstance(e.store.get(k), Lin) and isinstance(e.store[k].single(), tuple) and e.store[k].single()[0] == 'next' and e.store[k].single()[1] == hv for e in info['ends'])
            if not good:
                continue
            endx = [a for x in info['exits'] for f in x.facts if f[0] == 'eq' for a in f[1].atoms() if isinstance(a, tuple) and a[0] == 'end' and a[1] == s0[1] and hv.single() in f[1].atoms()]
            if len(endx) >= len(info['exits']):
                info['cont'], info['elem'], info['ix'] = s0[1], at(hv), hv
    return I.loopinfo
