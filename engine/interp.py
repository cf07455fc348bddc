"""Path-sensitive abstract interpreter over the extracted IR.

Values are linear forms over atoms (terms.py); each path carries the facts its
branches established, a store, and the ordered list of effects (events).  Loops
are summarised by one generic iteration over havocked state, calls with bodies
are inlined, everything else is an uninterpreted effect.
"""
import re
import sys
from collections import namedtuple
from terms import (Lin, const, atom, ZERO, ONE, canon, neg, norm_fact, entails, atom_key, show, show_loc, show_any, show_fact)

sys.setrecursionlimit(100000)

class Ev(namedtuple('Ev', 'kind name obj args line fn loops facts x')):
    key = None      # calls: the key of the result
# kinds: call (opaque), enter/leave (inlined), write, cont (container op), icall, new, del, ctor, dtor, throw, lock, unlock


class Unknown(Exception):
    pass


class Loc(tuple):
    pass


def nonnull(L):
    """the address of an object: never zero"""
    k = L.single()
    if not (isinstance(k, tuple) and k and k[0] == 'addr') and L.c == 0 and len(L.t) == 1 and L.t[0][1] == -1:
        k = (-L).single()
    if not (isinstance(k, tuple) and k and k[0] == 'addr'):
        return False
    l = k[1]
    while l[0] in ('f', 'i'):
        l = l[1]
    return l[0] in ('new', 'this', 'var', 'tmp', 'g')


class St:
    __slots__ = ('store', 'vmap', 'facts', 'ev', 'ep', 'wr', 'cnt', 'loops', 'stack', 'frame', 'nf', 'nt', 'exc', 'dyn',
                 'thisof', 'parent', 'notes')

    def __init__(self):
        self.store = {}
        self.vmap = {}
        self.facts = frozenset()
        self.ev = None
        self.ep = {}
        self.wr = {}
        self.cnt = {}
        self.loops = ()
        self.stack = ()
        self.frame = 0
        self.nf = 0
        self.nt = 0
        self.exc = None
        self.dyn = {}
        self.thisof = {0: ('this',)}
        self.parent = {}
        self.notes = ()

    def copy(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.vmap = dict(self.vmap)
        s.facts = self.facts
        s.ev = self.ev
        s.ep = dict(self.ep)
        s.wr = dict(self.wr)
        s.cnt = dict(self.cnt)
        s.loops = self.loops
        s.stack = self.stack
        s.frame = self.frame
        s.nf = self.nf
        s.nt = self.nt
        s.exc = self.exc
        s.dyn = dict(self.dyn)
        s.thisof = dict(self.thisof)
        s.parent = dict(self.parent)
        s.notes = self.notes
        return s

    # events in order
    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def implies(self, f):
        return entails(self.facts, f)

    def add(self, f):
        """add fact; False if infeasible"""
        f = norm_fact(f)
        k, L = f
        if not L.t:
            return (L.c <= 0) if k == 'le' else (L.c == 0) if k == 'eq' else (L.c != 0)
        if len(L.t) == 1 and k != 'le' and nonnull(L):
            return k == 'ne'
        if entails(self.facts, f):
            return True
        if entails(self.facts, neg(f)):
            return False
        new = self.facts | {canon(k, L)}
        if k == 'le':
            # sharpen: L<=0 with L!=0 known -> L<=-1 ; L>=0 known -> eq
            for kk, X in self.facts:
                if kk == 'ne' and (X == L or X == -L):
                    new = new | {('le', L + ONE)}
        elif k == 'ne':
            if entails(self.facts, ('le', L)):
                new = new | {('le', L + ONE)}
            elif entails(self.facts, ('le', -L)):
                new = new | {('le', ONE - L)}
        self.facts = new
        return True


def prefixes(loc):
    while isinstance(loc, tuple) and loc:
        yield loc
        if loc[0] in ('f', 'i'):
            loc = loc[1]
        else:
            return


def root(loc):
    while loc[0] in ('f', 'i'):
        loc = loc[1]
    return loc


def has_prefix(loc, pre):
    while True:
        if loc == pre:
            return True
        if loc[0] in ('f', 'i'):
            loc = loc[1]
        else:
            return False


def at(L):
    """location a pointer value points to"""
    k = L.single()
    if isinstance(k, tuple) and k[0] == 'addr':
        return k[1]
    # pointer + offset
    if L.t and (L.c != 0 or len(L.t) > 1):
        for a, kk in L.t:
            key = atom_key(a)
            if kk == 1 and isinstance(key, tuple):
                if key[0] == 'addr':
                    rest = L - atom(key)
                    b = key[1]
                    if b[0] == 'i':
                        return ('i', b[1], b[2] + rest)
                    return ('i', ('at', atom(key)), rest)
        for a, kk in L.t:
            key = atom_key(a)
            from terms import atom_ty
            t = atom_ty(a) or ''
            if t.startswith('c '):
                t = t[2:]
            if kk == 1 and t.startswith('*'):
                rest = L - Lin(0, ((a, 1),))
                return ('i', ('at', Lin(0, ((a, 1),))), rest)
    return ('at', L)


def norm_loc(loc):
    if loc[0] == 'i' and loc[1][0] == 'at' and loc[2] == ZERO:
        return loc[1]
    return loc


def addr(loc):
    loc = norm_loc(loc)
    if loc[0] == 'at':
        return loc[1]
    if loc[0] == 'i' and loc[1][0] == 'at':
        return loc[1][1] + loc[2]
    return atom(('addr', loc), 'ptr')


CONT = ('std::vector', 'std::deque', 'std::list', 'std::queue', 'std::set', 'std::map', 'std::unordered_map',
        'std::unordered_set', 'std::multiset', 'std::multimap', 'std::stack', 'std::array', 'std::__cxx11::list',
        'std::forward_list', 'std::unordered_multimap', 'std::priority_queue', 'std::span', 'std::initializer_list',
        'std::bitset', 'std::unordered_multiset', 'std::basic_string_view')
KEYED = ('std::set', 'std::map', 'std::unordered_map', 'std::unordered_set')
SEQ_BEGIN = ('std::vector', 'std::deque', 'std::array')
SMART = ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__uniq_ptr_impl', 'std::weak_ptr')
SPTR = ('sparta::SpartaSharedPointer',)
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
STREAM_HINTS = ('basic_ostream', 'basic_stringstream', 'basic_ostringstream', 'SpartaException', 'sparta::log::', 'LogObject')
IGNORE_PREFIX = ('sparta::log::', 'sparta::SpartaException', 'std::basic_ostream', 'std::basic_ios', 'std::ios_base', 'std::endl',
                 'std::setw', 'std::hex', 'std::dec', 'std::setfill', 'std::__cxx11::basic_stringstream',
                 'std::__cxx11::basic_ostringstream', 'sparta::Backtrace', 'std::cout', 'std::cerr')
TRANSPARENT = ('std::move', 'std::forward', 'std::addressof', 'std::as_const', '__builtin_expect', 'std::launder', 'std::ref', 'std::cref',
               'sparta::utils::', 'std::to_address')


def rname(ty):
    """record name without template args, of a type string"""
    t = ty
    while True:
        if t.startswith('c '):
            t = t[2:]
        elif t.startswith('&&'):
            t = t[2:]
        elif t.startswith('&'):
            t = t[1:]
        else:
            break
    if t.startswith('R:'):
        t = t[2:]
        for p in ('class ', 'struct ', 'const '):
            if t.startswith(p):
                t = t[len(p):]
        i = t.find('<')
        base = t if i < 0 else t[:i]
        # nested type after template args
        if i >= 0:
            j = t.rfind('>')
            tail = t[j + 1:]
            if tail:
                base += tail
        return base.replace('__cxx11::', '')
    return ''


def bare(ty):
    t = ty
    while True:
        if t.startswith('c '):
            t = t[2:]
        elif t.startswith('&&'):
            t = t[2:]
        elif t.startswith('&'):
            t = t[1:]
        else:
            return t


def width(ty):
    m = re.fullmatch(r'[ui](8|16|32|64)', bare(ty))
    return int(m.group(1)) if m else 0


def is_rec(ty):
    b = bare(ty)
    return b.startswith('R:') or b.startswith('L:')


DEFAULT_OPAQUE = {
    'sparta::CycleHistogramBase::setValue', 'sparta::CycleHistogramBase::addValue', 'sparta::HistogramBase::addValue',
    'sparta::CycleHistogramStandalone::*', 'sparta::Counter::*', 'sparta::CounterBase::*', 'sparta::CycleCounter::*',
    'sparta::ReadOnlyCounter::*', 'sparta::collection::*', 'sparta::utils::demangle', 'sparta::TreeNode::*',
    'sparta::log::*', 'sparta::EventNode::*', 'sparta::Clock::*', 'sparta::StatisticSet::*', 'sparta::ResourceContainer::*',
    'sparta::Resource::*', 'sparta::PhasedObject::*',
}


class Config:
    def __init__(self, **kw):
        self.opaque = set(DEFAULT_OPAQUE)   # qualified or short names never inlined
        self.inline_only = None
        self.maxdepth = 10
        self.maxpaths = 1500
        self.maxsteps = 60000
        self.stubs = {}              # qualified name -> handler(I, st, call) -> [(st, v)]
        self.sptr_model = True
        self.thiscls = None
        self.unroll = 16
        self.lossy = False           # join paths that differ only in facts
        self.max_inline_size = 6000
        self.narrow = True          # keep narrowing conversions visible
        self.wrap = False           # follow 64-bit unsigned wrap-around
        self.quiet_log = False       # assume message sources are not observed
        self.watch = None            # callback (I, st, event) at every event
        self.on_icall = None         # callback (I, st) after an indirect call
        self.history = False         # loops: analyse the iteration following an arbitrary one
        self.throwing = set()        # opaque names that may throw outside try
        self.pure = set()            # opaque names with no effect
        for k, v in kw.items():
            if k == 'opaque':
                self.opaque |= set(v)
            elif k == 'transparent':
                self.opaque -= set(v)
            else:
                setattr(self, k, v)


class Call:
    __slots__ = ('key', 'name', 'args', 'obj', 'arrow', 'virt', 'ret', 'sig', 'const', 'static', 'rec', 'gl', 'line')

    def __init__(self, e):
        (_, self.line, self.key, self.name, self.args, self.obj, self.arrow, self.virt, self.ret, self.sig, self.const, self.static,
         self.rec, self.gl) = e
        if self.gl and not self.ret.startswith('&'):
            self.ret = '&' + self.ret

    @property
    def short(self):
        n = self.name
        i = n.rfind('operator')
        if i >= 0 and n[i:].startswith('operator') and (i == 0 or n[i - 1] == ':'):
            return n[i:]
        return n.rsplit('::', 1)[-1]


class Interp:
    def __init__(self, prog, cfg=None):
        self.P = prog
        self.cfg = cfg or Config()
        self.sinks = []
        self.steps = 0
        self.npaths = 0
        self.truncated = False
        self.visited = set()     # functions inlined / analysed
        self.callsites = 0
        self.unknown_constructs = 0
        self.iters = []          # (loop id, state at the head of a generic iteration, state at its end)
        self.loopinfo = []       # dicts: lid, line, cont, entry, head, ends, breaks, rets, exits

    # ------------------------------------------------------------------ store
    def epoch(self, st, loc):
        n = 0
        for p in prefixes(loc):
            n += st.ep.get(p, 0)
        l = loc
        while l[0] in ('f', 'i'):
            if l[0] == 'f':
                n += st.ep.get(('fld', l[2]), 0)
            for w in st.wr.get(self.weakkey(l), ()):
                if w != l and self.may_alias(st, w, l):
                    n += 1
            l = l[1]
        if l[0] == 'at':
            for w in st.wr.get('@', ()):
                if w != l and self.may_alias(st, w, l):
                    n += 1
        return n

    def weakkey(self, loc):
        if loc[0] == 'f':
            return 'f:' + str(loc[2])
        if loc[0] == 'i':
            b = loc[1]
            if b[0] == 'f':
                return '[]' + str(b[2])
            if b[0] == 'at':
                return '[]@' + self.ptrname(b[1])
            return '[]?' + str(b[:3])
        return None

    def ptrname(self, L):
        for a, k in L.t:
            key = atom_key(a)
            if isinstance(key, tuple) and key[0] == 'ld' and key[1][0] == 'f':
                return str(key[1][2])
        return '?'

    def may_alias(self, st, a, b):
        if a == b:
            return True
        if a[0] != b[0]:
            return False
        if a[0] == 'f':
            return a[2] == b[2] and self.may_alias(st, a[1], b[1])
        if a[0] == 'i':
            if not (isinstance(a[2], Lin) and isinstance(b[2], Lin)):
                return a[2] == b[2] and self.may_alias(st, a[1], b[1])
            d = a[2] - b[2]
            if d.is_const():
                if d.c != 0:
                    return False
            elif entails(st.facts, ('ne', d)):
                return False
            return self.may_alias(st, a[1], b[1])
        if a[0] == 'at':
            d = a[1] - b[1]
            if d.is_const():
                return d.c == 0
            if entails(st.facts, ('ne', d)):
                return False
            for x, y in ((a[1], b[1]), (b[1], a[1])):
                k = x.single()
                if isinstance(k, tuple) and k[0] == 'call' and str(k[1]).startswith('new'):
                    return False
            # pointers loaded from differently named fields: pointee types unknown; assume may alias only if same name
            return self.ptrname(a[1]) == self.ptrname(b[1]) or '?' in (self.ptrname(a[1]), self.ptrname(b[1]))
        return False

    def load(self, st, loc, ty=None):
        loc = norm_loc(loc)
        v = st.store.get(loc)
        if v is not None:
            return v
        # opaque value of a container/record component of an opaque value
        p = loc[1] if loc[0] in ('f', 'i') else None
        if p is not None and p in st.store and isinstance(st.store[p], Lin) and st.store[p].t:
            if loc[0] == 'f':
                return atom(('fld', st.store[p], loc[2]), ty)
        return atom(('ld', loc, self.epoch(st, loc)), ty)

    def kill_sub(self, st, loc):
        for k in [k for k in st.store if k != loc and has_prefix(k, loc)]:
            del st.store[k]

    def write(self, st, loc, val, line=0, ev=True, init=False):
        loc = norm_loc(loc)
        if not init:
            self.kill_sub(st, loc)
            wk = self.weakkey(loc)
            weak = False
            l = loc
            while True:
                if l[0] == 'i' and not (isinstance(l[2], Lin) and False):
                    weak = True
                    break
                if l[0] == 'at':
                    weak = True
                    break
                if l[0] in ('f',):
                    l = l[1]
                    continue
                break
            if weak:
                for k in [k for k in st.store if k != loc and k[0] == loc[0] and self.may_alias(st, k, loc)]:
                    del st.store[k]
                    st.ep[k] = st.ep.get(k, 0) + 1
                wk2 = wk or '@'
                ws = st.wr.get(wk2, ())
                if loc not in ws:
                    st.wr[wk2] = ws + (loc,)
        st.store[loc] = val
        if ev and not self.is_local(loc):
            self.event(st, 'write', loc[2] if loc[0] == 'f' else '', loc, (val,), line)

    def is_local(self, loc):
        r = root(loc)
        return r[0] in ('var', 'tmp', 'cap')

    def havoc(self, st, loc):
        loc = norm_loc(loc)
        st.store.pop(loc, None)
        self.kill_sub(st, loc)
        st.ep[loc] = st.ep.get(loc, 0) + 1

    def event(self, st, kind, name, obj=None, args=(), line=0, x=None):
        st.ev = (st.ev, Ev(kind, name, obj, args, line, st.stack[-1] if st.stack else None, st.loops, st.facts, x))
        if self.cfg.watch:
            self.cfg.watch(self, st, st.ev[1])

    def havoc_field(self, st, name):
        """every location that has a component `name` gets an unknown value"""
        def touches(l):
            while l[0] in ('f', 'i'):
                if l[0] == 'f' and l[2] == name:
                    return True
                l = l[1]
            return False
        for k in [k for k in st.store if touches(k)]:
            del st.store[k]
        st.ep[('fld', name)] = st.ep.get(('fld', name), 0) + 1

    def newtmp(self, st, what='tmp'):
        st.nt += 1
        return ('tmp', st.nt)

    def serial(self, st, name):
        n = st.cnt.get(name, 0)
        st.cnt[name] = n + 1
        return n

    def varloc(self, st, uid, name):
        f = st.frame
        while f is not None:
            l = st.vmap.get((f, uid))
            if l is not None:
                return l
            f = st.parent.get(f)
        return ('var', uid, name, st.frame)

    def fork(self):
        self.npaths += 1

    def tick(self):
        self.steps += 1
        if self.steps > self.cfg.maxsteps:
            self.truncated = True
            raise Unknown('step limit')

    # ------------------------------------------------------------ truth values
    def fact_of(self, v):
        """value used as a condition -> fact that it is true, or None"""
        if isinstance(v, Lin):
            k = v.single()
            if isinstance(k, tuple) and k[0] == 'cmp':
                return (k[1], k[2])
            if len(v.t) == 1 and v.t[0][1] == -1 and v.c == 1:
                kk = atom_key(v.t[0][0])
                if isinstance(kk, tuple) and kk[0] == 'cmp':
                    return neg((kk[1], kk[2]))
            return ('ne', v)
        return ('ne', ONE)

    def cmpval(self, st, f):
        f = norm_fact(f)
        k, L = f
        if not L.t:
            return const(1 if ((L.c <= 0) if k == 'le' else (L.c == 0) if k == 'eq' else (L.c != 0)) else 0)
        if entails(st.facts, f):
            return ONE
        if entails(st.facts, neg(f)):
            return ZERO
        k, L = canon(k, L)
        if k == 'ne':
            # represent x != 0 as 1-(x==0) for sharing
            return ONE - atom(('cmp', 'eq', L), 'bool')
        return atom(('cmp', k, L), 'bool')

    def assume_val(self, st, v, pos):
        """[states] in which value v is true/false.  st may be mutated."""
        f = self.fact_of(v)
        if not pos:
            f = neg(f)
        if isinstance(v, Lin) and v.t:
            k = v.single()
            # boolean-typed opaque: also record equality
            from terms import atom_ty
            if len(v.t) == 1 and (atom_ty(v.t[0][0]) or '') in ('bool', 'c bool') and f[1] == v:
                f = ('eq', v - (1 if f[0] == 'ne' else 0)) if abs(v.t[0][1]) == 1 and v.c == 0 else f
        if st.add(f):
            return [st]
        return []

    def branch(self, e, st):
        """evaluate condition: (states where true, states where false)"""
        if e is None:
            return [st], []
        k = e[0]
        if k == 'un' and e[2] == '!':
            t, f = self.branch(e[3], st)
            return f, t
        if k == 'bin' and e[2] in ('&&', '||'):
            t1, f1 = self.branch(e[3], st)
            if e[2] == '&&':
                T, F = [], list(f1)
                for s in t1:
                    a, b = self.branch(e[4], s)
                    T += a
                    F += b
                return T, self.merge(F)
            T, F = list(t1), []
            for s in f1:
                a, b = self.branch(e[4], s)
                T += a
                F += b
            return self.merge(T), F
        if k == 'call' and e[3] == '__builtin_expect':
            return self.branch(e[4][0], st)
        if k == 'cast' and bare(e[4]) == 'bool':
            return self.branch(e[5], st)
        if k == 'cast' and e[2] in ('IntegralCast', 'NoOp', 'IntegralToBoolean'):
            return self.branch(e[5], st)
        if k == 'cast' and e[2] == 'UserDefinedConversion':
            return self.branch(e[5], st)
        if k == 'cond':
            T, F = [], []
            t1, f1 = self.branch(e[2], st)
            for s in t1:
                a, b = self.branch(e[3], s)
                T += a
                F += b
            for s in f1:
                a, b = self.branch(e[4], s)
                T += a
                F += b
            return T, F
        T, F = [], []
        for s, v in self.ev(e, st):
            v = self.scalar(s, v)
            s2 = s.copy()
            T += self.assume_val(s, v, True)
            F += self.assume_val(s2, v, False)
        return T, F

    def scalar(self, st, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, tuple) and v and v[0] == 'REF':
            return self.load(st, v[1])
        if isinstance(v, tuple) and v and v[0] == 'R':
            return self.load(st, v[1])
        if v is None:
            return atom(('none',))
        return atom(('obj', repr(v)[:60]))

    # --------------------------------------------------------------- merging
    def same(self, a, b):
        return (a.ev is b.ev and a.store == b.store and a.exc == b.exc and a.ep == b.ep and a.wr == b.wr and a.cnt == b.cnt
                and a.vmap == b.vmap and a.frame == b.frame and a.loops == b.loops)

    def merge(self, sts):
        if len(sts) < 2:
            return sts
        out = []
        for s in sts:
            for o in out:
                if self.same(o, s):
                    if o.facts != s.facts and not self.cfg.lossy:
                        if o.facts <= s.facts:
                            pass
                        elif s.facts <= o.facts:
                            o.facts = s.facts
                        else:
                            continue
                    elif o.facts != s.facts:
                        keep = o.facts & s.facts
                        for f in o.facts - keep:
                            if entails(s.facts, f):
                                keep = keep | {f}
                        for f in s.facts - keep:
                            if entails(o.facts, f):
                                keep = keep | {f}
                        o.facts = keep
                    o.nt = max(o.nt, s.nt)
                    o.nf = max(o.nf, s.nf)
                    break
            else:
                out.append(s)
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        """-> [(state, value)]"""
        self.tick()
        if e is None:
            return [(st, ZERO)]
        k = e[0]
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unknown('expr ' + k)
        return m(e, st)

    def rv(self, e, st, ty=None):
        """scalar rvalue"""
        return [(s, self.scalar(s, v)) for s, v in self.ev(e, st)]

    def lv(self, e, st):
        """-> [(state, loc)]"""
        k = e[0]
        if k == 'var':
            return [(st, self.varloc(st, e[2], e[3]))]
        if k == 'gvar':
            return [(st, ('g', e[2]))]
        if k == 'mem':
            if e[3]:
                return [(s, norm_loc(('f', at(v), e[4]))) for s, v in self.rv(e[2], st)]
            return [(s, ('f', l, e[4])) for s, l in self.lv(e[2], st)]
        if k == 'idx':
            out = []
            base = e[2]
            if base[0] == 'cast' and base[2] == 'ArrayToPointerDecay':
                for s, l in self.lv(base[5], st):
                    for s2, i in self.rv(e[3], s):
                        out.append((s2, ('i', l, i)))
                return out
            for s, p in self.rv(base, st):
                for s2, i in self.rv(e[3], s):
                    out.append((s2, norm_loc(self.ploc(p, i))))
            return out
        if k == 'un' and e[2] == '*':
            return [(s, norm_loc(at(v))) for s, v in self.rv(e[3], st)]
        if k == 'un' and e[2] in ('pre++', 'pre--'):
            out = []
            for s, l in self.lv(e[3], st):
                v = self.load(s, l, e[4])
                self.write(s, l, v + (1 if e[2] == 'pre++' else -1), e[1])
                out.append((s, l))
            return out
        if k == 'asg':
            return self.assign(e, st)
        if k == 'cond':
            out = []
            T, F = self.branch(e[2], st)
            for s in T:
                out += self.lv(e[3], s)
            for s in F:
                out += self.lv(e[4], s)
            return out
        if k == 'cast':
            # derived/base adjustments keep the location; array decay
            return self.lv(e[5], st)
        if k == 'bin' and e[2] == ',':
            out = []
            for s, _ in self.ev(e[3], st):
                out += self.lv(e[4], s)
            return out
        if k == 'this':
            return [(st, at(addr(st.thisof[st.frame])))]
        out = []
        for s, v in self.ev(e, st):
            if isinstance(v, tuple) and v and v[0] in ('REF', 'R'):
                out.append((s, v[1]))
            else:
                l = self.newtmp(s)
                s.store[l] = v
                out.append((s, l))
        return out

    def ploc(self, p, i):
        k = p.single()
        if isinstance(k, tuple) and k[0] == 'addr' and k[1][0] == 'i':
            return ('i', k[1][1], k[1][2] + i)
        q = at(p)
        if q[0] == 'i':
            return ('i', q[1], q[2] + i)
        return ('i', q, i)

    def x_int(self, e, st):
        v = e[2]
        return [(st, const(int(v)))]

    def x_flt(self, e, st):
        v = e[2]
        if float(v) == int(v):
            return [(st, const(int(v)))]
        return [(st, atom(('flt', v)))]

    def x_str(self, e, st):
        return [(st, atom(('str', e[2]), 'ptr'))]

    def x_null(self, e, st):
        return [(st, ZERO)]

    def x_fn(self, e, st):
        return [(st, atom(('fn', e[2]), 'ptr'))]

    def x_this(self, e, st):
        return [(st, addr(st.thisof[st.frame]))]

    def x_var(self, e, st):
        l = self.varloc(st, e[2], e[3])
        return [(st, ('REF', l))]

    def x_gvar(self, e, st):
        return [(st, ('REF', ('g', e[2])))]

    def x_mem(self, e, st):
        return [(s, ('REF', l)) for s, l in self.lv(e, st)]

    x_idx = x_mem

    def x_rv(self, e, st):
        out = []
        for s, l in self.lv(e[2], st):
            out.append((s, self.load(s, l, e[3])))
        return out

    def x_pdtor(self, e, st):
        out = []
        for s, l in self.lv(e[2], st):
            self.event(s, 'dtor', '', l, (), e[1])
            out.append((s, ZERO))
        return out

    def x_opaque(self, e, st):
        if e[2] in ('sizeof', 'typeid', 'valueinit'):
            return [(st, ZERO if e[2] == 'valueinit' else atom(('sizeof', e[4], e[1]), 'u64'))]
        if e[2] == 'ImplicitValueInitExpr':
            return [(st, ZERO)]
        if e[2] == 'CXXNoexceptExpr':
            return [(st, ZERO)]
        self.unknown_constructs += 1
        outs = [st]
        for kx in e[3]:
            nx = []
            for s in outs:
                nx += [a for a, _ in self.ev(kx, s)]
            outs = nx
        return [(s, atom(('opq', e[2], e[1], self.serial(s, 'opq')), e[4])) for s in outs]

    def x_throw(self, e, st):
        ty = e[2]
        if ty == 'rethrow':
            ty = st.exc or 'rethrow'
        self.event(st, 'throw', ty, None, (), e[1])
        st.exc = ty
        self.sinks[-1].append(st)
        return []

    def x_lambda(self, e, st):
        return [(st, ('LAM', e[2], st.frame))]

    def x_init(self, e, st):
        ty = e[2]
        b = bare(ty)
        if not is_rec(ty) and not b.startswith('['):
            if len(e[3]) == 1:
                return self.ev(e[3][0], st)
            if not e[3]:
                return [(st, ZERO)]
        l = self.newtmp(st)
        return [(s, ('R', l, ty)) for s in self.init_into(e, st, l)]

    def init_into(self, e, st, loc):
        ty = e[2]
        sts = [st]
        r = self.P.rec_of_type(ty)
        for i, x in enumerate(e[3]):
            sub = ('f', loc, r.fields[i]['name']) if r and i < len(r.fields) else ('i', loc, const(i))
            nx = []
            for s in sts:
                nx += self.eval_into(x, s, sub, None)
            sts = nx
        if not r:
            for s in sts:
                s.store[('f', loc, '$size')] = const(len(e[3]))
        return sts

    def x_cond(self, e, st):
        out = []
        T, F = self.branch(e[2], st)
        for s in T:
            out += self.ev(e[3], s)
        for s in F:
            out += self.ev(e[4], s)
        return out

    def x_cast(self, e, st):
        ck, frm, to = e[2], e[3], e[4]
        if ck == 'ArrayToPointerDecay':
            if e[5][0] == 'str':
                return self.ev(e[5], st)
            return [(s, addr(('i', l, ZERO))) for s, l in self.lv(e[5], st)]
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            out = []
            for s, v in self.rv(e[5], st):
                if not v.t:
                    out.append((s, const(1 if v.c else 0)))
                else:
                    out.append((s, self.cmpval(s, self.fact_of(v))))
            return out
        if ck == 'NullToPointer':
            return [(st, ZERO)]
        if ck == 'ToVoid':
            return [(s, ZERO) for s, _ in self.ev(e[5], st)]
        if ck == 'Dynamic':
            out = []
            for s, v in self.ev(e[5], st):
                if isinstance(v, Lin):
                    if not v.t and v.c == 0:
                        out.append((s, ZERO))
                        continue
                    a = atom(('dyncast', bare(to), v), 'ptr')
                    # result is null or the same object
                    out.append((s, a))
                else:
                    out.append((s, v))
            return out
        if ck in ('IntegralCast',):
            out = []
            for s, v in self.ev(e[5], st):
                if isinstance(v, Lin) and not v.t:
                    v = const(self.wrapc(v.c, to))
                elif isinstance(v, Lin) and self.cfg.narrow:
                    n, m = width(to), width(frm)
                    lossy_ = n and m and n < m
                    if not lossy_ and n == 64 and m == 32 and e[5][0] == 'bin' and '*' in e[5][:4]:
                        n, lossy_ = 32, True        # 32-bit product widened too late
                    if lossy_ and not entails(s.facts, ('le', v - ((1 << n) - 1))):
                        v = atom(('trunc', n, v), to)
                out.append((s, v))
            return out
        if ck == 'FloatingToIntegral':
            return [(s, v) for s, v in self.rv(e[5], st)]
        return self.ev(e[5], st)

    def wrapc(self, c, ty):
        b = bare(ty)
        if b.startswith('E:'):
            b = b.rsplit(':', 1)[-1]
        if b[:1] in 'ui' and b[1:].isdigit():
            n = int(b[1:])
            c &= (1 << n) - 1
            if b[0] == 'i' and c >= 1 << (n - 1):
                c -= 1 << n
        return c

    def x_un(self, e, st):
        op = e[2]
        if op in ('pre++', 'pre--', '*'):
            return [(s, ('REF', l)) for s, l in self.lv(e, st)]
        if op in ('post++', 'post--'):
            out = []
            for s, l in self.lv(e[3], st):
                v = self.load(s, l, e[4])
                self.write(s, l, v + (1 if op == 'post++' else -1), e[1])
                out.append((s, v))
            return out
        if op == '&':
            if e[3][0] == 'fn':
                return self.ev(e[3], st)
            return [(s, addr(l)) for s, l in self.lv(e[3], st)]
        if op == '!':
            T, F = self.branch(e[3], st)
            # single symbolic comparison: keep as a value
            out = [(s, ZERO) for s in T] + [(s, ONE) for s in F]
            return out
        if op == '-':
            return [(s, -v) for s, v in self.rv(e[3], st)]
        if op == '+':
            return self.rv(e[3], st)
        if op == '~':
            out = []
            for s, v in self.rv(e[3], st):
                if not v.t:
                    out.append((s, const(self.wrapc(~v.c, e[4]))))
                else:
                    k = v.single()
                    if isinstance(k, tuple) and k[0] == 'op' and k[1] == '~':
                        out.append((s, k[2]))
                    else:
                        out.append((s, atom(('op', '~', v, ZERO), e[4])))
            return out
        return [(s, atom(('op', op, v, ZERO), e[4])) for s, v in self.rv(e[3], st)]

    def arith(self, st, op, a, b, ty, lty=''):
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            if not a.t:
                return b.scale(a.c)
            if not b.t:
                return a.scale(b.c)
            for u, v in ((a, b), (b, a)):
                k = u.single()
                if isinstance(k, tuple) and k[0] == 'op' and k[1] == '/' and k[3] == v and v.single() is not None and bare(ty).startswith('u'):
                    return k[2] - self.mod(st, k[2], v, ty)      # (x / n) * n
            x, y = sorted((a, b), key=show)
            return atom(('op', '*', x, y), ty)
        fl = bare(ty).startswith('f')
        if op == '/':
            if not b.t and b.c:
                if b.c == 1:
                    return a
                if not a.t and not fl:
                    q = abs(a.c) // abs(b.c)
                    return const(q if (a.c >= 0) == (b.c > 0) else -q)
                if all(k % b.c == 0 for _, k in a.t) and a.c % b.c == 0:
                    return Lin(a.c // b.c, tuple((x, k // b.c) for x, k in a.t))
            q = atom(('op', '/', a, b), ty)
            if not b.t and b.c > 0 and bare(ty).startswith('u'):
                st.facts = st.facts | {('le', q.scale(b.c) - a), ('le', a - q.scale(b.c) - (b.c - 1))}
            elif bare(ty).startswith('u'):
                st.facts = st.facts | {('le', q - a)}
            return q
        if op == '%' and bare(ty).startswith('u') and b.t and b.c == 0 and len(b.t) == 1 and b.t[0][1] == 1:
            return self.mod(st, a, b, ty)
        if op == '%':
            if not b.t and b.c:
                if not a.t:
                    return const(a.c % b.c if a.c >= 0 else -((-a.c) % b.c))
                if bare(ty).startswith('u') and entails(st.facts, ('le', a - (b.c - 1))):
                    return a
            r = atom(('op', '%', a, b), ty)
            if bare(ty).startswith('u'):
                st.facts = st.facts | {('le', r - b + 1), ('le', r - a)} if True else st.facts
            return r
        if op == '<<':
            if not b.t and 0 <= b.c < 64:
                if a.t:
                    return a.scale(1 << b.c)
                return const(self.wrapc(a.c << b.c, ty))
            return atom(('op', '<<', a, b), ty)
        if op == '>>':
            if not b.t and 0 <= b.c < 64:
                return self.arith(st, '/', a, const(1 << b.c), ty)
            return atom(('op', '>>', a, b), ty)
        if op == '&':
            if not a.t and not b.t:
                return const(a.c & b.c)
            if not a.t:
                a, b = b, a
            if not b.t:
                if b.c == 0:
                    return ZERO
                r = atom(('op', '&', a, b), ty)
                if b.c > 0:
                    st.facts = st.facts | {('le', r - b.c), ('le', -r)}
                    if bare(ty).startswith('u'):
                        st.facts = st.facts | {('le', r - a)}
                return r
            if a == b:
                return a
            for m_, v_ in ((a, b), (b, a)):
                # v & (n-1): the code base only masks with power-of-two sizes minus one
                if m_.c == -1 and len(m_.t) == 1 and m_.t[0][1] == 1:
                    return self.mod(st, v_, m_ + 1, ty, True)
            x, y = sorted((a, b), key=show)
            r = atom(('op', '&', x, y), ty)
            if bare(ty).startswith('u'):
                st.facts = st.facts | {('le', r - a), ('le', r - b)}
            return r
        if op in ('|', '^'):
            if not a.t and not b.t:
                return const((a.c | b.c) if op == '|' else (a.c ^ b.c))
            if a == ZERO:
                return b
            if b == ZERO:
                return a
            if a == b:
                return a if op == '|' else ZERO
            x, y = sorted((a, b), key=show)
            return atom(('op', op, x, y), ty)
        return atom(('op', op, a, b), ty)

    def mod(self, st, a, n, ty, mask=False):
        # flatten nested residues of the same modulus
        for _ in range(8):
            for at_, k in a.t:
                key = atom_key(at_)
                if isinstance(key, tuple) and key[0] == 'mod' and key[2] == n:
                    a = a - Lin(0, ((at_, k),)) + key[1].scale(k)
                    break
            else:
                break
        nk = n.t[0][0]
        if mask and a.c >= 1 << 31:
            a = a - (1 << 32)        # a power-of-two size divides 2^32
        a = Lin(a.c, tuple((x, k) for x, k in a.t if x != nk))
        if not a.t and a.c == 0:
            return ZERO
        if a.c == 0 and len(a.t) == 1 and a.t[0][1] == 1 and entails(st.facts, ('le', a - n + 1)):
            return a
        r = atom(('mod', a, n), ty)
        st.facts = st.facts | {('le', r - n + 1)}
        return r

    CMP = {'<': lambda a, b: ('le', a - b + 1), '<=': lambda a, b: ('le', a - b), '>': lambda a, b: ('le', b - a + 1),
           '>=': lambda a, b: ('le', b - a), '==': lambda a, b: ('eq', a - b), '!=': lambda a, b: ('ne', a - b)}

    def compare(self, st, op, a, b, lty=''):
        if op in ('==', '!='):
            # a local object is none of those that existed before the call
            x, y = a.single(), b.single()
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'addr':
                k = sorted('loc' if root(l)[0] in ('tmp', 'var') else root(l)[0] for l in (x[1], y[1]))
                if k in (['loc', 'this'], ['at', 'loc'], ['g', 'loc']):
                    return ZERO if op == '==' else ONE
        f = self.CMP[op](a, b)
        if bare(lty).startswith('f') and op in ('<', '>'):
            # strict comparison over reals
            f = ('le', (a - b if op == '<' else b - a))
            f = canon(*f)
            v = atom(('cmpf', op, a, b), 'bool')
            return v
        return self.cmpval(st, f)

    def x_bin(self, e, st):
        op = e[2]
        if op in ('&&', '||'):
            T, F = self.branch(e, st)
            return [(s, ONE) for s in T] + [(s, ZERO) for s in F]
        if op == ',':
            out = []
            for s, _ in self.ev(e[3], st):
                out += self.ev(e[4], s)
            return out
        out = []
        for s, a in self.rv(e[3], st):
            for s2, b in self.rv(e[4], s):
                if op in self.CMP:
                    out.append((s2, self.compare(s2, op, a, b, e[6])))
                else:
                    lt = bare(e[6])
                    if op == '-' and lt.startswith('*'):
                        out.append((s2, a - b))
                    elif op == '-' and not b.t and b.c > 0 and len(a.t) == 1 and bare(e[5]) in ('u32', 'u64') and not entails(s2.facts, ('le', b - a)):
                        # unsigned wrap-around below zero is a path of its own
                        w = s2.copy()
                        if w.add(('le', a - b + 1)):
                            out.append((w, a - b + (1 << int(bare(e[5])[1:]))))
                        if s2.add(('le', b - a)):
                            out.append((s2, a - b))
                    elif self.cfg.wrap and op in '+-' and bare(e[5]) == 'u64' and b.t and isinstance(a, Lin):
                        # 64-bit sums and differences: the wrapping case is a path of its own
                        v = a + b if op == '+' else a - b
                        ov = ('le', const(1 << 64) - v) if op == '+' else ('le', v + 1)
                        w = s2.copy()
                        # the operands themselves are in range
                        rng = [('le', x - ((1 << 64) - 1)) for x in (a, b) if x.t]
                        if not entails(s2.facts, neg(norm_fact(ov))) and w.add(ov) and all(w.add(x) for x in rng):
                            out.append((w, v - (1 << 64) if op == '+' else v + (1 << 64)))
                        if s2.add(neg(norm_fact(ov))):
                            out.append((s2, v))
                    else:
                        out.append((s2, self.arith(s2, op, a, b, e[5], e[6])))
        return out

    def assign(self, e, st):
        op, lhs, rhs, ty, ct = e[2], e[3], e[4], e[5], e[6]
        out = []
        for s, v in self.ev(rhs, st):
            for s2, l in self.lv(lhs, s):
                if op == '':
                    if isinstance(v, tuple) and v and v[0] in ('REF', 'R') and is_rec(ty):
                        self.copy_obj(s2, v[1], l, ty, e[1])
                    elif isinstance(v, tuple) and v and v[0] == 'LAM':
                        s2.store[l] = v
                    else:
                        self.write(s2, l, self.scalar(s2, v), e[1])
                else:
                    old = self.load(s2, l, ty)
                    nv = self.arith(s2, op, old, self.scalar(s2, v), ct or ty)
                    self.write(s2, l, nv, e[1])
                out.append((s2, l))
        return out

    def x_asg(self, e, st):
        return [(s, ('REF', l)) for s, l in self.assign(e, st)]

    # ------------------------------------------------------------ objects
    def structural(self, ty):
        """canonical class if objects of this type are modelled field by field"""
        r = self.P.rec_of_type(ty)
        if r is None:
            return None
        n = r.rec
        if self.cfg.sptr_model and n in SPTR:
            return None
        return r.cls

    def copy_obj(self, st, src, dst, ty, line=0, move=False, ev=True):
        if src == dst:
            return
        cls = self.structural(ty)
        rn = rname(ty)
        if cls:
            fl = self.P.all_fields(cls)
            vals = []
            for f, _ in fl:
                if is_rec(f['ty']) and not f['ty'].startswith(('&', '*')):
                    continue
                vals.append((f['name'], self.load(st, ('f', src, f['name']), f['ty'])))
            self.kill_sub(st, dst)
            st.ep[dst] = st.ep.get(dst, 0) + 1
            for n, v in vals:
                st.store[('f', dst, n)] = v
            for f, _ in fl:
                if is_rec(f['ty']) and not f['ty'].startswith(('&', '*')):
                    self.copy_obj(st, ('f', src, f['name']), ('f', dst, f['name']), f['ty'], line, move, False)
            if ev and not self.is_local(dst):
                self.event(st, 'write', dst[2] if dst[0] == 'f' else '', dst, (('copy', src),), line)
            return
        v = self.load(st, src, ty)
        sub = self.pair_members(st, src) if rn == 'std::pair' else {}
        sz = None
        if rn in CONT or rn == '':
            sz = self.load(st, ('f', src, '$size'), 'u64')
        if ev:
            self.write(st, dst, v, line)
        else:
            self.kill_sub(st, dst)
            st.store[dst] = v
        st.store.update((('f', dst, n), x) for n, x in sub.items())
        if sz is not None and rn in CONT:
            st.store[('f', dst, '$size')] = sz
            if move:
                self.havoc(st, src)
                st.store[('f', src, '$size')] = ZERO
        if move and (rn in SMART or rn in SPTR):
            st.store[src] = ZERO

    def pair_members(self, st, src):
        return {n: st.store[('f', src, n)] for n in ('first', 'second') if isinstance(st.store.get(('f', src, n)), Lin)}

    def eval_into(self, e, st, loc, ty):
        """initialise loc from expression; -> [states]"""
        if e is None:
            return [st]
        if e[0] == 'ctor':
            return self.construct(e, st, loc)
        if e[0] == 'init' and (is_rec(e[2]) or bare(e[2]).startswith('[')):
            return self.init_into(e, st, loc)
        out = []
        for s, v in self.ev(e, st):
            if isinstance(v, tuple) and v and v[0] in ('R', 'REF'):
                if v[0] == 'R' or (ty and is_rec(ty)):
                    self.copy_obj(s, v[1], loc, v[2] if v[0] == 'R' and len(v) > 2 else (ty or ''), 0, False, not self.is_local(loc))
                else:
                    self.write(s, loc, self.load(s, v[1], ty), e[1], init=self.is_local(loc))
            elif isinstance(v, tuple) and v and v[0] == 'LAM':
                s.store[loc] = v
            else:
                self.write(s, loc, v, e[1], init=self.is_local(loc))
            out.append(s)
        return out

    def x_ctor(self, e, st):
        # copy elision for temporaries: copy/move from prvalue
        l = self.newtmp(st)
        return [(s, ('R', l, e[2])) for s in self.construct(e, st, l)]

    def evargs(self, args, st, sig=None):
        """-> [(state, [values])]; values may be Lin / ('REF',loc) / ('R',loc,ty) / LAM"""
        res = [(st, [])]
        for a in args:
            nx = []
            for s, vs in res:
                for s2, v in self.ev(a, s):
                    nx.append((s2, vs + [v]))
            res = nx
        return res

    def construct(self, e, st, loc):
        _, line, ty, key, args, kind, istmp, sig = e
        rn = rname(ty)
        out = []
        if any(h in rn for h in ('basic_ostringstream', 'basic_stringstream', 'SpartaException')) or rn.startswith('sparta::log::') or rn.startswith('std::ios'):
            return [st]
        if kind in ('copy', 'move') and len(args) == 1 and args[0][0] == 'ctor' and bare(args[0][2]) == bare(ty):
            return self.construct(args[0], st, loc)
        f = self.P.fns.get(key)
        for s, vs in self.evargs(args, st):
            # copy/move
            if kind in ('copy', 'move') and vs and isinstance(vs[0], tuple) and vs[0] and vs[0][0] in ('REF', 'R'):
                if vs[0][0] == 'LAM':
                    s.store[loc] = vs[0]
                    out.append(s)
                    continue
                src = vs[0][1]
                if src in s.store and isinstance(s.store[src], tuple):
                    s.store[loc] = s.store[src]
                    out.append(s)
                    continue
                usr = f is not None and not f.d.get('implicit') and self.inlinable(f, s) and self.structural(ty)
                if not usr:
                    self.copy_obj(s, src, loc, ty, line, kind == 'move' and vs[0][0] != 'R', not self.is_local(loc))
                    if vs[0][0] != 'R' and not self.is_local(loc):
                        self.event(s, 'ctor', rn, loc, tuple(self.argv(s, v) for v in vs), line, kind)
                    out.append(s)
                    continue
            if vs and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == 'LAM':
                s.store[loc] = vs[0]
                out.append(s)
                continue
            if rn in LOCKS:
                m = vs[0][1] if vs and isinstance(vs[0], tuple) else None
                if not (len(vs) > 1):
                    self.event(s, 'lock', show_loc(m) if m else '?', m, (), line)
                    s.store[('f', loc, '$mutex')] = ('LOCK', m)
                out.append(s)
                continue
            if rn in SMART or rn in SPTR and self.cfg.sptr_model:
                if not vs:
                    v = ZERO
                else:
                    v = self.scalar(s, vs[0])
                    if isinstance(vs[0], tuple) and vs[0] and vs[0][0] in ('REF',) and kind != 'copy' and '&&' in sig:
                        s.store[vs[0][1]] = ZERO
                s.store[loc] = v
                if not self.is_local(loc):
                    self.event(s, 'write', loc[2] if loc[0] == 'f' else '', loc, (v,), line)
                out.append(s)
                continue
            if rn in CONT:
                self.kill_sub(s, loc)
                s.store.pop(loc, None)
                st_ = ('f', loc, '$size')
                if not vs:
                    s.store[st_] = ZERO
                elif rn in ('std::vector', 'std::deque', 'std::list') and isinstance(vs[0], Lin):
                    s.store[st_] = vs[0]
                    if len(vs) > 1:
                        s.store[('f', loc, '$fill')] = self.scalar(s, vs[1])
                elif isinstance(vs[0], tuple) and vs[0][0] == 'R':
                    s.store[st_] = self.load(s, ('f', vs[0][1], '$size'), 'u64')
                else:
                    self.havoc(s, loc)
                out.append(s)
                continue
            if f is None or not self.structural(ty) or not self.inlinable(f, s):
                if self.structural(ty) and kind == 'default' and f is None and not vs:
                    self.default_init(s, loc, bare(ty)[2:])
                    out.append(s)
                    continue
                avs = tuple(self.argv(s, v) for v in vs)
                self.kill_sub(s, loc)
                if self.structural(ty) or rname(ty) == '':
                    self.havoc(s, loc)
                else:
                    sub = {}
                    if rn == 'std::pair' and len(vs) == 1 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] in ('R', 'REF'):
                        sub = self.pair_members(s, vs[0][1])
                    s.store[loc] = atom(('mk', rn) + avs, ty)
                    s.store.update((('f', loc, n), v) for n, v in sub.items())
                    if rn == 'std::pair' and len(vs) == 2:
                        for n, v in zip(('first', 'second'), vs):
                            if isinstance(v, Lin) or isinstance(v, tuple) and v and v[0] == 'REF':
                                v = self.scalar(s, v)
                                if isinstance(v, Lin):
                                    s.store[('f', loc, n)] = v
                if self.structural(ty) or self.P.rec_of_type(ty):
                    self.event(s, 'ctor', rn, loc, avs, line, kind)
                out.append(s)
                continue
            if not self.is_local(loc):
                self.event(s, 'ctor', rn, loc, tuple(self.argv(s, v) for v in vs), line, kind)
            for s2, _ in self.inline(f, s, loc, vs, args, line):
                out.append(s2)
        return out

    def default_init(self, st, loc, cls):
        r = self.P.recs.get(cls)
        if not r:
            return
        for b in r.bases:
            self.default_init(st, loc, b[1])
        for f in r.fields:
            if f['init'] is not None:
                self.eval_into(f['init'], st, ('f', loc, f['name']), f['ty'])
            else:
                rn = rname(f['ty'])
                if rn in CONT:
                    st.store[('f', ('f', loc, f['name']), '$size')] = ZERO
                elif rn in SMART or rn in SPTR:
                    st.store[('f', loc, f['name'])] = ZERO
                elif self.structural(f['ty']) and not f['ty'].startswith(('*', '&')):
                    self.default_init(st, ('f', loc, f['name']), bare(f['ty'])[2:])

    def argv(self, st, v):
        """argument as recorded in events"""
        if isinstance(v, tuple) and v and v[0] == 'REF':
            return ('REF', v[1], self.load(st, v[1]))
        return v

    def x_new(self, e, st):
        _, line, ty, init, placement, asz = e
        out = []
        if placement:
            res = self.evargs(placement, st)
            for s, vs in res:
                p = self.scalar(s, vs[0])
                l = norm_loc(at(p))
                self.event(s, 'pnew', bare(ty), l, (p,), line)
                for s2 in (self.eval_into(init, s, l, ty) if init is not None else [s]):
                    out.append((s2, p))
            return out
        res = self.rv(asz, st) if asz is not None else [(st, None)]
        for s, n in res:
            i = self.serial(s, 'new')
            l = ('new', i, bare(ty), line)
            if n is not None:
                p = addr(('i', l, ZERO))
                self.event(s, 'newarr', bare(ty), l, (n,), line)
                s.store[('f', l, '$size')] = n
                out.append((s, p))
                continue
            self.event(s, 'new', bare(ty), l, (), line)
            for s2 in (self.eval_into(init, s, l, ty) if init is not None else [s]):
                s2.dyn[l] = bare(ty)[2:] if bare(ty).startswith('R:') else None
                out.append((s2, addr(l)))
        return out

    def x_del(self, e, st):
        out = []
        for s, v in self.rv(e[2], st):
            self.event(s, 'del', e[4], norm_loc(at(v)), (v,), e[1], e[3])
            out.append((s, ZERO))
        return out

    # ------------------------------------------------------------ calls
    def inlinable(self, f, st):
        c = self.cfg
        if f.name in c.opaque or f.short in c.opaque:
            return False
        for o in c.opaque:
            if o.endswith('*') and f.name.startswith(o[:-1]):
                return False
        if f.key in [s.key for s in st.stack]:
            return False
        if len(st.stack) >= c.maxdepth:
            return False
        if f.size > c.max_inline_size:
            return False
        if f.body is None:
            return False
        return True

    def is_ignored(self, name, ret, e):
        for p in IGNORE_PREFIX:
            if name.startswith(p):
                return True
        if name.endswith('operator<<'):
            t = bare(ret)
            for h in STREAM_HINTS:
                if h in t:
                    return True
            if t.startswith('&'):
                return True
        return False

    def x_call(self, e, st):
        c = Call(e)
        self.callsites += 1
        name = c.name
        if name == '__builtin_expect':
            return self.ev(c.args[0], st)
        if self.is_ignored(name, c.ret, e):
            if self.cfg.quiet_log and c.ret == 'bool':
                return [(st, ZERO)]
            return [(st, atom(('stream',), c.ret))]
        stub = self.cfg.stubs.get(name) or self.cfg.stubs.get(c.short)
        if stub:
            r = stub(self, st, c)
            if r is not None:
                return r
        if name in ('std::terminate', 'abort', 'exit', '__assert_fail', 'std::abort', 'std::exit'):
            self.event(st, 'abort', name, None, (), c.line)
            st.exc = 'abort'
            self.sinks[-1].append(st)
            return []
        if name in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::move_if_noexcept'):
            return self.ev(c.args[0], st)
        if name in ('std::addressof', '__builtin_addressof'):
            return [(s, addr(l)) for s, l in self.lv(c.args[0], st)]
        if name in ('std::min', 'std::max') and len(c.args) == 2:
            return self.minmax(c, st)
        if name == 'std::make_unique' or name == 'std::make_shared':
            return self.make_smart(c, st)
        if name == 'std::numeric_limits::max':
            return [(st, atom(('numlim', c.ret), c.ret))]
        if name in ('std::swap', 'std::exchange'):
            return self.swapx(c, st)
        # object
        if c.obj is not None:
            out = []
            objs = ([(s, norm_loc(at(v))) for s, v in self.rv(c.obj, st)] if c.arrow else self.lv(c.obj, st))
            for s, l in objs:
                out += self.method(c, s, norm_loc(l))
            return out
        return self.func(c, st)

    def minmax(self, c, st):
        out = []
        mx = c.name == 'std::max'
        for s, vs in self.evargs(c.args, st):
            a, b = self.scalar(s, vs[0]), self.scalar(s, vs[1])
            if bare(c.ret).startswith('f') or bare(c.ret).startswith('&f'):
                out.append((s, atom((c.name, a, b), bare(c.ret))))
                continue
            s2 = s.copy()
            # max: a<b -> b else a
            if s.add(('le', a - b + 1)):
                out.append((s, b if mx else a))
            if s2.add(('le', b - a)):
                out.append((s2, a if mx else b))
        return out

    def swapx(self, c, st):
        out = []
        for s, vs in self.evargs(c.args, st):
            if c.name == 'std::swap' and all(isinstance(v, tuple) and v[0] == 'REF' for v in vs[:2]):
                a, b = vs[0][1], vs[1][1]
                t = self.newtmp(s)
                ty = c.sig.split(',')[0] if c.sig else ''
                if is_rec(ty):
                    self.copy_obj(s, a, t, ty, c.line, False, False)
                    self.copy_obj(s, b, a, ty, c.line)
                    self.copy_obj(s, t, b, ty, c.line)
                else:
                    va, vb = self.load(s, a, bare(ty)), self.load(s, b, bare(ty))
                    self.write(s, a, vb, c.line)
                    self.write(s, b, va, c.line)
                out.append((s, ZERO))
            elif c.name == 'std::exchange' and isinstance(vs[0], tuple):
                old = self.load(s, vs[0][1])
                self.write(s, vs[0][1], self.scalar(s, vs[1]), c.line)
                out.append((s, old))
            else:
                out.append((s, ZERO))
        return out

    def make_smart(self, c, st):
        out = []
        # element type from return type R:std::unique_ptr<X,...>
        t = bare(c.ret)
        i = t.find('<')
        depth = 0
        el = ''
        for ch in t[i + 1:]:
            if ch == '<':
                depth += 1
            if ch == '>':
                if depth == 0:
                    break
                depth -= 1
            if ch == ',' and depth == 0:
                break
            el += ch
        el = el.strip()
        for s, vs in self.evargs(c.args, st):
            n = self.serial(s, 'new')
            l = ('new', n, 'R:' + el, c.line)
            self.event(s, 'new', 'R:' + el, l, tuple(self.argv(s, v) for v in vs), c.line)
            s.dyn[l] = el
            ctors = [f for f in self.P.by_cls.get(el, []) if f.isctor and len(f.params) == len(vs)]
            tmp = self.newtmp(s)
            if len(ctors) == 1 and self.inlinable(ctors[0], s) and self.structural('R:' + el):
                for s2, _ in self.inline(ctors[0], s, l, vs, c.args, c.line):
                    s2.store[tmp] = addr(l)
                    out.append((s2, ('R', tmp, c.ret)))
            else:
                s.store[tmp] = addr(l)
                out.append((s, ('R', tmp, c.ret)))
        return out

    def dynclass(self, st, loc):
        if loc in st.dyn:
            return st.dyn[loc]
        if loc == ('this',):
            return self.cfg.thiscls
        return None

    def method(self, c, st, obj):
        name, short = c.name, c.short
        recn = c.rec
        if short.startswith('~'):
            self.event(st, 'dtor', recn, obj, (), c.line)
            return [(st, ZERO)]
        lamv = st.store.get(obj)
        if short == 'operator()' and isinstance(lamv, tuple) and lamv and lamv[0] == 'LAM':
            out = []
            for s, vs in self.evargs(c.args, st):
                out += self.call_lambda(lamv, s, vs, c.args, c.line, c.key)
            return out
        if recn.startswith('std::') or name.startswith('std::'):
            r = self.std_method(c, st, obj)
            if r is not None:
                return r
        if recn in SPTR and self.cfg.sptr_model:
            r = self.smart_method(c, st, obj)
            if r is not None:
                return r
        f = None
        key = c.key
        if c.virt:
            dc = self.dynclass(st, obj)
            if dc:
                f = self.P.resolve_virtual(dc, key)
            if f is None:
                if not self.P.overriders.get(key):
                    f = self.P.fns.get(key)
        else:
            f = self.P.fns.get(key)
        # implicit/defaulted assignment
        if short == 'operator=' and (f is None or f.d.get('implicit')) and len(c.args) == 1:
            out = []
            for s, v in self.ev(c.args[0], st):
                if isinstance(v, tuple) and v and v[0] in ('REF', 'R'):
                    t = c.ret
                    self.copy_obj(s, v[1], obj, t, c.line, '&&' in c.sig)
                elif isinstance(v, tuple) and v and v[0] == 'LAM':
                    s.store[obj] = v
                else:
                    self.write(s, obj, self.scalar(s, v), c.line)
                out.append((s, ('REF', obj)))
            return out
        out = []
        for s, vs in self.evargs(c.args, st):
            if f is not None and self.inlinable(f, s):
                out += self.inline(f, s, obj, vs, c.args, c.line)
            else:
                out += self.opaque_call(c, s, obj, vs)
        return out

    def func(self, c, st):
        f = self.P.fns.get(c.key)
        name = c.name
        if name.startswith('std::'):
            r = self.std_func(c, st)
            if r is not None:
                return r
        out = []
        for s, vs in self.evargs(c.args, st):
            if f is not None and self.inlinable(f, s):
                out += self.inline(f, s, s.thisof.get(s.frame) if not c.static else ('static',), vs, c.args, c.line)
            else:
                out += self.opaque_call(c, s, None, vs)
        return out

    def x_icall(self, e, st):
        out = []
        _, line, callee, args, obj, ty = e
        for s, vs in self.evargs(args, st):
            for s2, cv in self.ev(callee, s):
                if isinstance(cv, tuple) and cv[0] == 'REF':
                    v = s2.store.get(cv[1])
                    cv = v if isinstance(v, tuple) else self.load(s2, cv[1])
                if isinstance(cv, tuple) and cv and cv[0] == 'LAM':
                    out += self.call_lambda(cv, s2, vs, args, line, None)
                    continue
                if isinstance(cv, Lin):
                    k = cv.single()
                    if isinstance(k, tuple) and k[0] == 'fn' and k[1] in self.P.fns and self.inlinable(self.P.fns[k[1]], s2):
                        out += self.inline(self.P.fns[k[1]], s2, ('static',), vs, args, line)
                        continue
                n = self.serial(s2, 'icall')
                self.event(s2, 'icall', show(cv) if isinstance(cv, Lin) else '?', None, tuple(self.argv(s2, v) for v in vs), line, cv)
                if self.cfg.on_icall:
                    self.cfg.on_icall(self, s2)
                self.may_throw(s2, 'icall', line)
                out.append((s2, atom(('icall', show(cv) if isinstance(cv, Lin) else '?', n), ty)))
        return out

    def call_lambda(self, lam, st, vs, args, line, key):
        f = self.P.fns.get(lam[1])
        if f is None and key:
            f = self.P.fns.get(key)
        if f is None or not self.inlinable(f, st):
            n = self.serial(st, 'lamcall')
            self.event(st, 'call', 'lambda', None, tuple(self.argv(st, v) for v in vs), line)
            return [(st, atom(('lamcall', lam[1], n)))]
        return self.inline(f, st, st.thisof.get(lam[2], ('this',)), vs, args, line, parent=lam[2])

    def may_throw(self, st, name, line):
        """inside a try block an opaque call may also raise"""
        if self.trydepth > 0 or name in self.cfg.throwing:
            s2 = st.copy()
            s2.exc = '?'
            self.event(s2, 'throw', '?', None, (), line, 'from:' + name)
            self.sinks[-1].append(s2)

    trydepth = 0

    def opaque_call(self, c, st, obj, vs, ret=None):
        name = c.name
        avs = tuple(self.argv(st, v) for v in vs)
        pure = name in self.cfg.pure or c.short in self.cfg.pure
        ret = ret or c.ret
        if name == '':
            pass
        cst = c.const or pure
        if cst and obj is not None:
            ver = self.objver(st, obj)
            k = ('call', name, obj, ver) + tuple(self.valkey(v) for v in avs)
        elif pure or (obj is None and name.startswith('std::')):
            k = ('call', name) + tuple(self.valkey(v) for v in avs)
        else:
            k = ('call', name, obj if obj is not None else '', ('#', self.serial(st, name)))
        if not pure:
            self.event(st, 'call', name, obj, avs, c.line, c)
            st.ev[1].key = k
        if not c.const and not pure:
            self.may_throw(st, name, c.line)
        if not cst and obj is not None and not pure:
            if root(obj) != obj or obj != ('this',):
                self.havoc_obj(st, obj)
        if not pure and not c.short.startswith('emplace'):
            self.havoc_refargs(st, c.sig, vs)
        if ret == 'void':
            return [(st, ZERO)]
        if ret.startswith('&'):
            return [(st, ('REF', ('at', atom(k, '*' + bare(ret)))))]
        if is_rec(ret):
            l = self.newtmp(st)
            if self.structural(ret):
                # opaque record result: a location named by the call
                l = ('at', atom(k, '*' + bare(ret)))
                return [(st, ('R', l, ret))]
            st.store[l] = atom(k, bare(ret))
            return [(st, ('R', l, ret))]
        return [(st, atom(k, ret))]

    def havoc_obj(self, st, obj):
        self.havoc(st, obj)

    def havoc_refargs(self, st, sig, vs):
        tys = self.split_sig(sig)
        for t, v in zip(tys, vs):
            if isinstance(v, tuple) and v and v[0] == 'REF':
                if t.startswith('&') and not t.startswith('&&') and not t[1:].startswith('c '):
                    self.havoc(st, v[1])
                elif t.startswith('&&'):
                    self.havoc(st, v[1])
            elif isinstance(v, Lin) and t.startswith('*') and not t[1:].startswith('c '):
                k = v.single()
                if isinstance(k, tuple) and k[0] == 'addr' and self.is_local(k[1]):
                    self.havoc(st, k[1])

    def split_sig(self, sig):
        out, d, cur = [], 0, ''
        for ch in sig:
            if ch in '<(':
                d += 1
            if ch in '>)':
                d -= 1
            if ch == ',' and d == 0:
                out.append(cur)
                cur = ''
            else:
                cur += ch
        if cur:
            out.append(cur)
        return out

    def valkey(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, tuple) and v and v[0] == 'REF' and len(v) > 2:
            return v[2] if isinstance(v[2], Lin) else ('obj',)
        if isinstance(v, tuple) and v and v[0] == 'R':
            return v[1]
        return ('v', str(v)[:80])

    def objver(self, st, obj):
        """version number of everything stored under obj"""
        items = [(k, v) for k, v in st.store.items() if has_prefix(k, obj)]
        n = self.epoch(st, obj) + sum(v for k, v in st.ep.items() if isinstance(k, tuple) and k and k[0] != 'fld' and k != obj and has_prefix(k, obj))
        if not items:
            return n
        return (n, hash(frozenset((k, v if not isinstance(v, tuple) else str(v)) for k, v in items)))

    def inline(self, f, st, this, vs, argexprs, line, parent=None):
        """-> [(state, return value)]"""
        self.visited.add(f.key)
        name = f.name
        self.event(st, 'enter', name, this, tuple(self.argv(st, v) for v in vs), line, f)
        st.nf += 1
        fr = st.nf
        save_frame = st.frame
        st.frame = fr
        st.thisof[fr] = this if this is not None else ('none',)
        if parent is not None:
            st.parent[fr] = parent
        st.stack = st.stack + (f,)
        # bind
        for i, p in enumerate(f.params):
            uid, pn, pt = p
            l = ('var', uid, pn, fr)
            v = vs[i] if i < len(vs) else None
            if pt.startswith('&'):
                if isinstance(v, tuple) and v and v[0] in ('REF', 'R'):
                    st.vmap[(fr, uid)] = v[1]
                else:
                    t = self.newtmp(st)
                    if v is not None:
                        st.store[t] = v
                    st.vmap[(fr, uid)] = t
            else:
                st.vmap[(fr, uid)] = l
                if v is None:
                    continue
                if isinstance(v, tuple) and v and v[0] == 'R':
                    st.vmap[(fr, uid)] = v[1]
                elif isinstance(v, tuple) and v and v[0] == 'REF':
                    if is_rec(pt):
                        self.copy_obj(st, v[1], l, pt, line, False, False)
                    else:
                        st.store[l] = self.load(st, v[1], pt)
                else:
                    st.store[l] = v
        self.sinks.append([])
        outs = []
        try:
            pre = [st]
            if f.isctor:
                pre = self.run_inits(f, st, this)
            for s in pre:
                outs += self.exec(f.body, s)
        finally:
            sink = self.sinks.pop()
        for s in sink:
            self.pop_frame(s, fr, save_frame, None)
            self.event(s, 'leave', name, this, (), line, 'throw')
            self.sinks[-1].append(s)
        res = []
        for oc, s, v in outs:
            if oc not in ('next', 'ret'):
                continue
            # a by-value record result living in a dying local: move to tmp
            if oc == 'ret' and isinstance(v, tuple) and v and v[0] in ('REF', 'R'):
                if not f.ret.startswith('&') and is_rec(f.ret):
                    if root(v[1])[0] == 'var' or v[0] == 'REF':
                        t = self.newtmp(s)
                        val = s.store.get(v[1])
                        if isinstance(val, tuple) and val and val[0] == 'LAM':
                            s.store[t] = val
                        else:
                            self.copy_obj(s, v[1], t, f.ret, line, False, False)
                        v = ('R', t, f.ret)
                elif not f.ret.startswith('&'):
                    v = self.load(s, v[1], f.ret)
            if oc == 'next':
                v = ZERO
            self.pop_frame(s, fr, save_frame, v)
            self.event(s, 'leave', name, this, (v,) if isinstance(v, Lin) else (), line, 'ret')
            res.append((s, v))
        # merge paths that differ only in facts and return the same value
        return self.merge_vals(res)

    def merge_vals(self, res):
        if len(res) < 2:
            return res
        return res

    def pop_frame(self, st, fr, save, v):
        st.frame = save
        st.stack = st.stack[:-1]
        keep = None
        for k in [k for k in st.store if root(k)[0] == 'var' and root(k)[3] == fr]:
            del st.store[k]
        for k in [k for k in st.vmap if k[0] == fr]:
            del st.vmap[k]
        for k in [k for k in st.ep if isinstance(k, tuple) and k and k[0] in ('var', 'f', 'i') and root(k)[0] == 'var' and root(k)[3] == fr]:
            del st.ep[k]
        for k in list(st.wr):
            w = st.wr[k]
            w2 = tuple(x for x in w if not (root(x)[0] == 'var' and root(x)[3] == fr))
            if w2 != w:
                if w2:
                    st.wr[k] = w2
                else:
                    del st.wr[k]
        st.thisof.pop(fr, None)
        st.parent.pop(fr, None)

    def run_inits(self, f, st, this):
        sts = [st]
        done = set()
        for kind, nm, e, written, ty in f.inits:
            nx = []
            for s in sts:
                if kind == 'field':
                    done.add(nm)
                    if ty.startswith('&'):
                        for s2, l in self.lv(e, s):
                            s2.store[('f', this, nm)] = addr(l)
                            nx.append(s2)
                        continue
                    nx += self.eval_into(e, s, ('f', this, nm), ty)
                else:
                    if e is None:
                        nx.append(s)
                    elif e[0] == 'ctor':
                        nx += self.construct(e, s, this)
                    else:
                        nx += [a for a, _ in self.ev(e, s)]
            sts = nx
        return sts

    # ------------------------------------------------------------- std models
    def smart_method(self, c, st, obj):
        sh = c.short
        ret = c.ret
        if sh in ('operator->', 'get', 'lock'):
            return [(st, self.load(st, obj, '*X'))]
        if sh == 'operator*':
            return [(st, ('REF', norm_loc(at(self.load(st, obj, '*X')))))]
        if sh == 'operator[]':
            return [(s, ('REF', norm_loc(self.ploc(self.load(s, obj, '*X'), i)))) for s, i in self.rv(c.args[0], st)]
        if sh in ('operator bool',):
            return [(st, self.cmpval(st, ('ne', self.load(st, obj, '*X'))))]
        if sh == 'reset':
            out = []
            for s, vs in self.evargs(c.args, st):
                old = self.load(s, obj, '*X')
                v = self.scalar(s, vs[0]) if vs else ZERO
                self.event(s, 'sptr', 'reset', obj, (old, v), c.line)
                self.write(s, obj, v, c.line)
                out.append((s, ZERO))
            return out
        if sh == 'release':
            v = self.load(st, obj, '*X')
            self.write(st, obj, ZERO, c.line)
            return [(st, v)]
        if sh == 'operator=':
            out = []
            for s, vs in self.evargs(c.args, st):
                v = self.scalar(s, vs[0])
                self.write(s, obj, v, c.line)
                if '&&' in c.sig and isinstance(vs[0], tuple) and vs[0][0] == 'REF':
                    s.store[vs[0][1]] = ZERO
                out.append((s, ('REF', obj)))
            return out
        if sh == 'swap':
            return None
        if sh in ('expired',):
            return [(st, atom(('expired', self.load(st, obj)), 'bool'))]
        return None

    def std_method(self, c, st, obj):
        rn = rname('R:' + c.rec) if not c.rec.startswith('R:') else rname(c.rec)
        rn = c.rec.replace('__cxx11::', '')
        sh = c.short
        if rn in SMART or rn.startswith('std::__shared_ptr') or rn.startswith('std::__uniq'):
            return self.smart_method(c, st, obj)
        if rn in LOCKS:
            m = st.store.get(('f', obj, '$mutex'))
            m = m[1] if isinstance(m, tuple) and m and m[0] == 'LOCK' else None
            if sh in ('lock', 'unlock'):
                self.event(st, sh, show_loc(m) if m else '?', m, (), c.line)
                return [(st, ZERO)]
            return [(st, ONE)]
        if rn in ('std::mutex', 'std::recursive_mutex'):
            if sh in ('lock', 'unlock'):
                self.event(st, sh, show_loc(obj), obj, (), c.line)
                return [(st, ZERO)]
        if rn == 'std::function' or rn.startswith('std::function'):
            if sh == 'operator bool':
                return [(st, self.cmpval(st, ('ne', self.load(st, obj, 'ptr'))))]
            if sh == 'operator()':
                out = []
                for s, vs in self.evargs(c.args, st):
                    v = s.store.get(obj)
                    if isinstance(v, tuple) and v and v[0] == 'LAM':
                        out += self.call_lambda(v, s, vs, c.args, c.line, None)
                    else:
                        self.event(s, 'icall', 'function', obj, tuple(self.argv(s, v) for v in vs), c.line)
                        n = self.serial(s, 'fcall')
                        self.may_throw(s, 'function', c.line)
                        out.append((s, atom(('fcall', obj, n), c.ret)))
                return out
            if sh == 'operator=':
                out = []
                for s, vs in self.evargs(c.args, st):
                    if vs and isinstance(vs[0], tuple) and vs[0][0] == 'LAM':
                        s.store[obj] = vs[0]
                    else:
                        self.write(s, obj, self.scalar(s, vs[0]), c.line)
                    out.append((s, ('REF', obj)))
                return out
        if rn in CONT:
            r = self.cont_method(c, st, obj, rn)
            if r is not None:
                return r
        if 'atomic' in rn:
            return self.atomic(c, st, obj)
        if 'iterator' in rn or rn.startswith('std::_') or 'normal_iterator' in rn:
            r = self.iter_method(c, st, obj, rn)
            if r is not None:
                return r
        if rn == 'std::pair' and sh == 'operator=':
            return None
        if rn == 'std::basic_string' or rn.endswith('basic_string'):
            return self.string_method(c, st, obj)
        if sh == 'operator=' and len(c.args) == 1:
            out = []
            for s, v in self.ev(c.args[0], st):
                if isinstance(v, tuple) and v and v[0] in ('REF', 'R'):
                    self.copy_obj(s, v[1], obj, c.ret, c.line, '&&' in c.sig)
                elif isinstance(v, tuple) and v[0] == 'LAM':
                    s.store[obj] = v
                else:
                    self.write(s, obj, self.scalar(s, v), c.line)
                out.append((s, ('REF', obj)))
            return out
        return None

    def atomic(self, c, st, obj):
        sh = c.short
        out = []
        for s, vs in self.evargs(c.args, st):
            cur = self.load(s, obj, bare(c.ret))
            if sh in ('load',) or sh.startswith('operator ') or sh.startswith('operator unsigned') or sh == 'operator bool':
                out.append((s, cur))
            elif sh in ('store', 'operator='):
                self.write(s, obj, self.scalar(s, vs[0]), c.line)
                out.append((s, self.scalar(s, vs[0])))
            elif sh in ('operator++', 'operator--'):
                d = 1 if sh == 'operator++' else -1
                self.write(s, obj, cur + d, c.line)
                out.append((s, cur if vs else cur + d))
            elif sh in ('fetch_add', 'operator+='):
                self.write(s, obj, cur + self.scalar(s, vs[0]), c.line)
                out.append((s, cur))
            elif sh in ('fetch_sub', 'operator-='):
                self.write(s, obj, cur - self.scalar(s, vs[0]), c.line)
                out.append((s, cur))
            elif sh == 'exchange':
                self.write(s, obj, self.scalar(s, vs[0]), c.line)
                out.append((s, cur))
            else:
                out.append((s, cur))
        return out

    def string_method(self, c, st, obj):
        sh = c.short
        out = []
        if sh in ('operator=', 'assign') and len(c.args) == 1:
            for s, v in self.rv(c.args[0], st):
                self.write(s, obj, v, c.line)
                out.append((s, ('REF', obj)))
            return out
        if sh == 'clear':
            self.write(st, obj, atom(('str', ''), 'ptr'), c.line)
            return [(st, ZERO)]
        for s, vs in self.evargs(c.args, st):
            cur = self.load(s, obj, 'R:std::string')
            if c.const:
                if sh in ('size', 'length'):
                    out.append((s, atom(('strlen', cur), 'u64')))
                elif sh == 'empty':
                    out.append((s, self.cmpval(s, ('eq', atom(('strlen', cur), 'u64')))))
                elif c.ret.startswith('&'):
                    out.append((s, ('REF', ('at', atom(('strm', sh, cur) + tuple(self.valkey(self.argv(s, v)) for v in vs), '*X')))))
                elif is_rec(c.ret):
                    t = self.newtmp(s)
                    s.store[t] = atom(('strm', sh, cur) + tuple(self.valkey(self.argv(s, v)) for v in vs))
                    out.append((s, ('R', t, c.ret)))
                else:
                    out.append((s, atom(('strm', sh, cur) + tuple(self.valkey(self.argv(s, v)) for v in vs), c.ret)))
            else:
                self.write(s, obj, atom(('strop', sh, cur) + tuple(self.valkey(self.argv(s, v)) for v in vs)), c.line)
                out.append((s, ('REF', obj) if c.ret.startswith('&') else atom(('strm', sh, cur), c.ret)))
        return out

    def size_of(self, st, obj):
        return self.load(st, ('f', obj, '$size'), 'u64')

    def setsize(self, st, obj, v, line=0):
        st.store[('f', obj, '$size')] = v

    def clobber(self, st, obj, size=None):
        """contents of container changed"""
        keep = st.store.get(('f', obj, '$size'))
        self.havoc(st, obj)
        if size is not None:
            st.store[('f', obj, '$size')] = size

    def elemkey(self, st, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, tuple) and v and v[0] in ('REF', 'R'):
            x = self.load(st, v[1])
            return x if isinstance(x, Lin) else atom(('obj', v[1]))
        return atom(('obj', str(v)[:60]))

    def put(self, st, loc, v, ty='', line=0):
        if isinstance(v, tuple) and v and v[0] in ('REF', 'R'):
            t = v[2] if v[0] == 'R' and len(v) > 2 else ''
            if t and self.structural(t):
                self.copy_obj(st, v[1], loc, t, line, False, False)
            else:
                src = v[1]
                subs = [(k, x) for k, x in st.store.items() if k != src and has_prefix(k, src)]
                st.store[loc] = self.load(st, src)
                for k, x in subs:
                    st.store[self.rebase(k, src, loc)] = x
        else:
            st.store[loc] = v

    def rebase(self, k, src, dst):
        if k == src:
            return dst
        return (k[0], self.rebase(k[1], src, dst)) + k[2:]

    def cont_method(self, c, st, obj, rn):
        sh = c.short
        out = []
        sz = self.size_of(st, obj)
        if rn == 'std::array':
            sz = atom(('arrsize', obj), 'u64')
            t = c.ret
        if sh == 'size':
            return [(st, sz)]
        if sh == 'empty':
            return [(st, self.cmpval(st, ('eq', sz)))]
        if sh in ('begin', 'cbegin'):
            if rn in SEQ_BEGIN:
                return [(st, addr(('i', obj, ZERO)))]
            return [(st, atom(('begin', obj, self.cver(st, obj)), 'ptr'))]
        if sh in ('end', 'cend'):
            if rn in SEQ_BEGIN:
                return [(st, addr(('i', obj, sz)))]
            return [(st, atom(('end', obj), 'ptr'))]
        if sh in ('rbegin', 'rend', 'crbegin', 'crend'):
            if rn in SEQ_BEGIN:
                # reverse iterator modelled as opaque positions
                return [(st, atom((sh, obj, self.cver(st, obj)), 'ptr'))]
            return [(st, atom((sh, obj, self.cver(st, obj)), 'ptr'))]
        if sh in ('front', 'top'):
            return [(st, ('REF', ('i', obj, ZERO)))]
        if sh == 'back':
            return [(st, ('REF', ('i', obj, sz - 1)))]
        if sh == 'data':
            return [(st, addr(('i', obj, ZERO)))]
        if sh in ('operator[]', 'at', 'test'):
            for s, vs in self.evargs(c.args, st):
                kx = self.elemkey(s, vs[0])
                if rn in ('std::map', 'std::unordered_map') and sh == 'operator[]':
                    self.event(s, 'cont', 'index', obj, tuple(self.argv(s, v) for v in vs), c.line, rn)
                    # may insert
                    has = atom(('has', obj, self.cver(s, obj), kx), 'bool')
                    if not entails(s.facts, ('eq', has - 1)):
                        old = self.size_of(s, obj)
                        n = atom(('mapsize', obj, self.serial(s, 'mapsize')), 'u64')
                        s.facts = s.facts | {('le', old - n), ('le', n - old - 1), ('le', ONE - n)}
                        s.store[('f', obj, '$size')] = n
                        s.facts = s.facts | {('eq', has - 1)} if not entails(s.facts, ('eq', has)) else s.facts
                l = ('i', obj, kx)
                if sh == 'test':
                    out.append((s, self.load(s, l, 'bool')))
                elif c.ret.startswith('&'):
                    out.append((s, ('REF', l)))
                else:
                    out.append((s, self.load(s, l, c.ret)))
                if sh == 'at' and (self.trydepth > 0):
                    self.may_throw(s, 'at', c.line)
            return out
        if sh in ('find', 'count', 'contains', 'lower_bound', 'upper_bound') and rn not in ('std::vector',):
            for s, vs in self.evargs(c.args, st):
                kx = self.elemkey(s, vs[0])
                ver = self.cver(s, obj)
                if sh in ('count', 'contains') and rn in KEYED:
                    out.append((s, atom(('has', obj, ver, kx), 'bool')))
                elif sh == 'find' and rn in KEYED:
                    has = atom(('has', obj, ver, kx), 'bool')
                    s2 = s.copy()
                    if s.add(('eq', has - 1)):
                        it = addr(('i', obj, kx)) if False else atom(('found', obj, kx), 'ptr')
                        s.facts = s.facts | {canon('ne', it - atom(('end', obj), 'ptr'))}
                        out.append((s, it))
                    if s2.add(('eq', has)):
                        out.append((s2, atom(('end', obj), 'ptr')))
                else:
                    out.append((s, atom((sh, obj, ver, kx), 'ptr')))
            return out
        if sh in ('push_back', 'emplace_back', 'push', 'push_front', 'emplace_front', 'emplace'):
            if sh == 'emplace' and rn in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::vector', 'std::list', 'std::multimap'):
                pass
            else:
                for s, vs in self.evargs(c.args, st):
                    avs = tuple(self.argv(s, v) for v in vs)
                    sz = self.size_of(s, obj)
                    self.event(s, 'cont', sh, obj, avs, c.line, rn)
                    if sh in ('push_front', 'emplace_front') or rn == 'std::priority_queue':
                        self.clobber(s, obj, sz + 1)
                        if rn != 'std::priority_queue' and len(vs) == 1:
                            self.put(s, ('i', obj, ZERO), vs[0])
                        l = ('i', obj, ZERO)
                    else:
                        l = ('i', obj, sz)
                        if len(vs) == 1:
                            self.kill_sub(s, l)
                            self.put(s, l, vs[0])
                        else:
                            self.havoc(s, l)
                        s.store[('f', obj, '$size')] = sz + 1
                    if c.ret.startswith('&'):
                        out.append((s, ('REF', l)))
                    else:
                        out.append((s, ZERO))
                return out
        if sh in ('pop_back', 'pop_front', 'pop'):
            self.event(st, 'cont', sh, obj, (), c.line, rn)
            if sh == 'pop_back' or (sh == 'pop' and rn == 'std::stack'):
                st.store[('f', obj, '$size')] = sz - 1
                self.kill_sub(st, ('i', obj, sz - 1))
                st.store.pop(('i', obj, sz - 1), None)
            else:
                self.clobber(st, obj, sz - 1)
            return [(st, ZERO)]
        if sh == 'clear':
            self.event(st, 'cont', sh, obj, (), c.line, rn)
            self.clobber(st, obj, ZERO)
            return [(st, ZERO)]
        if sh in ('resize', 'assign'):
            for s, vs in self.evargs(c.args, st):
                self.event(s, 'cont', sh, obj, tuple(self.argv(s, v) for v in vs), c.line, rn)
                n = self.scalar(s, vs[0])
                if sh == 'assign' and not isinstance(vs[0], Lin):
                    self.clobber(s, obj)
                elif sh == 'assign':
                    self.clobber(s, obj, n)
                    if len(vs) > 1:
                        s.store[('f', obj, '$fill')] = self.scalar(s, vs[1])
                else:
                    s.store[('f', obj, '$size')] = n
                out.append((s, ZERO))
            return out
        if sh == 'reserve' or sh == 'shrink_to_fit':
            return [(s, ZERO) for s, _ in self.evargs(c.args, st)]
        if sh in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
            for s, vs in self.evargs(c.args, st):
                avs = tuple(self.argv(s, v) for v in vs)
                self.event(s, 'cont', sh, obj, avs, c.line, rn)
                old = self.size_of(s, obj)
                if rn in KEYED:
                    kx = None
                    if sh in ('emplace', 'try_emplace', 'insert_or_assign') and vs:
                        kx = self.elemkey(s, vs[0])
                    elif sh == 'insert' and vs and isinstance(vs[0], tuple) and vs[0][0] in ('REF', 'R'):
                        if rn.endswith('map'):
                            kx = self.load(s, ('f', vs[0][1], 'first'))
                        else:
                            kx = self.elemkey(s, vs[0])
                    elif sh == 'insert' and vs and rn.endswith('set'):
                        kx = self.elemkey(s, vs[0])
                    if kx is not None and len(vs) <= 3 and not (sh == 'insert' and len(vs) > 1):
                        has = atom(('has', obj, self.cver(s, obj), kx), 'bool')
                        s2 = s.copy()
                        if s.add(('eq', has)):
                            self.clobber_keep(s, obj, old + 1)
                            s.facts = s.facts | {('eq', atom(('has', obj, self.cver(s, obj), kx), 'bool') - 1)}
                            if sh in ('emplace', 'try_emplace', 'insert_or_assign') and len(vs) == 2:
                                self.put(s, ('i', obj, kx), vs[1])
                            elif sh == 'insert' and rn.endswith('map') and isinstance(vs[0], tuple):
                                s.store[('i', obj, kx)] = self.load(s, ('f', vs[0][1], 'second'))
                            out.append((s, self.ins_result(s, c, obj, kx, ONE)))
                        if s2.add(('eq', has - 1)):
                            if sh == 'insert_or_assign' and len(vs) == 2:
                                self.put(s2, ('i', obj, kx), vs[1])
                            out.append((s2, self.ins_result(s2, c, obj, kx, ZERO)))
                        continue
                    n = atom(('mapsize', obj, self.serial(s, 'mapsize')), 'u64')
                    self.clobber(s, obj, n)
                    s.facts = s.facts | {('le', old - n)}
                elif rn in ('std::multiset', 'std::multimap', 'std::unordered_multimap', 'std::unordered_multiset'):
                    self.clobber(s, obj, old + 1)
                elif len(vs) == 2 or sh == 'emplace' and rn in ('std::list', 'std::vector', 'std::deque'):
                    self.clobber(s, obj, old + 1)
                    if len(vs) == 2:
                        s.store[('f', obj, '$inserted')] = self.scalar(s, vs[1])
                else:
                    n = atom(('mapsize', obj, self.serial(s, 'mapsize')), 'u64')
                    self.clobber(s, obj, n)
                    s.facts = s.facts | {('le', old - n)}
                out.append((s, self.ins_result(s, c, obj, None, None)))
            return out
        if sh == 'erase':
            for s, vs in self.evargs(c.args, st):
                self.event(s, 'cont', sh, obj, tuple(self.argv(s, v) for v in vs), c.line, rn)
                old = self.size_of(s, obj)
                sigs = self.split_sig(c.sig)
                bykey = rn in ('std::map', 'std::set', 'std::unordered_map', 'std::unordered_set', 'std::multimap', 'std::multiset') and not any('iterator' in t for t in sigs[:1])
                if len(vs) == 1 and not bykey:
                    self.clobber(s, obj, old - 1)
                elif bykey and entails(s.facts, ('eq', atom(('has', obj, self.cver(s, obj), self.elemkey(s, vs[0])), 'bool') - 1)):
                    self.clobber(s, obj, old - 1)
                    s.facts = s.facts | {('eq', atom(('has', obj, self.cver(s, obj), self.elemkey(s, vs[0])), 'bool'))}
                else:
                    n = atom(('mapsize', obj, self.serial(s, 'mapsize')), 'u64')
                    self.clobber(s, obj, n)
                    s.facts = s.facts | {('le', n - old)}
                    if bykey:
                        kx = self.elemkey(s, vs[0])
                        s.facts = s.facts | {('eq', atom(('has', obj, self.cver(s, obj), kx), 'bool'))}
                if is_rec(c.ret):
                    out.append((s, atom(('erased', obj, self.serial(s, 'erased')), 'ptr')))
                else:
                    out.append((s, atom(('erased', obj, self.serial(s, 'erased')), 'ptr')))
            return out
        if sh in ('remove', 'remove_if', 'sort', 'reverse', 'unique', 'splice', 'merge', 'fill', 'set', 'reset', 'flip'):
            for s, vs in self.evargs(c.args, st):
                self.event(s, 'cont', sh, obj, tuple(self.argv(s, v) for v in vs), c.line, rn)
                if rn == 'std::bitset' and sh in ('set', 'reset') and vs:
                    val = (self.scalar(s, vs[1]) if len(vs) > 1 else ONE) if sh == 'set' else ZERO
                    self.write(s, ('i', obj, self.scalar(s, vs[0])), val, c.line, ev=False)
                    out.append((s, ('REF', obj)))
                    continue
                self.havoc(s, obj)
                if sh in ('sort', 'reverse', 'fill'):
                    s.store[('f', obj, '$size')] = sz
                out.append((s, ZERO))
            return out
        if sh == 'swap':
            for s, vs in self.evargs(c.args, st):
                self.event(s, 'cont', sh, obj, tuple(self.argv(s, v) for v in vs), c.line, rn)
                if isinstance(vs[0], tuple):
                    o = vs[0][1]
                    a, b = self.size_of(s, obj), self.size_of(s, o)
                    self.clobber(s, obj, b)
                    self.clobber(s, o, a)
                out.append((s, ZERO))
            return out
        if sh == 'operator=':
            for s, v in self.ev(c.args[0], st):
                self.event(s, 'cont', 'assign', obj, (self.argv(s, v),), c.line, rn)
                if isinstance(v, tuple) and v and v[0] in ('REF', 'R'):
                    n = self.size_of(s, v[1])
                    self.copy_obj(s, v[1], obj, 'R:' + rn, c.line, '&&' in c.sig, False)
                    s.store[('f', obj, '$size')] = n
                else:
                    self.clobber(s, obj)
                out.append((s, ('REF', obj)))
            return out
        return None

    def clobber_keep(self, st, obj, size):
        """one element added under a key: other elements keep their values, membership version changes"""
        st.ep[('ver', obj)] = st.ep.get(('ver', obj), 0) + 1
        st.store[('f', obj, '$size')] = size

    def cver(self, st, obj):
        return self.epoch(st, obj) + st.ep.get(('ver', obj), 0)

    def ins_result(self, st, c, obj, kx, ins):
        it = atom(('found', obj, kx), 'ptr') if kx is not None else atom(('insit', obj, self.serial(st, 'insit')), 'ptr')
        if is_rec(c.ret) and 'pair<' in c.ret:
            t = self.newtmp(st)
            st.store[('f', t, 'first')] = it
            st.store[('f', t, 'second')] = ins if ins is not None else atom(('inserted', obj, self.serial(st, 'inserted')), 'bool')
            return ('R', t, '')
        return it

    def iter_method(self, c, st, obj, rn):
        sh = c.short
        v = self.load(st, obj, 'ptr')
        if not isinstance(v, Lin):
            return None
        k = v.single()
        if sh == 'operator*':
            return [(st, ('REF', self.itloc(v)))]
        if sh == 'operator->':
            return [(st, addr(self.itloc(v)))]
        lin = isinstance(k, tuple) and k[0] == 'addr'
        anyaddr = any(isinstance(x, tuple) and x[0] == 'addr' for x in v.atoms())
        if sh in ('operator++', 'operator--'):
            d = 1 if sh == 'operator++' else -1
            if lin:
                nv = addr(norm_loc(at(v + d)))
            elif anyaddr or 'normal_iterator' in rn or 'Deque' in rn:
                nv = v + d
            else:
                nv = atom(('next' if d > 0 else 'prev', v), 'ptr')
            self.write(st, obj, nv, c.line, init=True, ev=False)
            if c.args:
                return [(st, v)]
            return [(st, ('REF', obj))]
        if sh in ('operator+', 'operator-', 'operator+=', 'operator-='):
            out = []
            for s, vs in self.evargs(c.args, st):
                o = self.scalar(s, vs[0])
                d = o if '+' in sh else -o
                nv = v + d
                if lin:
                    nv = addr(norm_loc(at(nv)))
                if sh.endswith('='):
                    s.store[obj] = nv
                    out.append((s, ('REF', obj)))
                else:
                    out.append((s, nv))
            return out
        if sh == 'operator=':
            out = []
            for s, x in self.rv(c.args[0], st):
                self.write(s, obj, x, c.line)
                out.append((s, ('REF', obj)))
            return out
        if sh == 'base':
            return [(st, v)]
        if sh == 'operator==':
            return [(s, self.cmpval(s, ('eq', v - x))) for s, x in self.rv(c.args[0], st)]
        if sh == 'operator!=':
            return [(s, self.cmpval(s, ('ne', v - x))) for s, x in self.rv(c.args[0], st)]
        return None

    def itloc(self, v):
        k = v.single()
        if isinstance(k, tuple) and k[0] == 'found':
            obj, kx = k[1], k[2]
            return ('kv', obj, kx)
        return norm_loc(at(v))

    def std_func(self, c, st):
        name = c.name
        sh = c.short
        out = []
        if sh in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(c.args) == 2:
            for s, vs in self.evargs(c.args, st):
                a, b = self.scalar(s, vs[0]), self.scalar(s, vs[1])
                out.append((s, self.cmpval(s, self.CMP[sh[8:]](a, b))))
            return out
        if sh == 'operator-' and len(c.args) == 2 and not is_rec(c.ret):
            for s, vs in self.evargs(c.args, st):
                a, b = self.scalar(s, vs[0]), self.scalar(s, vs[1])
                out.append((s, self.lindiff(a, b)))
            return out
        if name in ('std::begin', 'std::end', 'std::distance', 'std::next', 'std::prev', 'std::advance'):
            for s, vs in self.evargs(c.args, st):
                if name == 'std::distance':
                    out.append((s, self.lindiff(self.scalar(s, vs[0]), self.scalar(s, vs[1]), True)))
                elif name in ('std::next', 'std::prev'):
                    d = self.scalar(s, vs[1]) if len(vs) > 1 else ONE
                    v = self.scalar(s, vs[0])
                    nv = v + (d if name == 'std::next' else -d)
                    k = v.single()
                    if isinstance(k, tuple) and k[0] == 'addr':
                        nv = addr(norm_loc(at(nv)))
                    out.append((s, nv))
                else:
                    return None
            return out
        if name in ('std::for_each',):
            return self.foreach(c, st)
        if name in ('std::make_pair', 'std::make_tuple'):
            for s, vs in self.evargs(c.args, st):
                t = self.newtmp(s)
                for i, v in enumerate(vs[:2]):
                    self.put(s, ('f', t, ('first', 'second')[i]), v)
                out.append((s, ('R', t, c.ret)))
            return out
        if name in ('std::fill', 'std::fill_n', 'std::copy', 'std::sort', 'std::stable_sort', 'std::reverse', 'std::remove', 'std::remove_if', 'std::rotate',
                    'std::transform', 'std::iota', 'std::unique', 'std::swap_ranges', 'std::move_backward', 'std::copy_backward'):
            for s, vs in self.evargs(c.args, st):
                self.event(s, 'call', name, None, tuple(self.argv(s, v) for v in vs), c.line, c)
                for v in vs:
                    x = self.scalar(s, v)
                    k = x.single()
                    if isinstance(k, tuple) and k[0] in ('addr',) and k[1][0] == 'i':
                        sz = s.store.get(('f', k[1][1], '$size'))
                        if name in ('std::copy', 'std::transform'):
                            if v is vs[2] or name == 'std::transform':
                                self.clobber(s, k[1][1], self.size_of(s, k[1][1]))
                        else:
                            self.clobber(s, k[1][1], self.size_of(s, k[1][1]))
                        break_ = True
                out.append((s, atom(('alg', name, self.serial(s, name)), 'ptr')))
            return out
        if name in ('std::find', 'std::find_if', 'std::lower_bound', 'std::upper_bound', 'std::any_of', 'std::all_of', 'std::none_of', 'std::count_if',
                    'std::binary_search', 'std::count', 'std::accumulate'):
            for s, vs in self.evargs(c.args, st):
                ks = tuple(self.valkey(self.argv(s, v)) for v in vs)
                ver = ()
                for v in vs[:2]:
                    x = self.scalar(s, v)
                    for a in x.atoms():
                        if isinstance(a, tuple) and a[0] in ('addr', 'begin', 'end') and isinstance(a[1], tuple):
                            o = a[1][1] if a[0] == 'addr' and a[1][0] == 'i' else a[1]
                            ver += (self.objver(s, o),)
                out.append((s, atom(('alg', name, ver) + ks, 'ptr' if is_rec(c.ret) else c.ret)))
            return out
        if name in ('std::isnan', 'std::isinf', 'std::floor', 'std::ceil', 'std::pow', 'std::log2', 'std::sqrt', 'std::round', 'std::to_string', 'std::abs'):
            for s, vs in self.evargs(c.args, st):
                a = atom((name,) + tuple(self.scalar(s, v) for v in vs), c.ret if not is_rec(c.ret) else None)
                if is_rec(c.ret):
                    t = self.newtmp(s)
                    s.store[t] = a
                    out.append((s, ('R', t, c.ret)))
                else:
                    out.append((s, a))
            return out
        if sh == 'operator+' and is_rec(c.ret):
            for s, vs in self.evargs(c.args, st):
                t = self.newtmp(s)
                s.store[t] = atom(('strcat',) + tuple(self.scalar(s, v) for v in vs))
                out.append((s, ('R', t, c.ret)))
            return out
        if name == 'std::get':
            return None
        return None

    def lindiff(self, a, b, rev=False):
        """iterator difference a-b (or b-a)"""
        if rev:
            a, b = b, a
        ka, kb = a.single(), b.single()
        if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == kb[0] == 'addr' and ka[1][0] == kb[1][0] == 'i' and ka[1][1] == kb[1][1]:
            return ka[1][2] - kb[1][2]
        return a - b

    def foreach(self, c, st):
        out = []
        for s, vs in self.evargs(c.args, st):
            lam = vs[2] if len(vs) > 2 else None
            if isinstance(lam, tuple) and lam[0] in ('R', 'REF'):
                lam = s.store.get(lam[1])
            if not (isinstance(lam, tuple) and lam and lam[0] == 'LAM'):
                self.event(s, 'call', c.name, None, tuple(self.argv(s, v) for v in vs), c.line, c)
                out.append((s, ZERO))
                continue
            first = self.scalar(s, vs[0])
            k = first.single()
            if isinstance(k, tuple) and k[0] == 'addr' and k[1][0] == 'i':
                cont = k[1][1]
            elif isinstance(k, tuple) and k[0] in ('begin', 'rbegin'):
                cont = k[1]
            else:
                cont = ('at', first)
            last = self.scalar(s, vs[1])
            kl = last.single()
            if cont[0] != 'at' or cont[1] is not first:
                whole = isinstance(kl, tuple) and (kl[0] in ('end', 'rend') and kl[1] == cont or kl[0] == 'addr' and kl[1][0] == 'i' and kl[1][1] == cont and kl[1][2] == self.size_of(s, cont))
                whole = whole and (k[0] != 'addr' or k[1][2] == ZERO)
                if not whole:
                    cont = ('at', first)

            def body(s2, el):
                outs = self.call_lambda(lam, s2, [('REF', el)], [None], c.line, None)
                return [('next', a, None) for a, _ in outs]
            for oc, s3, v in self.iterate_elems(s, cont, c.line, body):
                out.append((s3, ZERO))
        return out

    # --------------------------------------------------------------- statements
    def exec(self, x, st):
        """-> [(outcome, state, value)]"""
        if x is None:
            return [('next', st, None)]
        self.tick()
        k = x[0]
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unknown('stmt ' + k)
        r = m(x, st)
        if len(r) > self.cfg.maxpaths:
            self.truncated = True
            raise Unknown('path limit')
        return r

    def s_expr(self, x, st):
        n0 = st.nt
        out = []
        for s, _ in self.ev(x[2], st):
            self.purge_tmps(s, n0)
            out.append(('next', s, None))
        return self.merge_out(out)

    def purge_tmps(self, s, n0):
        if s.nt == n0:
            return
        used = set(l for l in s.vmap.values() if root(l)[0] == 'tmp')
        usedr = set(root(l) for l in used)
        for k in [k for k in s.store if root(k)[0] == 'tmp' and root(k)[1] > n0 and root(k) not in usedr]:
            del s.store[k]
        for k in [k for k in s.ep if isinstance(k, tuple) and k and k[0] in ('tmp', 'f', 'i') and root(k)[0] == 'tmp' and root(k)[1] > n0]:
            del s.ep[k]
        if not usedr:
            s.nt = n0

    def merge_out(self, outs):
        if len(outs) < 2:
            return outs
        by = {}
        res = []
        nx = [s for oc, s, v in outs if oc == 'next']
        res = [o for o in outs if o[0] != 'next']
        return [('next', s, None) for s in self.merge(nx)] + res

    def s_seq(self, x, st, scope=True):
        cur = [st]
        done = []
        decls = []
        locks = []
        ndt = False
        items = x[2]
        needsink = scope and any(y and y[0] in ('decl', 'seqns') for y in items) and self.has_dtor(items)
        if needsink:
            self.sinks.append([])
        try:
            for y in items:
                nx = []
                for s in cur:
                    for oc, s2, v in self.exec(y, s):
                        if oc == 'next':
                            nx.append(s2)
                        else:
                            done.append((oc, s2, v))
                cur = self.merge(nx)
                if not cur:
                    break
        finally:
            sink = self.sinks.pop() if needsink else []
        outs = [('next', s, None) for s in cur] + done
        if scope:
            dl = self.block_decls(items)
            if dl:
                for oc, s, v in outs:
                    self.end_scope(s, dl, v)
                for s in sink:
                    self.end_scope(s, dl, None)
        for s in sink:
            self.sinks[-1].append(s)
        return self.merge_out(outs)

    def has_dtor(self, items):
        for y in items:
            if y and y[0] == 'decl' and y[7]:
                return True
            if y and y[0] == 'seqns' and self.has_dtor(y[2]):
                return True
        return False

    def block_decls(self, items):
        out = []
        for y in items:
            if not y:
                continue
            if y[0] == 'decl' and not y[6]:
                out.append((y[2], y[3], y[4], y[7]))
            elif y[0] == 'seqns':
                out += self.block_decls(y[2])
        return out

    def end_scope(self, st, decls, v):
        for uid, name, ty, dk in reversed(decls):
            l = st.vmap.get((st.frame, uid))
            if l is None:
                continue
            if not ty.startswith('&'):
                if dk and is_rec(ty):
                    m = st.store.get(('f', l, '$mutex'))
                    if isinstance(m, tuple) and m and m[0] == 'LOCK':
                        self.event(st, 'unlock', show_loc(m[1]) if m[1] else '?', m[1], (), 0)
                    else:
                        self.dtor(st, l, dk, ty)
                if root(l)[0] == 'var' and not (isinstance(v, tuple) and v and v[0] in ('REF', 'R') and root(v[1]) == root(l)):
                    if l in st.store or any(has_prefix(k, l) for k in st.store):
                        st.store.pop(l, None)
                        self.kill_sub(st, l)
                    for k in [k for k in st.ep if isinstance(k, tuple) and k and k[0] in ('var', 'f', 'i') and has_prefix(k, l)]:
                        del st.ep[k]
            st.vmap.pop((st.frame, uid), None)

    def dtor(self, st, loc, dk, ty):
        f = self.P.fns.get(dk)
        if f is None:
            return
        if self.structural(ty) and f.body is not None and f.body[2] and self.inlinable(f, st):
            if f.name in getattr(self.cfg, 'run_dtors', ()):
                saved = self.sinks
                self.sinks = [[]]
                try:
                    r = self.inline(f, st, loc, [], [], 0)
                except Unknown:
                    r = []
                finally:
                    self.sinks = saved
                if len(r) == 1 and r[0][0] is not st:
                    pass
            else:
                self.event(st, 'dtor', f.rec, loc, (), 0)

    def s_seqns(self, x, st):
        return self.s_seq(x, st, scope=False)

    def s_decl(self, x, st):
        _, line, uid, name, ty, init, static, dk, binds = x
        if static:
            st.vmap[(st.frame, uid)] = ('g', name + '@static')
            return [('next', st, None)]
        if ty.startswith('&'):
            out = []
            for s, l in self.lv(init, st):
                s.vmap[(s.frame, uid)] = l
                self.bind(s, binds, l)
                out.append(('next', s, None))
            return out
        l = ('var', uid, name, st.frame)
        st.vmap[(st.frame, uid)] = l
        self.kill_sub(st, l)
        st.store.pop(l, None)
        if init is None:
            return [('next', st, None)]
        n0 = st.nt
        out = []
        for s in self.eval_into(init, st, l, ty):
            self.purge_tmps(s, n0)
            self.bind(s, binds, l)
            out.append(('next', s, None))
        return self.merge_out(out)

    def bind(self, st, binds, l):
        if not binds:
            return
        names = ['first', 'second'] if len(binds) == 2 else None
        for i, (bid, bn) in enumerate(binds):
            st.vmap[(st.frame, bid)] = ('f', l, names[i] if names else '$%d' % i)

    def s_if(self, x, st):
        T, F = self.branch(x[2], st)
        out = []
        for s in T:
            out += self.exec(x[3], s)
        for s in F:
            out += self.exec(x[4], s)
        return self.merge_out(out)

    def s_ret(self, x, st):
        e = x[2]
        if e is None:
            return [('ret', st, ZERO)]
        f = st.stack[-1] if st.stack else None
        out = []
        if f is not None and f.ret.startswith('&'):
            for s, l in self.lv(e, st):
                out.append(('ret', s, ('REF', l)))
            return out
        for s, v in self.ev(e, st):
            if f is not None and not is_rec(f.ret) and isinstance(v, tuple) and v and v[0] == 'REF':
                v = self.load(s, v[1], f.ret)
            out.append(('ret', s, v))
        return out

    def s_break(self, x, st):
        return [('brk', st, None)]

    def s_cont(self, x, st):
        return [('cont', st, None)]

    def s_case(self, x, st):
        return self.exec(x[3], st)

    def s_default(self, x, st):
        return self.exec(x[2], st)

    def s_opaquestmt(self, x, st):
        self.unknown_constructs += 1
        raise Unknown('statement ' + str(x[2]))

    def s_switch(self, x, st):
        body = x[3]
        items = body[2] if body and body[0] == 'seq' else [body]
        # positions of labels (labels may nest: case A: case B: stmt)
        flat = []
        labels = []
        for y in items:
            labs = []
            z = y
            while z is not None and z[0] in ('case', 'default'):
                if z[0] == 'case':
                    labs.append(z[2])
                    z = z[3]
                else:
                    labs.append(None)
                    z = z[2]
            if labs:
                labels.append((len(flat), labs))
            flat.append(z)
        out = []
        for s, v in self.rv(x[2], st):
            rest = s.copy()
            alive = True
            default_at = None
            for pos, labs in labels:
                for lab in labs:
                    if lab is None:
                        default_at = pos
                        continue
                    cv = self.rv(lab, rest)[0][1]
                    s2 = rest.copy()
                    if s2.add(('eq', v - cv)):
                        out += self.run_from(flat, pos, s2)
                    if alive and not rest.add(('ne', v - cv)):
                        alive = False
            if alive:
                # an enum switch covering every enumerator has no default path
                if default_at is not None:
                    out += self.run_from(flat, default_at, rest)
                else:
                    out.append(('next', rest, None))
        res = []
        for oc, s, v in out:
            res.append(('next' if oc == 'brk' else oc, s, v))
        return self.merge_out(res)

    def run_from(self, flat, pos, st):
        return self.s_seq(['seq', 0, flat[pos:]], st)

    def s_try(self, x, st):
        self.sinks.append([])
        self.trydepth += 1
        try:
            outs = self.exec(x[2], st)
        finally:
            self.trydepth -= 1
            sink = self.sinks.pop()
        for s in sink:
            if s.exc == 'abort':
                self.sinks[-1].append(s)
                continue
            exc = s.exc
            caught = False
            for ty, uid, body in x[3]:
                m = self.exc_match(exc, ty)
                if m is False:
                    continue
                s2 = s.copy() if m is None else s
                s2.exc = exc
                self.event(s2, 'catch', ty, None, (), x[1])
                saved = s2.exc
                for oc, s3, v in self.exec(body, s2):
                    s3.exc = None
                    outs.append((oc, s3, v))
                if m:
                    caught = True
                    break
            if not caught:
                self.sinks[-1].append(s)
        return self.merge_out(outs)

    def exc_match(self, exc, ty):
        if ty == '...':
            return True
        a, b = rname(exc) if exc else '', rname(ty)
        if exc == '?' or not a:
            return None
        if a == b:
            return True
        if b == 'std::exception':
            return True
        r = self.P.rec_of_type(exc)
        if r:
            for c in self.P.bases_of(r.cls):
                if rname('R:' + c) == b:
                    return True
            return False
        return None

    # loops ---------------------------------------------------------------
    def s_while(self, x, st):
        return self.loop(x, st, x[2], x[3], None)

    def s_do(self, x, st):
        # body once, then while
        outs = []
        for oc, s, v in self.exec(x[3], st):
            if oc in ('next', 'cont'):
                outs += self.loop(x, s, x[2], x[3], None)
            elif oc == 'brk':
                outs.append(('next', s, None))
            else:
                outs.append((oc, s, v))
        return self.merge_out(outs)

    def s_for(self, x, st):
        outs = []
        for oc, s, v in (self.exec(x[2], st) if x[2] is not None else [('next', st, None)]):
            outs += self.loop(x, s, x[3], x[5], x[4])
        init = x[2]
        if init is not None:
            dl = self.block_decls([init])
            for oc, s, v in outs:
                self.end_scope(s, dl, v)
        return self.merge_out(outs)

    def const_true(self, st, cond):
        """is the loop condition decided on entry?"""
        s = st.copy()
        sink = []
        self.sinks.append(sink)
        try:
            T, F = self.branch(cond, s)
        finally:
            self.sinks.pop()
        if sink:
            return None
        if T and not F:
            return True
        if F and not T:
            return False
        return None

    def loop(self, x, st, cond, body, inc):
        # concrete unrolling while the condition is decided
        outs = []
        cur = st
        base_facts = st.facts
        if cond is not None and body is not None and cond[0] != 'int':
            n = 0
            work = [st]
            snapshot = st.copy()
            ok = True
            res = []
            start_sink = len(self.sinks[-1])
            while work:
                n += 1
                nw = []
                for s in work:
                    d = self.const_true(s, cond)
                    if d is None or n > self.cfg.unroll or len(work) > 32:
                        ok = False
                        break
                    if d is False:
                        T, F = self.branch(cond, s)
                        res += [('next', a, None) for a in F]
                        continue
                    T, F = self.branch(cond, s)
                    for a in T:
                        for oc, s2, v in self.exec(body, a):
                            if oc in ('next', 'cont'):
                                for s3 in self.run_inc(inc, s2):
                                    nw.append(s3)
                            elif oc == 'brk':
                                res.append(('next', s2, None))
                            else:
                                res.append((oc, s2, v))
                if not ok:
                    break
                work = self.merge(nw)
            if ok:
                return res
            del self.sinks[-1][start_sink:]
            st = snapshot
        return self.gen_loop(x, st, cond, body, inc)

    def run_inc(self, inc, s):
        if inc is None:
            return [s]
        return [a for a, _ in self.ev(inc, s)]

    def mod_set(self, before, after):
        m = set()
        for k, v in after.store.items():
            if before.store.get(k) != v:
                m.add(k)
        for k in before.store:
            if k not in after.store:
                m.add(k)
        for k, v in after.ep.items():
            if before.ep.get(k) != v:
                m.add(k)
        for wk, ls in after.wr.items():
            for l in ls:
                if l not in before.wr.get(wk, ()):
                    m.add(l)
        return m

    def havoc_loop(self, s, mods):
        for k in mods:
            if not isinstance(k, tuple) or not k:
                continue
            if k[0] in ('fld', 'ver'):
                s.ep[k] = s.ep.get(k, 0) + 1
                continue
            # generalise indexed / pointed-to locations
            tgt = k
            fld = None
            l = k
            while l[0] in ('f', 'i'):
                if l[0] == 'i' and isinstance(l[2], Lin) and l[2].t:
                    tgt = l[1]
                l = l[1]
            if l[0] == 'at':
                names = [p[2] for p in prefixes(k) if p[0] == 'f']
                if names:
                    nm = names[0]
                    s.ep[('fld', nm)] = s.ep.get(('fld', nm), 0) + 1
                    for q in [q for q in s.store if q[0] == 'f' and q[2] == nm]:
                        if root(q)[0] in ('at',):
                            del s.store[q]
                    continue
            if root(k)[0] == 'tmp':
                s.store.pop(k, None)
                continue
            keepsize = None
            if tgt != k and tgt[0] != 'at':
                keepsize = s.store.get(('f', tgt, '$size'))
                szk = ('f', tgt, '$size')
                self.havoc_elems(s, tgt)
                continue
            self.havoc(s, tgt)

    def havoc_elems(self, s, base):
        for q in [q for q in s.store if q[0] == 'i' and q[1] == base or any(p[0] == 'i' and p[1] == base for p in prefixes(q))]:
            del s.store[q]
        # bump epoch of all elements without touching $size
        sz = self.load(s, ('f', base, '$size'), 'u64')
        s.ep[base] = s.ep.get(base, 0) + 1
        s.store[('f', base, '$size')] = sz

    def gen_loop(self, x, st, cond, body, inc):
        line = x[1]
        lid = ('loop', line, self.serial(st, 'loopid'))
        mods = set()
        # fixpoint over modified locations
        invs = []
        for rnd in range(4):
            s = st.copy()
            self.havoc_loop(s, mods)
            s.loops = s.loops + (lid,)
            self.sinks.append([])
            ends = []
            lossy, self.cfg.lossy = self.cfg.lossy, rnd == 0 or self.cfg.lossy
            try:
                T, F = self.branch(cond, s.copy()) if cond is not None else ([s.copy()], [])
                for t in T:
                    for oc, s2, v in self.exec(body, t):
                        if oc in ('next', 'cont'):
                            for s3 in self.run_inc(inc, s2):
                                ends.append(s3)
            finally:
                self.cfg.lossy = lossy
                self.sinks.pop()
            new = set(mods)
            for e in ends:
                new |= self.mod_set(s, e)
            new = {k for k in new if not (isinstance(k, tuple) and k and k[0] == 'tmp')}
            if new == mods:
                break
            mods = new
        # invariants: monotone scalars
        head = st.copy()
        self.havoc_loop(head, mods)
        cand = []
        for k in mods:
            if not (isinstance(k, tuple) and k and k[0] in ('var', 'f', 'g', 'p', 'i', 'at')):
                continue
            v0 = st.store.get(norm_loc(k))
            if v0 is None:
                v0 = self.load(st, k)
            if not isinstance(v0, Lin):
                continue
            # typed load of the head value
            ty = None
            h = self.load(head, k, ty)
            if not isinstance(h, Lin):
                continue
            deltas = set()
            for e in ends:
                ve = self.load(e, k)
                if not isinstance(ve, Lin):
                    deltas.add(None)
                    continue
                d = ve - h
                deltas.add(d.c if d.is_const() else ('+' if entails(e.facts, ('le', -d)) else ('-' if entails(e.facts, ('le', d)) else None)))
            if deltas and None not in deltas:
                if all(d == '+' or (isinstance(d, int) and d >= 0) for d in deltas):
                    head.facts = head.facts | {('le', v0 - h)}
                    if deltas <= {0, 1}:
                        cand.append((k, v0, h, 1))
                elif all(d == '-' or (isinstance(d, int) and d <= 0) for d in deltas):
                    head.facts = head.facts | {('le', h - v0)}
                    if deltas <= {0, -1}:
                        cand.append((k, v0, h, -1))
        # upper/lower bound invariant from the exit condition
        if cond is not None and cand:
            self.sinks.append([])
            try:
                T, F = self.branch(cond, head.copy())
            finally:
                self.sinks.pop()
            for k, v0, h, d in cand:
                key = h.t[0][0] if len(h.t) == 1 else None
                if key is None:
                    continue
                for t in F:
                    for kind, L in t.facts - head.facts:
                        co = dict(L.t).get(key)
                        if co not in (1, -1):
                            continue
                        # exit: d=+1: N - h <= 0 (co=-1) or eq; invariant: h - N <= 0
                        rest = L - h.scale(co)      # L = co*h + rest
                        if kind == 'le' and co == -d:
                            inv = (-L) if True else None     # h-N<=0  == -(N-h)<=0
                            inv0 = -(v0.scale(co) + rest)
                        elif kind == 'eq':
                            L1 = L if co == d else -L        # d*(h - N) form
                            inv = L1
                            inv0 = (v0.scale(co) + rest) if co == d else -(v0.scale(co) + rest)
                        else:
                            continue
                        if entails(st.facts, ('le', inv0)):
                            head.facts = head.facts | {('le', inv)}
        outs = []
        # zero iterations
        z = st.copy()
        if cond is not None:
            T, F = self.branch(cond, z)
            outs += [('next', f, None) for f in F]
            if not T:
                return outs
        # one generic iteration
        g = head.copy()
        g.loops = g.loops + (lid,)
        T, F = self.branch(cond, g) if cond is not None else ([g], [])
        ended = []
        info = {'lid': lid, 'line': line, 'cont': None, 'ix': None, 'entry': st, 'head': head, 'ends': [], 'breaks': [], 'rets': [],
                'exits': [f for f in F] if cond is not None else []}
        self.loopinfo.append(info)
        for t in T:
            self.event(t, 'iter', line, None, (), line, lid)
            for oc, s2, v in self.exec(body, t):
                if oc in ('next', 'cont'):
                    for s3 in self.run_inc(inc, s2):
                        ended.append(s3)
                elif oc == 'brk':
                    s2.loops = s2.loops[:-1]
                    info['breaks'].append(s2.copy())
                    outs.append(('next', s2, None))
                else:
                    s2.loops = s2.loops[:-1]
                    info['rets'].append((oc, s2.copy(), v))
                    outs.append((oc, s2, v))
        info['ends'] = [e.copy() for e in ended]
        for e in ended:
            self.iters.append((lid, head, e))
        ended = self.merge(ended)
        if self.cfg.history:
            # the first iteration, and the iteration after an arbitrary one
            outs = []
            z = st.copy()
            starts = [z] + [e.copy() for e in ended]
            for n, s0 in enumerate(starts):
                if n:
                    s0.loops = st.loops
                T, F = self.branch(cond, s0) if cond is not None else ([s0], [])
                outs += [('next', f, None) for f in F]
                for t in T:
                    t.loops = t.loops + (lid,)
                    self.event(t, 'iter', line, None, (), line, lid)
                    for oc, s2, v in self.exec(body, t):
                        s2.loops = st.loops
                        if oc == 'brk':
                            outs.append(('next', s2, None))
                        elif oc not in ('next', 'cont'):
                            outs.append((oc, s2, v))
            return self.merge_out(outs)
        for e in ended:
            # leave the loop: state of an arbitrary later iteration head
            s2 = head.copy()
            s2.ev = e.ev
            s2.cnt = dict(e.cnt)
            s2.nf = max(s2.nf, e.nf)
            s2.nt = max(s2.nt, e.nt)
            s2.dyn.update(e.dyn)
            # distinct epoch from the generic head
            self.havoc_loop(s2, mods)
            # facts about head atoms do not transfer; re-establish via monotone facts
            for k, v0, h, d in cand:
                h2 = self.load(s2, k)
                if isinstance(h2, Lin):
                    s2.facts = s2.facts | {('le', (v0 - h2) if d > 0 else (h2 - v0))}
                    for f in head.facts - st.facts:
                        co = dict(f[1].t).get(h.t[0][0]) if len(h.t) == 1 else None
                        if co:
                            s2.facts = s2.facts | {(f[0], f[1] - h.scale(co) + h2.scale(co))}
            if cond is not None:
                T, F = self.branch(cond, s2)
                outs += [('next', f, None) for f in F]
        return self.merge_out(outs)

    def s_rfor(self, x, st):
        _, line, uid, name, ty, rng, body, binds = x
        outs = []
        for s, cont in self.lv(rng, st):
            def run(s2, el, fr=s.frame):
                if ty.startswith('&'):
                    s2.vmap[(s2.frame, uid)] = el
                    self.bind(s2, binds, el)
                else:
                    l = ('var', uid, name, s2.frame)
                    s2.vmap[(s2.frame, uid)] = l
                    if is_rec(ty):
                        self.copy_obj(s2, el, l, ty, line, False, False)
                    else:
                        s2.store[l] = self.load(s2, el, ty)
                    self.bind(s2, binds, l)
                r = self.exec(body, s2)
                for oc, s3, v in r:
                    s3.vmap.pop((s3.frame, uid), None)
                    if not ty.startswith('&'):
                        l = ('var', uid, name, s3.frame)
                        s3.store.pop(l, None)
                        self.kill_sub(s3, l)
                return r
            outs += self.iterate_elems(s, cont, line, run)
        return self.merge_out(outs)

    def iterate_elems(self, st, cont, line, run):
        lid = ('each', line, cont, self.serial(st, 'loopid'))
        mods = set()
        ix = atom(('eachidx', cont, line, lid[3]), 'u64')
        el = ('i', cont, ix)

        def enter(s):
            sz = self.size_of(s, cont)
            s.facts = s.facts | {('le', ix - sz + 1)}
        for rnd in range(4):
            s = st.copy()
            self.havoc_loop(s, mods)
            s.loops = s.loops + (lid,)
            enter(s)
            self.sinks.append([])
            ends = []
            try:
                for oc, s2, v in run(s.copy(), el):
                    if oc in ('next', 'cont'):
                        ends.append(s2)
            finally:
                self.sinks.pop()
            new = set(mods)
            for e in ends:
                new |= self.mod_set(s, e)
            new = {k for k in new if not (isinstance(k, tuple) and k and k[0] == 'tmp')}
            if new == mods:
                break
            mods = new
        outs = []
        z = st.copy()
        if z.add(('eq', self.size_of(z, cont))):
            outs.append(('next', z, None))
        g = st.copy()
        self.havoc_loop(g, mods)
        if not g.add(('le', ONE - self.size_of(st, cont))):
            return outs
        head = g.copy()
        g.loops = g.loops + (lid,)
        enter(g)
        self.event(g, 'iter', line, cont, (), line, lid)
        ended = []
        info = {'lid': lid, 'line': line, 'cont': cont, 'ix': ix, 'entry': st, 'head': head, 'ends': [], 'breaks': [], 'rets': [], 'exits': []}
        self.loopinfo.append(info)
        for oc, s2, v in run(g, el):
            if oc in ('next', 'cont'):
                ended.append(s2)
            elif oc == 'brk':
                s2.loops = s2.loops[:-1]
                info['breaks'].append(s2.copy())
                outs.append(('next', s2, None))
            else:
                s2.loops = s2.loops[:-1]
                info['rets'].append((oc, s2.copy(), v))
                outs.append((oc, s2, v))
        info['ends'] = [e.copy() for e in ended]
        for e in self.merge(ended):
            s2 = head.copy()
            s2.ev = e.ev
            s2.cnt = dict(e.cnt)
            s2.nf = max(s2.nf, e.nf)
            s2.nt = max(s2.nt, e.nt)
            s2.dyn.update(e.dyn)
            self.havoc_loop(s2, mods)
            outs.append(('next', s2, None))
        return self.merge_out(outs)

    # --------------------------------------------------------------- top level
    def run(self, f, st=None, this=('this',), args=None, facts=()):
        """analyse function f: [Path]"""
        if st is None:
            st = St()
        st = st.copy()
        self.steps = 0
        vs = []
        for i, (uid, pn, pt) in enumerate(f.params):
            if args is not None and i < len(args) and args[i] is not None:
                vs.append(args[i])
                continue
            l = ('p', pn or ('arg%d' % i))
            if pt.startswith('&'):
                vs.append(('REF', l))
            elif is_rec(pt):
                vs.append(('R', l, pt))
            else:
                vs.append(self.load(st, l, pt))
        for ft in facts:
            if not st.add(ft):
                return []
        self.sinks.append([])
        depth = len(self.sinks)
        try:
            outs = self.inline(f, st, this, vs, [None] * len(vs), f.line)
            sink = self.sinks[-1]
        finally:
            del self.sinks[depth - 1:]
        res = [Path('ret', s, v) for s, v in outs]
        for s in sink:
            res.append(Path('abort' if s.exc == 'abort' else 'throw', s, s.exc))
        return res

    def observe(self, f, st, this=('this',), args=None):
        """evaluate a (const) function in a state without keeping its effects.
        -> [(facts, value)]"""
        s = st.copy()
        s.exc = None
        out = []
        for p in self.run(f, s, this, args):
            out.append((p.outcome, p.st, p.ret))
        return out


class Path:
    __slots__ = ('outcome', 'st', 'ret')

    def __init__(self, o, st, ret):
        self.outcome = o
        self.st = st
        self.ret = ret

    def events(self, *kinds):
        return [e for e in self.st.events() if not kinds or e.kind in kinds]

    def __repr__(self):
        r = self.ret
        return '<Path %s ret=%s facts=%s>' % (self.outcome, show(r) if isinstance(r, Lin) else r, [show_fact(f) for f in self.st.facts])
