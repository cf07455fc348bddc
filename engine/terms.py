"""Abstract values: linear forms over interned atoms, and the inequality domain.

A scalar value (integer, bool, pointer, enumerator, iterator, opaque object
value) is a linear form  c + sum(k_i * a_i)  over atoms.  Atoms stand for
"whatever the program has there": an initial field value, a parameter, the
result of an opaque call, a non-linear operation on other values.
Facts (what a path has established) are kept in a weak relational domain:
conjunctions of  L <= 0,  L == 0,  L != 0, with entailment decided by bounded
projection (Fourier-Motzkin elimination) inside the domain.
"""
from functools import lru_cache

_atoms = {}
_atom_list = []
_atom_ty = []


def _intern(key, ty):
    i = _atoms.get(key)
    if i is None:
        i = len(_atom_list)
        _atoms[key] = i
        _atom_list.append(key)
        _atom_ty.append(ty)
    elif ty and not _atom_ty[i]:
        _atom_ty[i] = ty
    return i


def atom_key(i):
    return _atom_list[i]


def atom_ty(i):
    return _atom_ty[i]


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    def is_const(self):
        return not self.t

    def single(self):
        """atom key if this is exactly one atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return _atom_list[self.t[0][0]]
        return None

    def atoms(self):
        return [_atom_list[a] for a, _ in self.t]

    def __repr__(self):
        return show(self)


ZERO = Lin(0)
ONE = Lin(1)


def const(c):
    return Lin(int(c))


def atom(key, ty=None):
    return Lin(0, ((_intern(key, ty), 1),))


def show_loc(l):
    if not isinstance(l, tuple) or not l:
        return str(l)
    k = l[0]
    if k == 'this':
        return 'this'
    if k == 'f':
        return show_loc(l[1]) + '.' + str(l[2])
    if k == 'i':
        return show_loc(l[1]) + '[' + show(l[2]) + ']'
    if k == 'at':
        return '*(' + show(l[1]) + ')'
    if k == 'var':
        return str(l[2])
    if k == 'p':
        return 'arg:' + str(l[1])
    if k == 'g':
        return '::' + str(l[1])
    if k == 'tmp':
        return 'tmp' + str(l[1])
    return '(' + ' '.join(show_any(x) for x in l) + ')'


def show_any(x):
    if isinstance(x, Lin):
        return show(x)
    if isinstance(x, tuple):
        return show_loc(x)
    return str(x)


def show_atom(k):
    if isinstance(k, tuple):
        if k[0] == 'ld':
            s = show_loc(k[1])
            return s + ("'" * min(k[2], 3) if len(k) > 2 and isinstance(k[2], int) and k[2] else '')
        if k[0] == 'addr':
            return '&' + show_loc(k[1])
        if k[0] == 'arg':
            return k[1]
        if k[0] == 'op':
            return '(' + show_any(k[2]) + k[1] + show_any(k[3]) + ')'
        if k[0] == 'call':
            return str(k[1]).split('::')[-1] + '(' + ','.join(show_any(x) for x in k[2:]) + ')'
        return '<' + ' '.join(show_any(x) for x in k) + '>'
    return str(k)


def show(l):
    if not isinstance(l, Lin):
        return show_any(l)
    out = []
    for a, k in l.t:
        s = show_atom(_atom_list[a])
        if k == 1:
            out.append('+' + s)
        elif k == -1:
            out.append('-' + s)
        else:
            out.append('%+d*%s' % (k, s))
    if l.c or not out:
        out.append('%+d' % l.c)
    r = ''.join(out)
    return r[1:] if r.startswith('+') else r


# ---------------- facts -----------------
# a fact is (kind, Lin) with kind in le, eq, ne

def canon(kind, L):
    if kind in ('eq', 'ne') and L.t and L.t[0][1] < 0:
        L = -L
    return (kind, L)


def neg(f):
    k, L = f
    if k == 'le':
        return ('le', ONE - L)
    return ('ne' if k == 'eq' else 'eq', L)


def show_fact(f):
    return show(f[1]) + {'le': ' <= 0', 'eq': ' == 0', 'ne': ' != 0'}[f[0]]


def _range_of(aid):
    ty = _atom_ty[aid]
    if ty:
        t = ty[2:] if ty.startswith('c ') else ty
        if t == 'bool':
            return (0, 1)
        if t[0] == 'u' and t[1:].isdigit():
            return (0, None)
        if t.startswith('*') or t == 'ptr':
            return (0, None)
        if t.startswith('E:') and t.rsplit(':', 1)[-1].startswith('u'):
            return (0, None)
    return (None, None)


def _infeasible(les, depth=0):
    """les: list of Lin meaning <=0 (over integers). bounded FM."""
    cur = set()
    for L in les:
        if not L.t:
            if L.c > 0:
                return True
            continue
        cur.add(L)
    for _ in range(24):
        if not cur:
            return False
        # choose atom with the smallest product
        pos, negc = {}, {}
        for L in cur:
            for a, k in L.t:
                if k > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    negc[a] = negc.get(a, 0) + 1
        best, bc = None, None
        for a in set(pos) | set(negc):
            c = pos.get(a, 0) * negc.get(a, 0)
            if bc is None or c < bc:
                best, bc = a, c
        P, N, R = [], [], set()
        for L in cur:
            k = dict(L.t).get(best, 0)
            if k > 0:
                P.append((k, L))
            elif k < 0:
                N.append((-k, L))
            else:
                R.add(L)
        if len(P) * len(N) > 400:
            return False
        for kp, p in P:
            for kn, n in N:
                s = p.scale(kn) + n.scale(kp)
                if not s.t:
                    if s.c > 0:
                        return True
                    continue
                # integer tightening by gcd
                g = 0
                from math import gcd
                for _, k in s.t:
                    g = gcd(g, abs(k))
                if g > 1:
                    s = Lin(-((-s.c) // g), tuple((a, k // g) for a, k in s.t))
                R.add(s)
        cur = R
        if len(cur) > 300:
            return False
    return False


def _relevant(facts, L):
    want = set(a for a, _ in L.t)
    out = []
    rest = list(facts)
    changed = True
    rounds = 0
    while changed and rounds < 3:
        changed = False
        rounds += 1
        nr = []
        for f in rest:
            fa = [a for a, _ in f[1].t]
            if any(a in want for a in fa):
                out.append(f)
                want.update(fa)
                changed = True
            else:
                nr.append(f)
        rest = nr
    return out, want


@lru_cache(maxsize=200000)
def _entails_le(facts, L):
    if not L.t:
        return L.c <= 0
    rel, want = _relevant(facts, L)
    les = []
    nes = []
    for k, X in rel:
        if k == 'le':
            les.append(X)
        elif k == 'eq':
            les.append(X)
            les.append(-X)
        else:
            nes.append(X)
    for a in want:
        lo, hi = _range_of(a)
        if lo is not None:
            les.append(Lin(lo, ((a, -1),)))
        if hi is not None:
            les.append(Lin(-hi, ((a, 1),)))
    goal = ONE - L
    if _infeasible(les + [goal]):
        return True
    if nes:
        # tighten disequalities whose one side is already excluded
        t = []
        for X in nes[:6]:
            if _infeasible(les + [ONE - X]):        # X <= 0 known  -> X <= -1
                t.append(X + ONE)
            elif _infeasible(les + [X + ONE]):       # X >= 0 known -> X >= 1
                t.append(ONE - X)
        if t and _infeasible(les + t + [goal]):
            return True
    return False


def norm_fact(f):
    """a fact about a comparison used as a value -> the comparison itself"""
    while True:
        k, L = f
        if len(L.t) != 1 or abs(L.t[0][1]) != 1:
            return f
        key = _atom_list[L.t[0][0]]
        if not (isinstance(key, tuple) and key[0] == 'cmp'):
            return f
        inner = (key[1], key[2])
        co, c = L.t[0][1], L.c
        # values of L for cmp = 0, 1
        v0, v1 = c, c + co
        if k == 'eq':
            t0, t1 = v0 == 0, v1 == 0
        elif k == 'ne':
            t0, t1 = v0 != 0, v1 != 0
        else:
            t0, t1 = v0 <= 0, v1 <= 0
        if t0 and t1:
            return ('le', Lin(0))
        if not t0 and not t1:
            return ('le', Lin(1))
        f = inner if t1 else neg(inner)


def entails(facts, f):
    """facts: frozenset.  True if the conjunction of facts implies f."""
    f = norm_fact(f)
    k, L = f
    if not L.t:
        return (L.c <= 0) if k == 'le' else (L.c == 0) if k == 'eq' else (L.c != 0)
    if f in facts:
        return True
    if k == 'le':
        return _entails_le(facts, L)
    if k == 'eq':
        if canon('eq', L) in facts:
            return True
        return _entails_le(facts, L) and _entails_le(facts, -L)
    if canon('ne', L) in facts:
        return True
    if _entails_le(facts, L + ONE) or _entails_le(facts, ONE - L):
        return True
    # equality substitution: if an eq-fact E makes L = E + const
    for k2, X in facts:
        if k2 == 'ne':
            d = X - L
            if entails_eq0(facts, d) or entails_eq0(facts, X + L):
                return True
    # distinct address-like atoms
    return False


@lru_cache(maxsize=50000)
def entails_eq0(facts, d):
    if not d.t:
        return d.c == 0
    if canon('eq', d) in facts:
        return True
    return _entails_le(facts, d) and _entails_le(facts, -d)


def consistent(facts, f):
    """False if f contradicts facts."""
    return not entails(facts, neg(f)) if f[1].t else entails(facts, f)
