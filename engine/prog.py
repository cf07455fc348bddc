"""Loads extracted programs (JSON produced by tool/vpextract) and indexes them."""
import json
import re
from collections import defaultdict


class Fn:
    __slots__ = ('d', 'key', 'name', 'short', 'file', 'line', 'rec', 'cls', 'params', 'body', 'ret', 'sig',
                 'const', 'static', 'virtual', 'overrides', 'isctor', 'isdtor', 'inits', 'tu', 'access', 'lam', '_size')

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.key = d['key']
        self.name = d['name']
        self.short = d['short']
        self.file = d['file']
        self.line = d['line']
        self.rec = d.get('rec')
        self.cls = d.get('cls')
        self.params = d['params']
        self.body = d['body']
        self.ret = d['ret']
        self.sig = d['sig']
        self.const = d.get('const', False)
        self.static = d.get('static', False)
        self.virtual = d.get('virtual', False)
        self.overrides = d.get('overrides', [])
        self.isctor = d.get('isctor', False)
        self.isdtor = d.get('isdtor', False)
        self.inits = d.get('inits', [])
        self.access = d.get('access', 0)
        self.lam = d.get('lambda', False)
        self._size = None

    @property
    def size(self):
        if self._size is None:
            n = 0
            st = [self.body, self.inits]
            while st:
                x = st.pop()
                if isinstance(x, list):
                    n += 1
                    st.extend(x)
            self._size = n
        return self._size

    def where(self):
        return '%s:%d' % (self.file.replace('/repo/', ''), self.line)

    def __repr__(self):
        return '<Fn %s(%s) %s>' % (self.name, self.sig, self.where())


class Rec:
    def __init__(self, d):
        self.d = d
        self.rec = d['rec']
        self.cls = d['cls']
        self.fields = d['fields']
        self.bases = d['bases']
        self.methods = d['methods']
        self.abstract = d['abstract']


def strip_targs(name):
    """class template arguments removed from the qualified name of an operator"""
    i = name.index('::operator')
    out, d = '', 0
    for ch in name[:i]:
        d += ch == '<'
        if not d:
            out += ch
        d -= ch == '>'
    return out + name[i:]


class Program:
    def __init__(self, paths):
        self.fns = {}
        self.by_name = defaultdict(list)
        self.by_rec = defaultdict(list)
        self._ops = None
        self.by_cls = defaultdict(list)
        self.recs = {}          # canonical cls -> Rec
        self.recs_by_name = defaultdict(list)
        self.enums = {}
        self.derived = defaultdict(set)      # rec name -> direct derived rec names
        self.overriders = defaultdict(list)  # key -> keys that override it
        self.virt_decl = {}
        for n, p in enumerate(paths):
            self._load(p, n)
        for f in self.fns.values():
            for o in f.overrides:
                self.overriders[o].append(f.key)

    def _load(self, path, n):
        txt = open(path).read()
        txt = txt.replace('"lambda#', '"lambda#%d_' % n)
        for d in json.loads(txt):
            k = d['kind']
            if k == 'fn':
                if d['key'] in self.fns:
                    continue
                f = Fn(d, n)
                self.fns[f.key] = f
                self.by_name[f.name].append(f)
                if f.rec:
                    self.by_rec[f.rec].append(f)
                    self.by_cls[f.cls].append(f)
            elif k == 'rec':
                if d['cls'] not in self.recs:
                    r = Rec(d)
                    self.recs[r.cls] = r
                    self.recs_by_name[r.rec].append(r)
                    for b in r.bases:
                        self.derived[b[0]].add(r.rec)
            elif k == 'enum':
                self.enums[d['name']] = d

    # -- lookups
    def find(self, name, sig=None, cls=None, nparams=None, const=None, pred=None):
        out = []
        fs = self.by_name.get(name, [])
        if not fs and '::operator' in name:
            if self._ops is None:
                self._ops = {}
                for k, v in self.by_name.items():
                    if '::operator' in k and '<' in k:
                        self._ops.setdefault(strip_targs(k), []).extend(v)
            fs = self._ops.get(name, [])
        for f in fs:
            if sig is not None and f.sig != sig:
                continue
            if cls is not None and (f.cls is None or cls not in f.cls):
                continue
            if nparams is not None and len(f.params) != nparams:
                continue
            if const is not None and f.const != const:
                continue
            if pred and not pred(f):
                continue
            out.append(f)
        return out

    def methods(self, rec, short=None, cls=None):
        return [f for f in self.by_rec.get(rec, []) if (short is None or f.short == short) and (cls is None or cls in f.cls)]

    def bases_of(self, cls, seen=None):
        """canonical class names of all transitive bases (and itself)"""
        out = [cls]
        r = self.recs.get(cls)
        if r:
            for b in r.bases:
                for x in self.bases_of(b[1]):
                    if x not in out:
                        out.append(x)
        return out

    def resolve_virtual(self, cls, key):
        """final overrider of method `key` in class cls, or None"""
        f0 = self.fns.get(key)
        if f0 is None:
            name = sig = const = None
        for c in self.bases_of(cls):
            for f in self.by_cls.get(c, []):
                if f.key == key:
                    return f
                if key in self.all_overridden(f):
                    return f
        return None

    def all_overridden(self, f):
        out = set()
        st = list(f.overrides)
        while st:
            k = st.pop()
            if k in out:
                continue
            out.add(k)
            g = self.fns.get(k)
            if g:
                st.extend(g.overrides)
        return out

    def strip(self, ty):
        t = ty
        while True:
            if t.startswith('c '):
                t = t[2:]
            elif t.startswith('&&'):
                t = t[2:]
            elif t.startswith('&'):
                t = t[1:]
            else:
                return t

    def rec_of_type(self, ty):
        t = self.strip(ty)
        if t.startswith('R:'):
            return self.recs.get(t[2:])
        return None

    def all_fields(self, cls):
        out = []
        for c in self.bases_of(cls):
            r = self.recs.get(c)
            if r:
                out += [(f, r) for f in r.fields]
        return out


def walk(x):
    """all list nodes (statements/expressions) in an IR tree, preorder"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            if y and isinstance(y[0], str):
                yield y
            st.extend(reversed(y))


def calls(x):
    for n in walk(x):
        if n[0] == 'call':
            yield n
