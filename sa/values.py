"""Abstract values and heap objects of the analyser."""
import types


class Ref:
    """Heap reference (address).  Interned: one Ref object per address."""
    __slots__ = ('a',)
    def __init__(self, a): self.a = a
    def __repr__(self): return f'&{self.a}'


class Sym:
    """Opaque atom: any value of type `typ` (None: any type).  Interned by name."""
    __slots__ = ('name', 'typ', 'tags')
    _all = {}
    def __repr__(self): return f'${self.name}'

def sym(name, typ=None, tags=()):
    s = Sym._all.get(name)
    if s is None:
        s = Sym(); s.name, s.typ, s.tags = name, typ, frozenset(tags)
        Sym._all[name] = s
    return s


class Term:
    """Herbrand term: uninterpreted operation applied to values.  Hash-consed."""
    __slots__ = ('op', 'args', 'typ', 'depth', 'unk')
    _all = {}
    def __repr__(self): return f"{self.op}({', '.join(map(repr, self.args))})"

MAXDEPTH = 14

def term(op, args, typ=None):
    args = tuple(args)
    key = (op, tuple((type(a).__name__, a) for a in args), typ)
    t = Term._all.get(key)
    if t is None:
        d = 1 + max([a.depth for a in args if isinstance(a, Term)], default=0)
        if d > MAXDEPTH:
            return Unk('deep term')
        t = Term(); t.op, t.args, t.typ, t.depth = op, args, typ, d
        t.unk = any(isinstance(a, Unk) or (isinstance(a, Term) and a.unk) for a in args)
        Term._all[key] = t
    return t


class Lin:
    """Linear integer form: const + sum(coef * symbolname)."""
    __slots__ = ('c', 'k', '_h')
    def __init__(self, c, k):
        self.c = c
        self.k = k          # frozenset of (name, coef)
        self._h = hash((c, k))
    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.k == o.k
    def __hash__(self): return self._h
    def __repr__(self):
        return '(' + '+'.join([f'{v}*{n}' if v != 1 else str(n) for n, v in sorted(self.k, key=repr)] + ([str(self.c)] if self.c or not self.k else [])) + ')'

def mklin(c, coefs):
    ks = frozenset((n, v) for n, v in coefs.items() if v)
    if not ks:
        return c
    return Lin(c, ks)

def as_lin(v):
    """(const, coefs dict) of an int-like value, or None."""
    if isinstance(v, bool): return (int(v), {})
    if isinstance(v, int): return (v, {})
    if isinstance(v, Lin): return (v.c, dict(v.k))
    if isinstance(v, (Sym, Term)) and v.typ in ('int',):
        return (0, {v: 1})
    return None

def lin_add(a, b, sb=1):
    ca, ka = a; cb, kb = b
    k = dict(ka)
    for n, v in kb.items():
        k[n] = k.get(n, 0) + sb * v
    return (ca + sb * cb, k)

def from_lin(p):
    c, k = p
    k = {n: v for n, v in k.items() if v}
    if c == 0 and len(k) == 1:
        (n, v), = k.items()
        if v == 1 and isinstance(n, (Sym, Term)):
            return n
    return mklin(c, k)


class Unk:
    """No information (result of imprecision).  Never the basis of an alarm."""
    __slots__ = ('why',)
    _all = {}
    def __new__(cls, why=''):
        u = cls._all.get(why)
        if u is None:
            u = object.__new__(cls); u.why = why; cls._all[why] = u
        return u
    def __repr__(self): return f'?{self.why}'


class Bound:
    __slots__ = ('func', 'self')
    def __init__(self, func, self_): self.func, self.self = func, self_
    def __eq__(self, o): return isinstance(o, Bound) and self.func == o.func and self.self == o.self
    def __hash__(self): return hash((self.func, self.self))
    def __repr__(self): return f'bound({self.func},{self.self})'


class Nat:
    """Native (modelled) function."""
    __slots__ = ('name', 'fn', 'simple')
    def __init__(self, name, fn, simple): self.name, self.fn, self.simple = name, fn, simple
    def __repr__(self): return f'<nat {self.name}>'


class _Null:
    def __repr__(self): return 'NULL'
NULL = _Null()


class Star:
    """Summary of n elements (n >= 0, a linear form) each of which looks like one of `variants`."""
    __slots__ = ('id', 'variants', 'n')
    def __init__(self, id, variants, n): self.id, self.variants, self.n = id, variants, n
    def __eq__(self, o): return isinstance(o, Star) and (self.id, self.variants, self.n) == (o.id, o.variants, o.n)
    def __hash__(self): return hash((self.id, self.variants, self.n))
    def __repr__(self): return f'*{self.id}{self.variants}x{self.n}'


# ------------------------------------------------------------------ heap objects
class Obj:
    __slots__ = ('cls', 'owner', 'star', 'd', 'site')
    kind = 'inst'
    def __init__(self, cls, d=None):
        self.cls = cls; self.owner = None; self.star = None; self.site = None
        self.d = d
    def copy(self):
        o = type(self).__new__(type(self))
        for k in self._slots():
            v = getattr(self, k)
            if type(v) in (dict, list, set): v = v.copy()
            setattr(o, k, v)
        return o
    @classmethod
    def _slots(cls):
        r = cls.__dict__.get('_sl')
        if r is None:
            r = []
            for k in cls.__mro__:
                r += [s for s in k.__dict__.get('__slots__', ()) ]
            cls._sl = r
        return r
    def children(self):
        if self.d:
            yield from self.d.values()

class Inst(Obj):
    __slots__ = ()
    def __init__(self, cls, d=None):
        super().__init__(cls, {} if d is None else d)

class ListO(Obj):
    __slots__ = ('items', 'ver')
    kind = 'list'
    def __init__(self, cls, items):
        super().__init__(cls, None); self.items = items; self.ver = 0
    def children(self):
        if self.d: yield from self.d.values()
        for i in self.items:
            if isinstance(i, Star): yield from i.variants
            else: yield i

class TupO(ListO):
    __slots__ = ()
    kind = 'tuple'

class DictO(Obj):
    """entries: ordered dict key -> (keyvalue, value);  stars: list of Star of pairs (k, v)."""
    __slots__ = ('e', 'stars', 'ver')
    kind = 'dict'
    def __init__(self, cls):
        super().__init__(cls, None); self.e = {}; self.stars = []; self.ver = 0
    def children(self):
        if self.d: yield from self.d.values()
        for k, v in self.e.values():
            yield k; yield v
        for s in self.stars:
            for k, v in s.variants:
                yield k; yield v

class SetO(Obj):
    __slots__ = ('e', 'stars', 'ver')
    kind = 'set'
    def __init__(self, cls):
        super().__init__(cls, None); self.e = {}; self.stars = []; self.ver = 0
    def children(self):
        yield from self.e.values()
        for s in self.stars: yield from s.variants

class TreeO(Obj):
    """Abstract BTree: tracked entries + unknown other entries."""
    __slots__ = ('e', 'absent', 'others', 'size', 'ver', 'label')
    kind = 'tree'
    def __init__(self, cls):
        super().__init__(cls, None)
        self.e = {}; self.absent = set(); self.others = False; self.size = 0; self.ver = 0
        self.label = None
    def children(self):
        if self.d: yield from self.d.values()
        for k, v in self.e.values():
            yield k; yield v

class ClassO(Obj):
    __slots__ = ('name', 'bases', 'mro', 'nat_new', 'native', 'mod', 'abc')
    kind = 'class'
    def __init__(self, cls, name, bases, d, native=False):
        super().__init__(cls, d); self.name = name; self.bases = bases
        self.mro = None; self.nat_new = None; self.native = native; self.mod = None; self.abc = None
    def copy(self):
        o = super().copy(); return o

class FuncO(Obj):
    __slots__ = ('code', 'globs', 'defaults', 'kwdefaults', 'closure', 'name', 'qual')
    kind = 'func'
    def __init__(self, cls, code, globs):
        super().__init__(cls, {})
        self.code = code; self.globs = globs; self.defaults = (); self.kwdefaults = {}
        self.closure = (); self.name = code.co_name; self.qual = code.co_qualname
    def children(self):
        yield from self.d.values()
        yield from self.defaults; yield from self.kwdefaults.values(); yield from self.closure

class ModO(Obj):
    __slots__ = ('name', 'ready')
    kind = 'mod'
    def __init__(self, cls, name):
        super().__init__(cls, {}); self.name = name; self.ready = False

class CellO(Obj):
    __slots__ = ('v',)
    kind = 'cell'
    def __init__(self, v=NULL):
        super().__init__(None, None); self.v = v
    def children(self):
        if self.v is not NULL: yield self.v

class IterO(Obj):
    """Iterator.  src: list ref / snapshot tuple; pos; instar: count of elements taken from a star."""
    __slots__ = ('how', 'src', 'pos', 'instar', 'ver', 'extra', 'forks')
    kind = 'iter'
    def __init__(self, cls, how, src, extra=None):
        super().__init__(cls, None)
        self.how = how; self.src = src; self.pos = 0; self.instar = 0; self.ver = None
        self.extra = extra; self.forks = 0
    def children(self):
        if isinstance(self.src, tuple):
            for i in self.src:
                if isinstance(i, Star):
                    for v in i.variants:
                        if isinstance(v, tuple): yield from v
                        else: yield v
                elif isinstance(i, tuple): yield from i
                else: yield i
        elif self.src is not None: yield self.src

class GenO(Obj):
    __slots__ = ('frame', 'state', 'coro')
    kind = 'gen'
    def __init__(self, cls, frame):
        super().__init__(cls, None); self.frame = frame; self.state = 'new'; self.coro = False
    def copy(self):
        o = super().copy()
        if o.frame is not None: o.frame = o.frame.copy()
        return o
    def children(self):
        if self.frame is not None: yield from self.frame.values()

class ViewO(Obj):
    """dict/tree view: src ref, how in keys/values/items, bounds."""
    __slots__ = ('src', 'how', 'lo', 'hi')
    kind = 'view'
    def __init__(self, cls, src, how, lo=None, hi=None):
        super().__init__(cls, None); self.src = src; self.how = how; self.lo = lo; self.hi = hi
    def children(self):
        yield self.src

class SliceO(Obj):
    __slots__ = ('a', 'b', 'c')
    kind = 'slice'
    def __init__(self, cls, a, b, c):
        super().__init__(cls, None); self.a, self.b, self.c = a, b, c
    def children(self):
        yield from (self.a, self.b, self.c)

class SuperO(Obj):
    __slots__ = ('start', 'obj')
    kind = 'super'
    def __init__(self, cls, start, obj):
        super().__init__(cls, None); self.start = start; self.obj = obj
    def children(self):
        yield self.start; yield self.obj


class Frame:
    __slots__ = ('code', 'dec', 'ip', 'stack', 'fast', 'globs', 'ns', 'kont', 'gen', 'cur', 'func', 'visits')
    def copy(self):
        f = Frame.__new__(Frame)
        f.code = self.code; f.dec = self.dec; f.ip = self.ip
        f.stack = self.stack.copy(); f.fast = self.fast.copy(); f.globs = self.globs
        f.ns = self.ns; f.kont = self.kont; f.gen = self.gen; f.cur = self.cur; f.func = self.func
        f.visits = self.visits.copy() if self.visits else self.visits
        return f
    def values(self):
        for v in self.stack:
            if v is not NULL: yield v
        for v in self.fast.values():
            if v is not NULL: yield v
        if self.ns is not None: yield self.ns
