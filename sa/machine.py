"""Abstract machine over CPython 3.12 byte code (disjunctive states, heap, facts, fixpoints)."""
import dis, math, os, sys, time, types
from . import relang
from .values import *

sys.setrecursionlimit(20000)
_REFS = []
def ref_of(n):
    while n >= len(_REFS):
        _REFS.append(Ref(len(_REFS)))
    return _REFS[n]


class AbsExc(Exception):
    """Python-level signal used by native models to raise an abstract exception."""
    def __init__(self, name, *args):
        super().__init__(name, *args); self.name = name; self.vals = args

class Undecided(Exception):
    """The analyser meets something it has no model for."""

class Dead(Exception):
    pass


# ------------------------------------------------------------------ decoding
class Instr:
    __slots__ = ('op', 'arg', 'val', 'off', 'line', 'tgt', 'fn')

class Decoded:
    __slots__ = ('ins', 'exc', 'code', 'file')

_DEC = {}
def decode(code):
    d = _DEC.get(code)
    if d is not None:
        return d
    d = Decoded(); d.code = code; d.ins = []; d.file = code.co_filename
    idx = {}
    raw = [i for i in dis.get_instructions(code) if i.opname not in ('EXTENDED_ARG', 'CACHE')]
    ext = {}
    # EXTENDED_ARG prefixes: jump targets may name the prefix; map to the real instruction
    offs = []
    pend = []
    for i in dis.get_instructions(code):
        if i.opname == 'EXTENDED_ARG':
            pend.append(i.offset); continue
        if i.opname == 'CACHE':
            continue
        for p in pend: idx[p] = len(offs)
        pend = []
        idx[i.offset] = len(offs); offs.append(i.offset)
    line = code.co_firstlineno
    jumps = set(dis.hasjrel) | set(dis.hasjabs)
    for i in raw:
        n = Instr(); n.op = i.opname; n.arg = i.arg; n.val = i.argval; n.off = i.offset
        if i.positions and i.positions.lineno: line = i.positions.lineno
        n.line = line
        n.tgt = idx[i.argval] if i.opcode in jumps else None
        n.fn = OPS.get(i.opname)
        d.ins.append(n)
    tab = []
    for e in dis._parse_exception_table(code):
        s = idx[e.start]
        # end is exclusive offset
        en = next((j for j, o in enumerate(offs) if o >= e.end), len(offs))
        tab.append((s, en, idx[e.target], e.depth, e.lasti))
    d.exc = tab
    _DEC[code] = d
    return d


# ------------------------------------------------------------------ state
_UID = [0]
def new_uid():
    _UID[0] += 1
    return _UID[0]

class State:
    __slots__ = ('base', 'over', 'uid', 'next', 'frames', 'facts', 'iv', 'ghost', 'events', 'imp',
                 'trace', 'mat', 'mods', 'forks', 'result', 'seen', 'steps', 'fresh', 'flags')
    def __init__(self):
        self.base = {}; self.over = {}; self.uid = new_uid(); self.next = 0
        self.frames = []; self.facts = {}; self.iv = {}; self.ghost = {}; self.events = ()
        self.imp = (); self.trace = (); self.mat = {}; self.mods = {}; self.forks = 0
        self.result = None; self.seen = {}; self.steps = 0; self.fresh = 0; self.flags = {}

    def fork(self):
        s = State.__new__(State)
        s.base = self.base; s.over = self.over.copy(); s.next = self.next
        s.frames = [f.copy() for f in self.frames]
        s.facts = self.facts.copy(); s.iv = self.iv.copy(); s.ghost = self.ghost.copy()
        s.events = self.events; s.imp = self.imp; s.trace = self.trace
        s.mat = {k: v.copy() for k, v in self.mat.items()}
        s.mods = self.mods.copy(); s.forks = self.forks; s.result = self.result
        s.seen = self.seen; s.steps = self.steps; s.fresh = self.fresh; s.flags = self.flags.copy()
        s.uid = new_uid(); self.uid = new_uid()
        return s

    def freeze(self):
        """Make everything allocated so far the shared base (cheap forks afterwards)."""
        self.base = {**self.base, **self.over}; self.over = {}
        self.uid = new_uid()

    def alloc(self, obj):
        r = ref_of(self.next); self.next += 1
        obj.owner = self.uid
        self.over[r] = obj
        sa = self.active_stars()
        if sa: obj.star = sa[-1]
        return r

    def rd(self, r):
        o = self.over.get(r)
        return o if o is not None else self.base[r]

    def wr(self, r):
        o = self.over.get(r)
        if o is None:
            o = self.base[r].copy(); o.owner = self.uid; self.over[r] = o
        elif o.owner != self.uid:
            o = o.copy(); o.owner = self.uid; self.over[r] = o
        return o

    def langs(self): return dict(self.ghost.get('%lang', ()))
    def top(self): return self.frames[-1]
    def push(self, v): self.frames[-1].stack.append(v)

    def kind(self, v):
        return self.rd(v).kind if isinstance(v, Ref) else None

    # -- stars currently being iterated by live iterators
    def active_stars(self):
        if not self.flags.get('stars'): return ()
        out = []
        seen = set()
        def look(vals):
            for v in vals:
                if isinstance(v, Ref) and v not in seen:
                    o = self.over.get(v) or self.base.get(v)
                    if o is None: continue
                    if o.kind == 'iter':
                        seen.add(v)
                        if o.instar and v not in out: out.append(v)
                    elif o.kind == 'gen':
                        seen.add(v)
                        if o.frame is not None: look(o.frame.stack)
        for f in self.frames: look(f.stack)
        return out


class Outcome:
    __slots__ = ('kind', 'val', 'st')
    def __init__(self, kind, val, st): self.kind, self.val, self.st = kind, val, st
    def __repr__(self): return f'{self.kind}:{self.val}'


OPS = {}
def op(*names):
    def d(f):
        for n in names: OPS[n] = f
        return f
    return d


from .semantics import Sem

class Machine(Sem):
    MAXSTATES = 60000
    def __init__(self, repo='/repo', maxsteps=40_000_000):
        self.repo = repo
        self.maxsteps = maxsteps
        self.total = 0
        self.deadline = None
        self.incomplete = []      # reasons for incompleteness of the current run
        self.unmodelled = {}      # name -> count
        self.analysed = set()     # (file, qualname) of repo functions analysed
        self.sites = set()        # repo call sites (file, line) visited
        self.forkcount = 0
        self.dropped = 0
        self.types = {}           # builtin type name -> Ref
        self.nat = {}
        self.sources = {}
        self.choices = {}         # scenario-controlled choice points for stubs
        self.stub_dir = os.path.join(os.path.dirname(__file__), 'stubs')
        self.spec_dir = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
        from . import builtins_model
        self.st0 = State()
        builtins_model.install(self, self.st0)

    # ---------------------------------------------------------------- run loop
    def run(self, st, budget=None):
        """Run one abstract state to completion; returns list of final states."""
        work = [st]
        done = []
        nstates = 0
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline:
                self.incomplete.append('time limit'); break
            try:
                r = self.run_one(s)
            except Dead:
                self.dropped += 1
                continue
            except Undecided as e:
                loc = self.where(s)
                self.incomplete.append(f'{e} at {loc}')
                continue
            if r is None:
                done.append(s)
            else:
                nstates += len(r)
                if nstates > self.MAXSTATES:
                    self.incomplete.append('state limit'); break
                work.extend(reversed(r))
        return done

    def run_one(self, st):
        frames = st.frames
        n = 0
        try:
            while st.result is None:
                f = st.frames[-1]
                ins = f.dec.ins[f.ip]
                f.ip += 1
                n += 1
                fn = ins.fn
                if fn is None:
                    raise Undecided(f'opcode {ins.op}')
                try:
                    r = fn(self, st, f, ins)
                except AbsExc as e:
                    r = self.throw(st, e.name, *e.vals)
                if r is not None:
                    return r
                if not n & 1023 and self.deadline and time.time() > self.deadline:
                    raise Undecided('time limit')
                if n > 3_000_000:
                    raise Undecided('step limit')
            return None
        finally:
            self.total += n
            st.steps += n

    def where(self, st):
        for f in reversed(st.frames):
            if f.code.co_filename.startswith(self.repo):
                return f'{os.path.relpath(f.code.co_filename, self.repo)}:{self.line(f)} in {f.code.co_qualname}'
        if st.frames:
            f = st.frames[-1]
            return f'{f.code.co_filename}:{self.line(f)} in {f.code.co_qualname}'
        return '?'

    def stackinfo(self, st):
        out = []
        for f in st.frames:
            if f.code.co_filename.startswith(self.repo):
                out.append(f'{os.path.relpath(f.code.co_filename, self.repo)}:{self.line(f)} {f.code.co_qualname}')
        return out

    def line(self, f):
        i = max(0, f.ip - 1)
        return f.dec.ins[i].line if i < len(f.dec.ins) else 0

    # ---------------------------------------------------------------- entry
    def call_outcomes(self, st, func, args=(), kw=None):
        """Abstractly call func in a copy of st (which must have no frames); all outcomes."""
        s = st.fork()
        s.frames = []; s.result = None; s.seen = {}
        return self._finish(s, lambda s: self.call(s, func, list(args), dict(kw or {}), self.k_done))

    def _finish(self, s, start):
        fr = self.new_frame(s, _HALT, None)
        s.frames.append(fr)
        try:
            r = start(s)
        except AbsExc as e:
            r = self.throw(s, e.name, *e.vals)
        except Dead:
            return []
        except Undecided as e:
            self.incomplete.append(f'{e} at {self.where(s)}')
            return []
        states = [s] if r is None else r
        outs = []
        for x in states:
            for d in self.run(x):
                kind, val = d.result
                d.result = None; d.frames = []
                outs.append(Outcome(kind, val, d))
        return outs

    def k_done(self, st, v):
        st.result = ('ret', v); st.frames = []

    def get_outcomes(self, st, obj, name):
        s = st.fork(); s.frames = []; s.result = None; s.seen = {}
        return self._finish(s, lambda s: self.getattr(s, obj, name, self.k_done))

    def set_outcomes(self, st, obj, name, val):
        s = st.fork(); s.frames = []; s.result = None; s.seen = {}
        return self._finish(s, lambda s: self.setattr(s, obj, name, val, lambda s2: self.k_done(s2, None)))

    def native_outcomes(self, st, fn):
        """fn(machine, state) -> None|[states], finishing through m.k_done"""
        s = st.fork(); s.frames = []; s.result = None; s.seen = {}
        return self._finish(s, lambda s: fn(self, s))

    def method_outcomes(self, st, obj, name, args=(), kw=None):
        s = st.fork(); s.frames = []; s.result = None; s.seen = {}
        return self._finish(s, lambda s: self.getattr(
            s, obj, name, lambda s2, f: self.call(s2, f, list(args), dict(kw or {}), self.k_done)))

    # ---------------------------------------------------------------- frames
    def new_frame(self, st, code, globs, kont=None):
        f = Frame.__new__(Frame)
        f.code = code; f.dec = decode(code); f.ip = 0; f.stack = []; f.fast = {}
        f.globs = globs; f.ns = None; f.kont = kont; f.gen = None; f.cur = None; f.func = None
        f.visits = None
        return f

    def k_push(self, st, v):
        st.frames[-1].stack.append(v)

    def ret(self, st, v):
        """Return v from the top frame."""
        f = st.frames.pop()
        if f.gen is not None:
            g = st.wr(f.gen); g.state = 'done'; g.frame = None
        k = f.kont
        if type(k) is tuple:
            return k[2](st, v) if k[3] else k[2](st)
        return k(st, v)

    # ---------------------------------------------------------------- exceptions
    def mkexc(self, st, name, *vals):
        cls = self.types.get(name)
        if cls is None: raise Undecided(f'exception type {name}')
        i = Inst(cls)
        i.d['%args'] = self.mktuple(st, vals)
        return st.alloc(i)

    def throw(self, st, name, *vals):
        return self.raise_(st, self.mkexc(st, name, *vals))

    def raise_(self, st, exc, lasti_ip=None):
        o = st.rd(exc)
        if '%origin' not in (o.d or {}):
            st.wr(exc).d['%origin'] = self.where(st)
        while st.frames:
            f = st.frames[-1]
            ip = f.ip - 1
            for s, e, tgt, depth, lasti in reversed(f.dec.exc):
                if s <= ip < e:
                    del f.stack[depth:]
                    if lasti: f.stack.append(ip)
                    f.stack.append(exc)
                    f.ip = tgt
                    return None
            st.frames.pop()
            if f.gen is not None:
                g = st.wr(f.gen); g.state = 'done'; g.frame = None
            if f.code is _HALT or not st.frames:
                st.frames = []
                st.result = ('exc', exc)
                return None
        st.result = ('exc', exc)
        return None

    def exc_name(self, st, exc):
        return st.rd(st.rd(exc).cls).name

    def is_sub(self, st, cls, base):
        return base in st.rd(cls).mro

    def exc_is(self, st, exc, *names):
        mro = [st.rd(c).name for c in st.rd(st.rd(exc).cls).mro]
        return any(n in mro for n in names)

    # ---------------------------------------------------------------- forking
    def branch(self, st, alts):
        """alts: list of (label, fn(st)->None|list).  First runs on copies."""
        st.forks += 1
        self.forkcount += 1
        out = []
        n = len(alts)
        loc = self.where(st)
        for i, (label, fn) in enumerate(alts):
            s = st.fork() if i < n - 1 else st
            s.trace = s.trace + ((loc, label),)
            try:
                try:
                    r = fn(s)
                except AbsExc as e:
                    r = self.throw(s, e.name, *e.vals)
            except Dead:
                continue
            except Undecided as e:
                self.incomplete.append(f'{e} at {self.where(s)}')
                continue
            if r is None: out.append(s)
            else: out.extend(r)
        return out

    def fork_fact(self, st, key, k, label=None):
        if key in st.facts:
            return k(st, st.facts[key])
        def alt(b):
            def go(s):
                s.facts[key] = b
                return k(s, b)
            return go
        lab = label or repr(key)
        return self.branch(st, [(f'{lab} is true', alt(True)), (f'{lab} is false', alt(False))])

    def fork_unk(self, st, k, why):
        def alt(b):
            def go(s):
                s.imp = s.imp + (f'{why} at {self.where(s)}',) if len(s.imp) < 8 else s.imp
                return k(s, b)
            return go
        return self.branch(st, [(f'unknown {why} true', alt(True)), (f'unknown {why} false', alt(False))])

    # ---------------------------------------------------------------- truth
    def bounds(self, st, c, k):
        lo = hi = c
        for n, v in k.items():
            a, b = st.iv.get(n, (None, None))
            if isinstance(n, Star): a, b = None, None
            if v < 0: a, b = b, a
            lo = None if lo is None or a is None else lo + v * a
            hi = None if hi is None or b is None else hi + v * b
        return lo, hi

    def lin_key(self, co):
        """canonical (key, sign) of the linear part of a form"""
        items = sorted(co.items(), key=lambda x: repr(x[0]))
        sg = 1 if items[0][1] > 0 else -1
        if len(items) == 1 and abs(items[0][1]) == 1: return items[0][0], sg
        return frozenset((n, v * sg) for n, v in items), sg

    def iv_get(self, st, key):
        return st.iv.get(key, (None, None))

    def lin_bounds(self, st, p):
        c, co = p
        co = {n: v for n, v in co.items() if v}
        lo, hi = self.bounds(st, c, co)
        if len(co) > 1 or (co and abs(next(iter(co.values()))) != 1):
            key, sg = self.lin_key(co)
            a, b = self.iv_get(st, key)
            if sg < 0: a, b = (None if b is None else -b), (None if a is None else -a)
            if a is not None: lo = a + c if lo is None else max(lo, a + c)
            if b is not None: hi = b + c if hi is None else min(hi, b + c)
        return lo, hi

    def polyhedral(self, st, c, co):
        """(can p >= 0 hold?, can p < 0 hold?) under the linear relations known in the state: Fourier-Motzkin
        elimination over the relations that share variables with p.  True means 'not excluded'."""
        exact = '%exact' in st.ghost
        rel = []            # each (const, {var: coef}) means const + sum >= 0
        vars_ = set(co)
        pend = list(st.iv.items())
        changed = True; comp = False
        while changed:
            changed = False
            rest = []
            for key, (l, h) in pend:
                if isinstance(key, frozenset): ks = dict(key)
                else: ks = {key: 1}
                if not vars_ & set(ks):
                    rest.append((key, (l, h))); continue
                if len(ks) > 1:
                    comp = True
                    if not set(ks) <= vars_:
                        vars_ |= set(ks); changed = True
                if l is not None: rel.append((-l, dict(ks)))
                if h is not None: rel.append((h, {n: -v for n, v in ks.items()}))
            pend = rest
        if not comp or len(vars_) > (20 if exact else 8) or len(rel) > (90 if exact else 40): return True, True
        def feasible(cs):
            cs = [(c, dict(k)) for c, k in cs]
            todo = set(vars_)
            while todo:
                if exact:           # integers: divide by the common factor, keep the strongest of parallel relations
                    best_ = {}
                    for c, k in cs:
                        if k:
                            g = math.gcd(*k.values())
                            if g > 1: c, k = c // g, {n: v // g for n, v in k.items()}
                        key = frozenset(k.items())
                        if key not in best_ or best_[key][0] > c: best_[key] = (c, k)
                    cs = list(best_.values())
                cs = [x for x in cs if x[1] or x[0] < 0]
                if any(not k and c < 0 for c, k in cs): return False
                best = None
                for v in todo:
                    np = sum(1 for c, k in cs if k.get(v, 0) > 0); nn = sum(1 for c, k in cs if k.get(v, 0) < 0)
                    if best is None or np * nn < best[0]: best = (np * nn, v)
                v = best[1]; todo.discard(v)
                pos = [x for x in cs if x[1].get(v, 0) > 0]; neg = [x for x in cs if x[1].get(v, 0) < 0]
                new = {}
                for c, k in cs:
                    if not k.get(v, 0): new[(c, frozenset(k.items()))] = 1
                for c1, k1 in pos:
                    for c2, k2 in neg:
                        a, b = k1[v], -k2[v]
                        k = {}
                        for n in set(k1) | set(k2):
                            if n == v: continue
                            x = b * k1.get(n, 0) + a * k2.get(n, 0)
                            if x: k[n] = x
                        new[(b * c1 + a * c2, frozenset(k.items()))] = 1
                if len(new) > 400: return True
                cs = [(c, dict(k)) for c, k in new]
            return not any(c < 0 for c, k in cs)
        return feasible(rel + [(c, co)]), feasible(rel + [(-c - 1, {n: -v for n, v in co.items()})])

    def ge0(self, st, p, k):
        """k(st, bool): p >= 0 where p=(c, coefs)"""
        c, co = p
        co = {n: v for n, v in co.items() if v}
        if '%exact' in st.ghost and co:
            g = math.gcd(*co.values())
            if g > 1: c, co = c // g, {n: v // g for n, v in co.items()}
        lo, hi = self.lin_bounds(st, (c, co))
        if lo is not None and lo >= 0: return k(st, True)
        if hi is not None and hi < 0: return k(st, False)
        if co and not any(isinstance(n, Term) and n.unk for n in co):
            yes, no = self.polyhedral(st, c, co)
            if not yes and not no: raise Dead()
            if not no: return k(st, True)
            if not yes: return k(st, False)
        if any(isinstance(n, Term) and n.unk for n in co):
            return self.fork_unk(st, k, 'comparison of unknown numbers')
        key, sg = self.lin_key(co)
        def alt(b):
            def go(s):
                l, h = self.iv_get(s, key)
                if sg == 1:     # L >= -c
                    if b: l = -c if l is None else max(l, -c)
                    else: h = -c - 1 if h is None else min(h, -c - 1)
                else:           # L <= c
                    if b: h = c if h is None else min(h, c)
                    else: l = c + 1 if l is None else max(l, c + 1)
                s.iv[key] = (l, h)
                return k(s, b)
            return go
        lab = f'{from_lin((c, co))} >= 0'
        return self.branch(st, [(lab, alt(True)), ('not ' + lab, alt(False))])

    def truth(self, st, v, k):
        if v is None or v is NULL: return k(st, False)
        if isinstance(v, bool): return k(st, v)
        if isinstance(v, (int, float, str, bytes, complex)): return k(st, bool(v))
        if v is Ellipsis or isinstance(v, (Nat, Bound, types.CodeType)): return k(st, True)
        if isinstance(v, Ref):
            o = st.rd(v)
            kd = o.kind
            if kd in ('list', 'tuple', 'dict', 'set', 'tree', 'view'):
                return self.length(st, v, lambda s, n: self.truth(s, n, k))
            if kd == 'inst' :
                cls = st.rd(o.cls)
                for nm in ('__bool__', '__len__'):
                    f = self.mro_find(st, o.cls, nm)
                    if f is not None:
                        return self.call(st, self.bind_simple(st, f, v, o.cls), [], {},
                                         lambda s, r: self.truth(s, r, k))
                return k(st, True)
            return k(st, True)
        if isinstance(v, Lin):
            c, co = as_lin(v)
            # v != 0:  v>=1 or v<=-1
            lo, hi = self.lin_bounds(st, (c, co))
            if lo is not None and lo >= 0:
                if '%exact' in st.ghost: self.know(st, (c, co))
                return self.ge0(st, lin_add((c, co), (-1, {})), k)
            if hi is not None and hi < 0: return k(st, True)
            if '%exact' in st.ghost:
                return self.ge0(st, (c, co), lambda s, x: k(s, True) if not x else (self.know(s, (c, co)), self.ge0(s, lin_add((c, co), (-1, {})), k))[1])
            return self.fork_fact(st, ('truth', v), k)
        if isinstance(v, Unk): return self.fork_unk(st, k, v.why)
        if '%lang' in st.ghost and isinstance(v, (Sym, Term)):
            q = relang.question(st, v)
            if q is not None: return relang.member(self, st, q[0], q[1], k, f'{v}')
        if isinstance(v, Term):
            if v.op == 'not':
                return self.truth(st, v.args[0], lambda s, b: k(s, not b))
            if v.op == 'ge0':
                p = as_lin(v.args[0])
                return self.ge0(st, p, k)
            if v.op == 'lineq':
                p = as_lin(v.args[0])
                def second(s, b):
                    if not b: return k(s, False)
                    return self.ge0(s, (-p[0], {n: -x for n, x in p[1].items()}), k)
                return self.ge0(st, p, second)
            if v.unk: return self.fork_unk(st, k, f'{v.op}')
            if v.op == 'eq' or v.op == 'is':
                a, b = v.args
                if b is None and st.facts.get(('truth', a)) is True: return k(st, False)
                if v.op == 'eq' and b is None and ('is', a, None) in st.facts:
                    return k(st, st.facts[('is', a, None)])
                key = (v.op, a, b)
                if key not in st.facts and (v.op, b, a) in st.facts: key = (v.op, b, a)
                if a == b and type(a) is type(b) and v.op == 'eq': return k(st, True)
                if key not in st.facts:
                    r = self.decide_rel(st, v.op, a, b)
                    if r is not None: return k(st, r)
                    if v.op == 'is' and st.facts.get(('eq', a, b), st.facts.get(('eq', b, a))) is False: return k(st, False)
                return self.fork_fact(st, key, k, f'{a} {"==" if v.op == "eq" else "is"} {b}')
            if v.op == 'lt' and ('truth', v) not in st.facts:
                r = self.decide_rel(st, 'lt', *v.args)
                if r is not None: return k(st, r)
            if v.op == 'isinst':
                return self.fork_fact(st, ('isinst',) + v.args, k, f'isinstance{v.args}')
            if v.op == 'td_const': return self.truth(st, v.args[0], k)
            if v.typ in ('datetime', 'object', 'func'): return k(st, True)
            if v.typ == 'str' and v.op in ('fmt', 'str') :
                return k(st, True) if self.nonempty_fmt(v) else self.fork_fact(st, ('truth', v), k)
            if v.typ == 'int' and ('truth', v) not in st.facts: return self.truth_int(st, v, k)
            return self.fork_fact(st, ('truth', v), k, f'bool({v})')
        if isinstance(v, Sym):
            if ('is', v, None) in st.facts and st.facts[('is', v, None)]: return k(st, False)
            if v.typ in ('datetime', 'object', 'func'): return k(st, True)
            if v.typ == 'int' and ('truth', v) not in st.facts: return self.truth_int(st, v, k)
            for fk, fv in st.facts.items():
                if fv is True and fk[0] == 'eq' and fk[1] is v and not isinstance(fk[2], (Sym, Term, Ref)):
                    return k(st, bool(fk[2]))
            return self.fork_fact(st, ('truth', v), k, f'bool({v})')
        if isinstance(v, Star): raise Undecided('truth of star')
        raise Undecided(f'truth of {v!r}')

    def truth_int(self, st, v, k):
        """an integer is true unless it is zero"""
        b = st.iv.get(v) or (None, None)
        if b[0] is not None and b[0] > 0 or b[1] is not None and b[1] < 0: return k(st, True)
        if b == (0, 0): return k(st, False)
        p = as_lin(v)
        up, down = lin_add(p, (-1, {})), lin_add((-1, {}), p, -1)
        if b[0] is not None and b[0] == 0: return self.ge0(st, up, k)
        if b[1] is not None and b[1] == 0: return self.ge0(st, down, k)
        return self.ge0(st, p, lambda s, x: k(s, True) if not x else self.ge0(s, up, k))

    def nonempty_fmt(self, v):
        return any(isinstance(a, str) and a for a in v.args) or v.op == 'str' and any(isinstance(a, Term) and a.op == 'fresh' for a in v.args)

    # ---------------------------------------------------------------- equality and order facts
    TOTAL = ('str', 'bytes', 'datetime', 'timedelta', 'float')
    def decide_rel(self, st, op, a, b):
        """True / False / None: what the facts of the state say about `a op b` (op: eq, is, lt).
        Equalities form classes; strict and (for totally ordered types) non-strict inequalities are chained."""
        eqs, neqs, lts, les = [], [], [], []
        for q, v in st.facts.items():
            q0 = q[0]
            if q0 == 'eq' or q0 == 'is':
                if v: eqs.append((q[1], q[2]))
                elif q0 == 'eq': neqs.append((q[1], q[2]))
            elif q0 == 'truth' and type(q[1]) is Term and q[1].op == 'lt':
                x, y = q[1].args
                if v: lts.append((x, y))
                elif self.totally(x) and self.totally(y): les.append((y, x))
        if op == 'is' and not eqs and not neqs and not lts: return None
        if not (eqs or neqs or lts or les):
            if op != 'lt': return None
        def key(x): return (type(x).__name__, x)
        par = {}
        def find(x):
            k = key(x)
            while k in par: k = par[k]
            return k
        def union(x, y):
            x, y = find(x), find(y)
            if x != y: par[x] = y
        for x, y in eqs: union(x, y)
        A, B = find(a), find(b)
        members = {}
        for x in {k2: 1 for e in eqs for k2 in (key(e[0]), key(e[1]))} | {key(a): 1, key(b): 1}:
            r = x
            while r in par: r = par[r]
            members.setdefault(r, []).append(x[1])
        ma, mb = members.get(A, [a]), members.get(B, [b])
        if op != 'lt':
            if A == B: return True if op == 'eq' else None
            for x in ma:
                for y in mb:
                    cx, cy = isinstance(x, self.CONSTS), isinstance(y, self.CONSTS)
                    if cx and cy and x != y: return False
                    if not (cx and cy) and self.distinct(x, y): return False
            for x, y in neqs:
                x, y = find(x), find(y)
                if (x, y) == (A, B) or (y, x) == (A, B): return False
        if not (lts or les): 
            return False if op == 'lt' and A == B else None
        # order
        edges = {}
        nodes = set()
        def edge(x, y, strict):
            edges.setdefault(x, {}); edges[x][y] = edges[x].get(y, False) or strict
            nodes.add(x); nodes.add(y)
        for x, y in lts: edge(find(x), find(y), True)
        for x, y in les: edge(find(x), find(y), self.distinct(x, y) or any((find(u), find(w)) in ((find(x), find(y)), (find(y), find(x))) for u, w in neqs))
        nodes |= {A, B}
        cs = sorted([(x[1], n) for n in nodes for x in [key(v) for v in members.get(n, [n[1]])] if x[0] == 'str'])
        for (c1, n1), (c2, n2) in zip(cs, cs[1:]):
            if c1 < c2: edge(n1, n2, True)
        def reach(x, y):
            """None, 'le' or 'lt'"""
            best = {x: False}
            todo = [x]
            while todo:
                u = todo.pop()
                for w, strict in edges.get(u, {}).items():
                    t = best[u] or strict
                    if w not in best or (t and not best[w]):
                        best[w] = t; todo.append(w)
            if y not in best or (x == y): return None
            return 'lt' if best[y] else 'le'
        f, g = reach(A, B), reach(B, A)
        if op == 'lt':
            if A == B: return False
            if f == 'lt': return True
            if g: return False
            return None
        if f == 'lt' or g == 'lt': return False
        if f == 'le' and g == 'le': return True if op == 'eq' else None
        return None

    CONSTS = (bool, int, float, str, bytes, type(None))
    def totally(self, x):
        return isinstance(x, str) or getattr(x, 'typ', None) in self.TOTAL

    # ---------------------------------------------------------------- types
    def typeof(self, st, v):
        """Ref of the class of v, or None if unknown."""
        T = self.types
        if v is None: return T['NoneType']
        t = type(v)
        if t is bool: return T['bool']
        if t is int: return T['int']
        if t is str: return T['str']
        if t is float: return T['float']
        if t is bytes: return T['bytes']
        if t is Lin: return T['int']
        if t is Ref:
            o = st.rd(v)
            if o.cls is not None: return o.cls
            return T['object']
        if t is Nat: return T['builtin_function_or_method']
        if t is Bound: return T['method']
        if t is Sym or t is Term:
            if v.typ is None:
                for fk, fv in st.facts.items():
                    if fv is True and fk[0] == 'isinst' and fk[1] is v and isinstance(fk[2], Ref) and fk[2] in T.values():
                        return fk[2]
                if st.facts.get(('is', v, None)): return T['NoneType']
                return None
            return T.get(v.typ)
        if v is Ellipsis: return T['ellipsis']
        if t is complex: return T['complex']
        if t is types.CodeType: return T['code']
        return None

    def mro_find(self, st, cls, name):
        for c in st.rd(cls).mro:
            d = st.rd(c).d
            if name in d:
                r = d[name]
                if c is self.types['object'] and name not in ('__class__', '__doc__'): return None
                return r
        return None

    def mro_find_raw(self, st, cls, name):
        for c in st.rd(cls).mro:
            d = st.rd(c).d
            if name in d:
                return d[name], c
        return None, None

    def isa(self, st, v, *names):
        """v is an instance (InstO) whose class derives from builtin `name`"""
        if not isinstance(v, Ref): return False
        o = st.rd(v)
        if o.cls is None: return False
        mro = st.rd(o.cls).mro
        return any(self.types[n] in mro for n in names)

    # ---------------------------------------------------------------- binding
    def bind_simple(self, st, a, obj, cls):
        if isinstance(a, Nat): return Bound(a, obj)
        if isinstance(a, Ref):
            o = st.rd(a)
            if o.kind == 'func': return Bound(a, obj)
            if o.kind == 'inst' and o.cls is not None:
                if self.isa(st, a, 'classmethod'): return self.bind_simple(st, o.d['%f'], cls, cls)
                if self.isa(st, a, 'staticmethod'): return o.d['%f']
        return a

    def bind(self, st, a, obj, cls, k):
        """descriptor __get__ for an attribute found on the class; obj None: class access"""
        if isinstance(a, Nat):
            return k(st, a if obj is None else Bound(a, obj))
        if isinstance(a, Ref):
            o = st.rd(a)
            if o.kind == 'func':
                return k(st, a if obj is None else Bound(a, obj))
            if o.kind == 'inst' and o.cls is not None:
                if self.isa(st, a, 'classmethod'):
                    return self.bind(st, o.d['%f'], cls, cls, k)
                if self.isa(st, a, 'staticmethod'): return k(st, o.d['%f'])
                if self.isa(st, a, 'property'):
                    if obj is None: return k(st, a)
                    fg = o.d.get('%fget')
                    if fg is None: return self.throw(st, 'AttributeError', 'unreadable attribute')
                    return self.call(st, fg, [obj], {}, k)
                g = self.mro_find(st, o.cls, '__get__')
                if g is not None:
                    return self.call(st, self.bind_simple(st, g, a, o.cls), [obj, cls], {}, k)
        if isinstance(a, Bound): return k(st, a)
        return k(st, a)

    def is_data_desc(self, st, a):
        if isinstance(a, Ref):
            o = st.rd(a)
            if o.kind == 'inst' and o.cls is not None:
                if self.isa(st, a, 'property'): return True
                return self.mro_find(st, o.cls, '__set__') is not None
        return False

    # ---------------------------------------------------------------- getattr
    def getattr(self, st, v, name, k):
        if isinstance(v, Ref):
            o = st.rd(v)
            kd = o.kind
            if kd == 'class': return self.class_getattr(st, v, name, k)
            if kd == 'mod':
                if name in o.d: return k(st, o.d[name])
                if name == '__dict__': return k(st, self.dict_of(st, o.d))
                g = o.d.get('__getattr__')
                if g is not None: return self.call(st, g, [name], {}, k)
                sub = f'{o.name}.{name}'
                if sub in st.mods: return k(st, st.mods[sub])
                if self.stub_lacks(o, name): return k(st, Unk(f'{o.name}.{name}'))
                return self.throw(st, 'AttributeError', f"module '{o.name}' has no attribute '{name}'")
            if kd == 'super': return self.super_getattr(st, o.start, o.obj, name, k)
            if kd == 'func':
                if name in o.d: return k(st, o.d[name])
                if name == '__name__': return k(st, o.name)
                if name == '__qualname__': return k(st, o.qual)
                if name == '__doc__':
                    c = o.code.co_consts
                    return k(st, c[0] if c and isinstance(c[0], str) else None)
                if name == '__dict__': return k(st, self.dict_of(st, o.d))
                if name == '__module__': return k(st, self.globs_name(st, o.globs))
                if name == '__defaults__': return k(st, self.mktuple(st, o.defaults) if o.defaults else None)
                if name == '__code__': return k(st, o.code)
                if name == '__globals__': return k(st, self.dict_of(st, st.rd(o.globs).d))
                if name == '__closure__': return k(st, None)
                if name == '__annotations__': return k(st, st.alloc(DictO(self.types['dict'])))
                if name == '__kwdefaults__': return k(st, None)
                if name == '__type_params__': return k(st, self.mktuple(st, ()))
                if name == '__wrapped__': return self.throw(st, 'AttributeError', name)
            if o.cls is None: raise Undecided(f'getattr {name} on {kd}')
            return self.inst_getattr(st, v, o, o.cls, name, k)
        if isinstance(v, Bound):
            if name == '__self__': return k(st, v.self)
            if name == '__func__': return k(st, v.func)
            if isinstance(v.func, Nat):
                if name in ('__name__', '__qualname__'): return k(st, v.func.name.split('.')[-1])
                if name == '__doc__': return k(st, None)
            return self.getattr(st, v.func, name, k)
        if isinstance(v, Nat):
            if name in ('__name__', '__qualname__'): return k(st, v.name.split('.')[-1])
            if name == '__doc__': return k(st, None)
            if name == '__dict__': return k(st, self.dict_of(st, {}))
            if name == '__module__': return k(st, 'builtins')
            return self.throw(st, 'AttributeError', name)
        if isinstance(v, Unk): return k(st, v)
        cls = self.typeof(st, v)
        if cls is None:
            if isinstance(v, (Sym, Term)):
                if name == '__class__': return k(st, term('type', (v,)))
                return k(st, term('attr', (v, name)))
            raise Undecided(f'getattr {name} of {v!r}')
        return self.inst_getattr(st, v, None, cls, name, k)

    def globs_name(self, st, g):
        return st.rd(g).d.get('__name__', '') if g is not None else ''

    def inst_getattr(self, st, v, o, cls, name, k):
        if name == '__class__': return k(st, cls)
        ga = self.mro_find(st, cls, '__getattribute__')
        if ga is not None and isinstance(ga, Ref):
            raise Undecided('user __getattribute__')
        return self.inst_getattr2(st, v, o, cls, name, k)

    def inst_getattr2(self, st, v, o, cls, name, k):
        a, owner = self.mro_find_raw(st, cls, name)
        if a is not None and self.is_data_desc(st, a):
            return self.bind(st, a, v, cls, k)
        if o is not None and o.d is not None:
            if name == '__dict__': return k(st, self.dict_of(st, o.d, v))
            if '%' + name in o.d and name in ('fget', 'fset', 'fdel', 'args', '__func__', '__wrapped__') and st.rd(cls).mro is not None:
                return k(st, o.d['%' + name])
            if name in o.d: return k(st, o.d[name])
            if name == 'value' and '%args' in o.d and self.types.get('StopIteration') in (st.rd(cls).mro or ()):
                xs = st.rd(o.d['%args']).items
                return k(st, xs[0] if xs else None)
        if owner is not None:
            return self.bind(st, a, v, cls, k)
        if name == '__doc__':
            if o is not None and o.d and '__doc__' in o.d: return k(st, o.d['__doc__'])
            return k(st, None)
        g = self.mro_find(st, cls, '__getattr__')
        if g is not None:
            return self.call(st, self.bind_simple(st, g, v, cls), [name], {}, k)
        if o is None and isinstance(v, (Sym, Term)) and not st.rd(cls).native:
            pass
        if isinstance(v, (Sym, Term)) and st.rd(cls).name in ('object',):
            return k(st, term('attr', (v, name)))
        self.check_modelled(st, cls, name)
        return self.throw(st, 'AttributeError', f"'{st.rd(cls).name}' object has no attribute '{name}'")

    def dict_of(self, st, d, owner=None):
        r = st.alloc(DictO(self.types['dict']))
        o = st.wr(r)
        for n, x in d.items():
            if not n.startswith('%'):
                o.e[('s', n)] = (n, x)
        if owner is not None:
            o.d = {'%dictof': owner}
        return r

    def class_getattr(self, st, v, name, k):
        o = st.rd(v)
        if name == '__name__': return k(st, o.name)
        if name == '__qualname__': return k(st, o.d.get('__qualname__', o.name))
        if name == '__mro__': return k(st, self.mktuple(st, o.mro))
        if name == 'mro': return k(st, Bound(self.nat['type.mro'], v))
        if name == '__bases__': return k(st, self.mktuple(st, o.bases))
        if name == '__base__': return k(st, o.bases[0] if o.bases else None)
        if name == '__dict__': return k(st, self.dict_of(st, o.d))
        if name == '__class__': return k(st, o.cls or self.types['type'])
        if name == '__subclasses__': raise Undecided('__subclasses__')
        a, owner = self.mro_find_raw(st, v, name)
        if owner is not None:
            return self.bind(st, a, None, v, k)
        if name == '__doc__': return k(st, None)
        if name == '__module__': return k(st, o.mod)
        meta = o.cls or self.types['type']
        if meta is not self.types['type']:
            a, owner = self.mro_find_raw(st, meta, name)
            if owner is not None: return self.bind(st, a, v, meta, k)
        if name in st.rd(self.types['type']).d:
            return k(st, Bound(st.rd(self.types['type']).d[name], v))
        self.check_modelled(st, v, name)
        return self.throw(st, 'AttributeError', f"type object '{o.name}' has no attribute '{name}'")

    def super_getattr(self, st, start, obj, name, k):
        """attribute lookup in obj's MRO after class `start`"""
        if isinstance(obj, Ref) and st.rd(obj).kind == 'class' and start in st.rd(obj).mro:
            cls, inst = obj, None
        else:
            cls, inst = self.typeof(st, obj), obj
        mro = st.rd(cls).mro
        i = mro.index(start) + 1 if start in mro else 0
        for c in mro[i:]:
            d = st.rd(c).d
            if name in d:
                a = d[name]
                if inst is None:
                    return self.bind(st, a, None, cls, k)
                return self.bind(st, a, inst, cls, k)
        if name == '__init__':
            return k(st, Bound(self.nat['object.__init__'], obj))
        self.check_modelled(st, cls, name)
        return self.throw(st, 'AttributeError', f"'super' object has no attribute '{name}'")

    # ---------------------------------------------------------------- setattr / delattr
    def setattr(self, st, v, name, val, k):
        """k(st)"""
        if isinstance(v, Ref):
            o = st.rd(v)
            if o.kind == 'class':
                if o.native: raise Undecided(f'setattr on builtin type {o.name}')
                st.wr(v).d[name] = val
                return k(st)
            if o.kind == 'mod':
                st.wr(v).d[name] = val; return k(st)
            if o.kind == 'func':
                if name == '__name__': st.wr(v).name = val
                elif name == '__qualname__': st.wr(v).qual = val
                st.wr(v).d[name] = val; return k(st)
            if o.kind == 'super':
                mro = st.rd(self.typeof(st, o.obj)).mro
                for c in mro[mro.index(o.start) + 1:]:
                    a = st.rd(c).d.get(name)
                    if a is not None and self.is_data_desc(st, a):
                        return self.desc_set(st, a, o.obj, val, k)
                return self.setattr(st, o.obj, name, val, k)
            cls = o.cls
            sa, owner = self.mro_find_raw(st, cls, '__setattr__')
            if sa is not None and isinstance(sa, Ref):
                return self.call(st, self.bind_simple(st, sa, v, cls), [name, val], {}, lambda s, r: k(s))
            return self.generic_setattr(st, v, name, val, k)
        if isinstance(v, Unk):
            st.imp = st.imp + ('attribute set on unknown object',)
            return k(st)
        if isinstance(v, (Sym, Term)):
            self.event(st, 'setattr', v, name, val)
            return k(st)
        return self.throw(st, 'AttributeError', f'cannot set attribute {name}')

    def generic_setattr(self, st, v, name, val, k):
        o = st.rd(v); cls = o.cls
        a, owner = self.mro_find_raw(st, cls, name)
        if a is not None and self.is_data_desc(st, a):
            return self.desc_set(st, a, v, val, k)
        if name == '__class__':
            st.wr(v).cls = val
            return k(st)
        if o.kind in ('tuple', 'tree') or (o.d is None and st.rd(cls).native):
            return self.throw(st, 'AttributeError', f"'{st.rd(cls).name}' object has no attribute '{name}'")
        w = st.wr(v)
        if w.d is None: w.d = {}
        self.on_setattr(st, v, name, val)
        w.d[name] = val
        return k(st)

    def on_setattr(self, st, v, name, val):
        h = getattr(self, 'setattr_hook', None)
        if h: h(st, v, name, val)

    def desc_set(self, st, a, v, val, k):
        o = st.rd(a)
        if self.isa(st, a, 'property'):
            fs = o.d.get('%fset')
            if fs is None: return self.throw(st, 'AttributeError', "property has no setter")
            return self.call(st, fs, [v, val], {}, lambda s, r: k(s))
        g = self.mro_find(st, o.cls, '__set__')
        return self.call(st, self.bind_simple(st, g, a, o.cls), [v, val], {}, lambda s, r: k(s))

    def delattr(self, st, v, name, k):
        if isinstance(v, Ref):
            o = st.rd(v)
            if o.kind in ('class', 'mod'):
                if name in o.d: del st.wr(v).d[name]; return k(st)
                return self.throw(st, 'AttributeError', name)
            a, owner = self.mro_find_raw(st, o.cls, name)
            if a is not None and self.isa(st, a, 'property'):
                fd = st.rd(a).d.get('%fdel')
                if fd is None: return self.throw(st, 'AttributeError', 'no deleter')
                return self.call(st, fd, [v], {}, lambda s, r: k(s))
            da = self.mro_find(st, o.cls, '__delattr__')
            if isinstance(da, Ref):
                return self.call(st, self.bind_simple(st, da, v, o.cls), [name], {}, lambda s, r: k(s))
            if o.d is not None and name in o.d:
                del st.wr(v).d[name]
                return k(st)
            return self.throw(st, 'AttributeError', name)
        if isinstance(v, (Unk, Sym, Term)):
            self.event(st, 'delattr', v, name); return k(st)
        return self.throw(st, 'AttributeError', name)

    # ---------------------------------------------------------------- calls
    def call(self, st, f, args, kw, k):
        if isinstance(f, Bound):
            return self.call(st, f.func, [f.self] + args, kw, k)
        if isinstance(f, Nat):
            if f.simple:
                r = f.fn(self, st, args, kw)
                return k(st, r)
            return f.fn(self, st, args, kw, k)
        if isinstance(f, Ref):
            o = st.rd(f)
            if o.kind == 'func': return self.call_func(st, f, o, args, kw, k)
            if o.kind == 'class': return self.call_class(st, f, o, args, kw, k)
            if o.kind == 'inst':
                if self.isa(st, f, 'staticmethod', 'classmethod') and '__call__' not in o.d:
                    return self.call(st, o.d['%f'], args, kw, k)
                c = self.mro_find(st, o.cls, '__call__')
                if c is not None:
                    return self.call(st, self.bind_simple(st, c, f, o.cls), args, kw, k)
            return self.throw(st, 'TypeError', f"'{st.rd(o.cls).name if o.cls else o.kind}' object is not callable")
        if isinstance(f, (Sym, Term, Unk)):
            return self.call_unknown(st, f, args, kw, k)
        return self.throw(st, 'TypeError', f'{f!r} object is not callable')

    def call_unknown(self, st, f, args, kw, k):
        h = getattr(self, 'unknown_hook', None)
        if h:
            r = h(self, st, f, args, kw, k)
            if r is not NotImplemented: return r
        self.event(st, 'extcall', f, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])))
        self.unmodelled[repr(f)] = self.unmodelled.get(repr(f), 0) + 1
        if isinstance(f, Unk):
            st.imp = st.imp + (f'call of {f.why or "unknown function"} at {self.where(st)}',) if len(st.imp) < 8 else st.imp
            return k(st, f)
        return k(st, term('call', [f] + [a for a in args] + [a for _, a in sorted(kw.items(), key=lambda x: x[0])]))

    def bind_args(self, st, o, args, kw):
        co = o.code
        na, nk, npos = co.co_argcount, co.co_kwonlyargcount, co.co_posonlyargcount
        names = co.co_varnames
        fast = {}
        flags = co.co_flags
        i = na
        va = None
        if flags & 0x04:
            va = names[na + nk]
        vk = names[na + nk + (1 if flags & 0x04 else 0)] if flags & 0x08 else None
        if len(args) > na:
            if va is None:
                if co.co_filename.startswith(self.stub_dir): raise Undecided(f'arguments of {o.qual} that the model does not know')
                raise AbsExc('TypeError', f'{o.qual}() takes {na} positional arguments but {len(args)} were given')
            extra = args[na:]
            for n, a in zip(names[:na], args): fast[n] = a
        else:
            extra = []
            for n, a in zip(names, args): fast[n] = a
        rest = None
        for n, a in kw.items():
            if n in names[npos:na + nk]:
                if n in fast: raise AbsExc('TypeError', f"{o.qual}() got multiple values for argument '{n}'")
                fast[n] = a
            elif vk is not None:
                if rest is None: rest = {}
                rest[n] = a
            else:
                if co.co_filename.startswith(self.stub_dir): raise Undecided(f'argument {n} of {o.qual} that the model does not know')
                raise AbsExc('TypeError', f"{o.qual}() got an unexpected keyword argument '{n}'")
        nd = len(o.defaults)
        for j in range(na):
            n = names[j]
            if n not in fast:
                dj = j - (na - nd)
                if dj >= 0: fast[n] = o.defaults[dj]
                else: raise AbsExc('TypeError', f"{o.qual}() missing required argument: '{n}'")
        for j in range(na, na + nk):
            n = names[j]
            if n not in fast:
                if n in o.kwdefaults: fast[n] = o.kwdefaults[n]
                else: raise AbsExc('TypeError', f"{o.qual}() missing required keyword-only argument: '{n}'")
        if va is not None: fast[va] = self.mktuple(st, extra)
        if vk is not None:
            d = st.alloc(DictO(self.types['dict']))
            if rest:
                do = st.wr(d)
                for n, a in rest.items(): do.e[('s', n)] = (n, a)
            fast[vk] = d
        return fast

    MAXDEPTH = 220
    def call_func(self, st, f, o, args, kw, k):
        if len(st.frames) > self.MAXDEPTH:
            return self.throw(st, 'RecursionError', 'maximum recursion depth exceeded')
        if any(isinstance(a, Star) for a in args):
            raise Undecided('call with summarised argument list')
        fast = self.bind_args(st, o, args, kw)
        fr = self.new_frame(st, o.code, o.globs, k)
        fr.fast = fast; fr.func = f
        if o.code.co_filename.startswith(self.repo):
            self.analysed.add((os.path.relpath(o.code.co_filename, self.repo), o.code.co_qualname))
            h = getattr(self, 'enter_hook', None)
            if h: h(self, st, o, fast)
        # free variables
        if o.closure:
            for n, c in zip(o.code.co_freevars, o.closure): fr.fast[n] = c
        st.frames.append(fr)
        return None

    def call_class(self, st, c, o, args, kw, k):
        meta = o.cls
        if meta is not None and meta is not self.types['type']:
            mc, own = self.mro_find_raw(st, meta, '__call__')
            if isinstance(mc, Ref):
                return self.call(st, Bound(mc, c), args, kw, k)
        new, own = self.mro_find_raw(st, c, '__new__')
        if isinstance(new, Ref):
            newf = self.bind_simple(st, new, None, c)
            if isinstance(newf, Bound): newf = newf.func
            def after_new(s, r):
                if isinstance(r, Ref) and s.rd(r).cls is not None and c in s.rd(s.rd(r).cls).mro:
                    return self.init_obj(s, r, s.rd(r).cls, args, kw, k)
                return k(s, r)
            return self.call(st, newf, [c] + args, kw, after_new)
        for b in o.mro:
            nn = st.rd(b).nat_new
            if nn is not None:
                return nn(self, st, c, args, kw, k)
        r = st.alloc(Inst(c))
        return self.init_obj(st, r, c, args, kw, k)

    def init_obj(self, st, r, c, args, kw, k):
        init, own = self.mro_find_raw(st, c, '__init__')
        if init is None or init is self.nat.get('object.__init__'):
            if (args or kw) and self.mro_find_raw(st, c, '__new__')[0] is None and not self.isa(st, r, 'BaseException'):
                return self.throw(st, 'TypeError', f'{st.rd(c).name}() takes no arguments')
            return k(st, r)
        def after(s, v):
            return k(s, r)
        return self.call(st, self.bind_simple(st, init, r, c), args, kw, after)

    # ---------------------------------------------------------------- events
    def event(self, st, name, *args):
        h = getattr(self, 'monitor', None)
        ev = (name,) + args
        if h is not None:
            r = h(self, st, ev)
            if r is False: return
        if len(st.events) < 400:
            # inside summarised loops do not repeat the same event
            if st.flags.get('stars') and st.active_stars() and ev in st.events[-30:]:
                return
            st.events = st.events + (ev,)

    # ---------------------------------------------------------------- helpers: heap construction
    def mktuple(self, st, items):
        return st.alloc(TupO(self.types['tuple'], list(items)))
    def mklist(self, st, items):
        return st.alloc(ListO(self.types['list'], list(items)))
    def mkdict(self, st, pairs):
        r = st.alloc(DictO(self.types['dict']))
        o = st.wr(r)
        for a, b in pairs: o.e[self.hkey(st, a)] = (a, b)
        return r
    def mkset(self, st, items, frozen=False):
        r = st.alloc(SetO(self.types['frozenset' if frozen else 'set']))
        o = st.wr(r)
        for a in items: o.e[self.hkey(st, a)] = a
        return r
    def mkinst(self, st, cls, d=None):
        return st.alloc(Inst(cls, dict(d or {})))

    def const(self, st, v):
        """constant from code object -> abstract value"""
        t = type(v)
        if t is tuple: return self.mktuple(st, [self.const(st, x) for x in v])
        if t is frozenset: return self.mkset(st, [self.const(st, x) for x in sorted(v, key=repr)], True)
        return v

    def hkey(self, st, v):
        t = type(v)
        if t is str: return ('s', v)
        if t is bool or t is int or t is float: return ('n', v)
        if v is None: return ('c', None)
        if t is bytes: return ('b', v)
        if t is Ref:
            o = st.rd(v)
            if o.kind == 'tuple': return ('t',) + tuple(self.hkey(st, x) for x in o.items)
            if o.kind in ('list', 'dict') or (o.kind == 'set' and o.cls is self.types['set']):
                raise AbsExc('TypeError', f"unhashable type: '{o.kind}'")
            if o.kind == 'set': return ('fs',) + tuple(sorted(map(repr, o.e)))
            return v
        return v

    # ---------------------------------------------------------------- equality
    def eq(self, st, a, b):
        """True / False / a Term / None when user-defined __eq__ is needed"""
        if a is b: return True
        ta, tb = type(a), type(b)
        simple = (bool, int, float, str, bytes, type(None), complex)
        if ta in simple and tb in simple: return a == b
        if isinstance(a, Unk) or isinstance(b, Unk): return term('eq', (a, b), 'bool')
        la, lb = as_lin(a), as_lin(b)
        if la is not None and lb is not None:
            d = lin_add(la, lb, -1)
            if not any(d[1].values()): return d[0] == 0
            lo, hi = self.lin_bounds(st, d)
            if lo is not None and lo > 0: return False
            if hi is not None and hi < 0: return False
            if lo == hi == 0: return True
            return term('lineq', (from_lin(d),), 'bool')
        if ta is Ref and tb is Ref:
            oa, ob = st.rd(a), st.rd(b)
            if oa.kind == 'inst' or ob.kind == 'inst':
                fa = self.mro_find(st, oa.cls, '__eq__') if oa.kind == 'inst' else None
                fb = self.mro_find(st, ob.cls, '__eq__') if ob.kind == 'inst' else None
                if fa is None and fb is None: return False
                return None
            if oa.kind == ob.kind and oa.kind in ('list', 'tuple'):
                if any(isinstance(x, Star) for x in oa.items + ob.items):
                    return Unk('equality of summarised sequences') if oa.items != ob.items else True
                if len(oa.items) != len(ob.items): return False
                rs = [self.eq(st, x, y) for x, y in zip(oa.items, ob.items)]
                if any(r is False for r in rs): return False
                if all(r is True for r in rs): return True
                if any(r is None for r in rs): return Unk('deep equality')
                rs = [r for r in rs if r is not True]
                return rs[0] if len(rs) == 1 else term('and', rs, 'bool')
            if oa.kind == ob.kind == 'dict':
                if oa.stars or ob.stars: return Unk('equality of dicts')
                if set(oa.e) != set(ob.e):
                    return False
                rs = [self.eq(st, oa.e[x][1], ob.e[x][1]) for x in oa.e]
                if any(r is False for r in rs): return False
                if all(r is True for r in rs): return True
                return Unk('dict equality')
            if oa.kind == ob.kind == 'set':
                if oa.stars or ob.stars: return Unk('equality of sets')
                return set(oa.e) == set(ob.e)
            return False
        def cname(v):
            c = self.typeof(st, v)
            return st.rd(c).name if c is not None else None
        ca, cb = cname(a), cname(b)
        if ca and cb:
            num = {'int', 'bool', 'float', 'complex'}
            if ca != cb and not (ca in num and cb in num):
                if ta is Ref and st.rd(a).kind == 'inst' and self.mro_find(st, st.rd(a).cls, '__eq__') is not None: return None
                if tb is Ref and st.rd(b).kind == 'inst' and self.mro_find(st, st.rd(b).cls, '__eq__') is not None: return None
                return False
        if isinstance(a, (Sym, Term)) or isinstance(b, (Sym, Term)):
            if not isinstance(a, (Sym, Term)): a, b = b, a
            if isinstance(b, bool) and a.typ == 'bool': return a if b else term('not', (a,), 'bool')
            if self.distinct(a, b): return False
            if (isinstance(a, Term) and a.op == 'fmt' or isinstance(b, Term) and b.op == 'fmt') and self.typeof(st, a) is self.typeof(st, b):
                r = self.fmt_eq(a, b)
                if isinstance(r, tuple): return self.eq(st, *r)
                if r is not None: return r
            return term('eq', (a, b), 'bool')
        if ta in (Nat, Bound) or tb in (Nat, Bound): return a == b
        return False

    def fmt_eq(self, a, b):
        """equality of strings with unknown pieces: True, False, a smaller pair, or None"""
        la = list(a.args) if isinstance(a, Term) and a.op == 'fmt' else [a]
        lb = list(b.args) if isinstance(b, Term) and b.op == 'fmt' else [b]
        if any(not isinstance(x, str) and not (isinstance(x, (Sym, Term)) and x.typ == 'str') for x in la + lb): return None
        for end in (0, -1):
            while la and lb:
                x, y = la[end], lb[end]
                if isinstance(x, str) and isinstance(y, str):
                    n = min(len(x), len(y))
                    if (x[:n] != y[:n]) if end == 0 else (x[len(x) - n:] != y[len(y) - n:]): return False
                    la[end], lb[end] = (x[n:], y[n:]) if end == 0 else (x[:len(x) - n], y[:len(y) - n])
                    if not la[end]: la.pop(end)
                    if not lb[end]: lb.pop(end)
                elif x is y:
                    la.pop(end); lb.pop(end)
                else: break
        if not la and not lb: return True
        if not la or not lb:
            # some piece is left: equal only if all of it is empty
            rest = la or lb
            if any(isinstance(x, str) for x in rest): return False
            return (rest[0], '') if len(rest) == 1 else None
        from .ops_model import concat_str
        na, nb = concat_str(la), concat_str(lb)
        if (na, nb) == (a, b): return None
        if isinstance(na, str) and isinstance(nb, str): return na == nb
        return (na, nb)

    def distinct(self, a, b):
        """declared-distinct atoms"""
        def fam(x):
            if isinstance(x, Sym) and 'atom' in x.tags: return x.name
            return None
        fa, fb = fam(a), fam(b)
        if fa and fb: return fa != fb
        for x, y in ((a, b), (b, a)):
            # a plain file name
            if fam(x) and 'name' in x.tags and isinstance(y, str) and (y in ('', '.', '..', '__init__.py') or '/' in y or y.startswith('uuid_')): return True
            if fam(x) and 'name' in x.tags and isinstance(y, Term) and y.op == 'fmt' and any(isinstance(z, str) and '/' in z for z in y.args): return True
        # fresh results (uuid) differ from everything else
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op in ('fresh', 'str') and (x.op == 'fresh' or (isinstance(x.args[0], Term) and x.args[0].op == 'fresh')):
                return x is not y
        return False

    def compare_eq(self, st, a, b, k):
        r = self.eq(st, a, b)
        if r is None:
            oa = st.rd(a) if isinstance(a, Ref) else None
            f = self.mro_find(st, oa.cls, '__eq__') if oa is not None and oa.kind == 'inst' else None
            if f is not None:
                def after(s, v):
                    if isinstance(v, Ref) and s.rd(v).kind == 'inst' and st.rd(s.rd(v).cls).name == 'NotImplementedType':
                        return k(s, a is b)
                    return k(s, v)
                return self.call(st, self.bind_simple(st, f, a, oa.cls), [b], {}, after)
            ob = st.rd(b)
            f = self.mro_find(st, ob.cls, '__eq__')
            return self.call(st, self.bind_simple(st, f, b, ob.cls), [a], {}, k)
        return k(st, r)

    # ---------------------------------------------------------------- length
    def length(self, st, v, k):
        if isinstance(v, (str, bytes)): return k(st, len(v))
        if isinstance(v, Ref):
            o = st.rd(v)
            if o.kind in ('list', 'tuple'):
                n = (0, {})
                for i in o.items:
                    n = lin_add(n, as_lin(i.n) if isinstance(i, Star) else (1, {}))
                return k(st, from_lin(n))
            if o.kind in ('dict', 'set'):
                n = (len(o.e), {})
                for s in o.stars: n = lin_add(n, as_lin(s.n))
                return k(st, from_lin(n))
            if o.kind == 'tree': return k(st, o.size)
            if o.kind == 'view': 
                if st.rd(o.src).kind == 'tree' and (o.lo is not None or o.hi is not None):
                    return k(st, Unk('length of bounded view'))
                return self.length(st, o.src, k)
            if o.kind == 'iter' and o.how == 'range':
                return k(st, o.extra[3])
            if o.cls is not None:
                f = self.mro_find(st, o.cls, '__len__')
                if f is not None:
                    return self.call(st, self.bind_simple(st, f, v, o.cls), [], {}, k)
            return self.throw(st, 'TypeError', f"object of type '{st.rd(o.cls).name if o.cls else o.kind}' has no len()")
        if isinstance(v, (Sym, Term)):
            if v.typ in ('int', 'bool', 'float'): return self.throw(st, 'TypeError', 'no len()')
            t = term('len', (v,), 'int')
            if isinstance(t, Term):
                least = sum(len(a) if isinstance(a, str) else 1 if isinstance(a, Term) and a.op in ('str', 'format') and as_lin(a.args[0]) is not None else 0
                            for a in v.args) if isinstance(v, Term) and v.op == 'fmt' else 0
                st.iv.setdefault(t, (least, None))
            return k(st, t)
        if isinstance(v, Unk): return k(st, Unk('len'))
        return self.throw(st, 'TypeError', 'no len()')

    # ---------------------------------------------------------------- iteration
    def iter_(self, st, v, k):
        T = self.types
        if isinstance(v, Ref):
            o = st.rd(v)
            kd = o.kind
            if kd in ('iter', 'gen'):
                if kd == 'gen' and o.coro: return self.throw(st, 'TypeError', 'coroutine is not iterable')
                if kd == 'iter' and o.how == 'range':
                    it = IterO(T['iterator'], 'rangeit', None, o.extra)
                    return k(st, st.alloc(it))
                return k(st, v)
            if kd == 'list': return k(st, st.alloc(IterO(T['iterator'], 'list', v)))
            if kd == 'tuple': return k(st, st.alloc(IterO(T['iterator'], 'list', v)))
            if kd == 'set':
                it = IterO(T['iterator'], 'snap', tuple(o.e.values()) + tuple(o.stars), v); it.ver = o.ver
                return k(st, st.alloc(it))
            if kd == 'dict':
                it = IterO(T['iterator'], 'snap', tuple(a for a, b in o.e.values()) +
                           tuple(Star(s.id, tuple(p[0] for p in s.variants), s.n) for s in o.stars), v); it.ver = o.ver
                return k(st, st.alloc(it))
            if kd == 'view': return self.iter_view(st, v, o, k)
            if kd == 'tree': return self.iter_tree(st, v, 'keys', None, None, k)
            if o.cls is not None:
                f = self.mro_find(st, o.cls, '__iter__')
                if f is not None:
                    def checked(s, r):
                        if isinstance(r, Unk) or isinstance(r, Ref) and (s.kind(r) in ('iter', 'gen') or s.rd(r).cls is not None and self.mro_find(s, s.rd(r).cls, '__next__') is not None): return k(s, r)
                        return self.throw(s, 'TypeError', 'iter() returned non-iterator')
                    return self.call(st, self.bind_simple(st, f, v, o.cls), [], {}, checked)
                g = self.mro_find(st, o.cls, '__getitem__')
                if g is not None and kd == 'inst':
                    return self.call(st, self.prelude(st, '__getitem_iter'), [v], {}, k)
            return self.throw(st, 'TypeError', f"'{st.rd(o.cls).name if o.cls else kd}' object is not iterable")
        if isinstance(v, (str, bytes)):
            return k(st, st.alloc(IterO(T['iterator'], 'snap', tuple(v))))
        if isinstance(v, Unk):
            return k(st, st.alloc(IterO(T['iterator'], 'snap', (self.mkstar(st, 'unk', (Unk('element'),)),))))
        if isinstance(v, (Sym, Term)):
            if v.typ in ('int', 'float', 'bool', 'datetime', 'NoneType'):
                return self.throw(st, 'TypeError', 'object is not iterable')
            e = sym(f'elem({v})', 'str' if v.typ == 'str' else None)
            return k(st, st.alloc(IterO(T['iterator'], 'snap', (self.mkstar(st, f'it({v})', (e,), term('len', (v,), 'int')),))))
        return self.throw(st, 'TypeError', f'{v!r} object is not iterable')

    def mkstar(self, st, id, variants, n=None):
        st.flags['stars'] = True
        if n is None:
            n = sym(f'#{id}', 'int')
        l = as_lin(n)
        if len(l[1]) == 1 and l[0] == 0:
            (nm,) = l[1]
            if nm not in st.iv: st.iv[nm] = (0, None)
        return Star(id, tuple(variants), n)

    def iter_view(self, st, v, o, k):
        src = st.rd(o.src)
        if src.kind == 'tree': return self.iter_tree(st, o.src, o.how, o.lo, o.hi, k)
        T = self.types
        if o.how == 'keys': items = tuple(a for a, b in src.e.values()) + tuple(Star(s.id, tuple(p[0] for p in s.variants), s.n) for s in src.stars)
        elif o.how == 'values': items = tuple(b for a, b in src.e.values()) + tuple(Star(s.id, tuple(p[1] for p in s.variants), s.n) for s in src.stars)
        else: items = tuple((a, b) for a, b in src.e.values()) + tuple(Star(s.id, s.variants, s.n) for s in src.stars)
        it = IterO(T['iterator'], 'snap', items, o.src); it.ver = src.ver
        return k(st, st.alloc(it))

    def iter_tree(self, st, tref, how, lo, hi, k):
        """entries within the bounds; individually tracked entries in key order"""
        o = st.rd(tref)
        def item(kk, vv): return kk if how == 'keys' else vv if how == 'values' else (kk, vv)
        if lo is not None or hi is not None:
            self.event(st, 'bounded_iter', tref, how, lo, hi)
        def build(s, pairs):
            o = s.rd(tref)
            items = [item(a, b) for a, b in pairs]
            if o.others is not False:
                ok, ov = self.tree_other(o)
                nlin = lin_add(as_lin(o.size) or (0, {}), (len(o.e), {}), -1)
                if lo is not None or hi is not None:
                    items.append(self.mkstar(s, f'oth({o.label})[{lo}:{hi}]', (item(ok, ov),)))
                else:
                    items.append(self.mkstar(s, f'oth({o.label})', (item(ok, ov),), from_lin(nlin) if as_lin(o.size) else None))
            it = IterO(self.types['iterator'], 'snap', tuple(items), tref); it.ver = o.ver
            return k(s, s.alloc(it))
        def isort(s, todo, acc):
            """insertion sort; comparisons that the state does not decide fork"""
            if not todo: return build(s, acc)
            x = todo[0]
            def place(s2, i):
                if i == 0: return isort(s2, todo[1:], [x] + acc)
                return self.compare(s2, '<', x[0], acc[i - 1][0], lambda s3, r: self.truth(
                    s3, r, lambda s4, b: place(s4, i - 1) if b else isort(s4, todo[1:], acc[:i] + [x] + acc[i:])))
            return place(s, len(acc))
        def filt(s, i, keep):
            o = s.rd(tref)
            pairs = list(o.e.values())
            if i == len(pairs):
                known = all(isinstance(a, str) for a, b in keep) or all(isinstance(a, (int, float)) for a, b in keep)
                if len(keep) > 1 and (not o.others or known) and (len(keep) <= 3 or known):
                    return isort(s, keep, [])
                return build(s, keep)
            kk = pairs[i][0]
            def hi_ok(s2):
                if hi is None: return filt(s2, i + 1, keep + [pairs[i]])
                return self.compare(s2, '<=', kk, hi, lambda s3, r: self.truth(s3, r, lambda s4, b: filt(s4, i + 1, keep + [pairs[i]] if b else keep)))
            if lo is None: return hi_ok(s)
            return self.compare(s, '>=', kk, lo, lambda s2, r: self.truth(s2, r, lambda s3, b: hi_ok(s3) if b else filt(s3, i + 1, keep)))
        return filt(st, 0, [])

    def tree_other(self, o):
        return (sym(f'okey({o.label})', 'str', ('atom', 'other')), sym(f'oval({o.label})', None, ('other',)))

    def star_exit_ok(self, st, star, used, k):
        """k(st, stop: bool).  May the star be exhausted after `used` elements (0 or >=1)?"""
        p = as_lin(star.n)
        if used == 0:
            # empty?
            return self.ge0(st, lin_add(p, (-1, {})), lambda s, b: k(s, not b))
        return self.branch(st, [(f'end of {star.id}', lambda s: k(s, True)),
                                (f'more of {star.id}', lambda s: k(s, False))])

    def iter_next(self, st, it, k_val, k_stop):
        """advance iterator `it` (Ref)."""
        o = st.rd(it)
        if o.kind == 'gen':
            return self.gen_resume(st, it, None, k_val, k_stop)
        if o.kind != 'iter':
            f = self.mro_find(st, o.cls, '__next__') if o.cls is not None else None
            if f is None: return self.throw(st, 'TypeError', 'not an iterator')
            return self.call(st, self.prelude(st, '__next_or'), [self.bind_simple(st, f, it, o.cls)], {},
                             lambda s, r: self.unpack_next(s, r, k_val, k_stop))
        if o.how == 'rangeit': return self.range_next(st, it, o, k_val, k_stop)
        if o.how == 'list':
            src = st.rd(o.src)
            items = src.items
        else:
            items = o.src
            if o.extra is not None and o.ver is not None:
                cont = st.rd(o.extra)
                if cont.ver != o.ver and (o.pos < len(items)):
                    if cont.kind == 'tree':
                        self.event(st, 'iter_mutated', o.extra)
                        return self.throw(st, 'RuntimeError', 'the bucket being iterated changed size')
                    return self.throw(st, 'RuntimeError', f'{cont.kind} changed size during iteration')
        if o.pos >= len(items):
            return k_stop(st)
        x = items[o.pos]
        if isinstance(x, Star):
            return self.star_next(st, it, o, x, k_val, k_stop)
        w = st.wr(it); w.pos += 1
        return k_val(st, self.wrap_item(st, x))

    def wrap_item(self, st, x):
        if type(x) is tuple: return self.mktuple(st, x)
        return x

    def star_next(self, st, it, o, star, k_val, k_stop):
        """iteration over a summary segment: materialised members first, then the generic one"""
        mats = st.mat.get(star.id)
        used = o.instar
        nm = len(mats) if mats else 0
        if used < nm:
            w = st.wr(it); w.instar += 1; w.forks = st.forks
            return k_val(st, self.wrap_item(st, list(mats.values())[used]))
        rest = lin_add(as_lin(star.n), (-nm, {})) if as_lin(star.n) else None
        def leave(s):
            w = s.wr(it); w.pos += 1; w.instar = 0
            self.drop_generic(s, star)
            if used > nm:
                # the state after the loop may be one that was reached before (with fewer or more iterations)
                from .canon import canon
                f = s.frames[-1]
                c = canon(self, s)
                seen = s.seen.setdefault((len(s.frames), f.code, f.ip, 'exit'), {})
                if c in seen: raise Dead()
                seen[c] = True
            return self.iter_next(s, it, k_val, k_stop)
        def take(s):
            w = s.wr(it); w.instar = nm + 1
            self.forget_earlier(s, star)
            self.drop_generic(s, star)
            for p in s.ghost.get(('%rangefacts', star.id), ()): self.know(s, as_lin(p))
            s.flags['stars'] = True
            w.forks = s.forks
            alts = [(f'{star.id} element like {v}', (lambda vv: lambda s2: k_val(s2, self.wrap_item(s2, vv)))(v)) for v in star.variants]
            if len(alts) == 1: return alts[0][1](s)
            return self.branch(s, alts)
        if used == nm:
            if rest is None:
                return self.fork_unk(st, lambda s, b: take(s) if b else leave(s), 'size of summary')
            return self.ge0(st, lin_add(rest, (-1, {})), lambda s, b: take(s) if b else leave(s))
        # already took >= 1 generic element: at most the whole rest; if rest == 1, stop
        if not self.loop_check(st, it):
            raise Dead()
        if rest is not None:
            lo, hi = self.lin_bounds(st, rest)
            if hi is not None and hi <= 1: return leave(st)
            if rest[1] and not self.polyhedral(st, rest[0] - 2, rest[1])[0]: return leave(st)
        return self.branch(st, [(f'end of {star.id}', leave), (f'another of {star.id}', take)])

    def star_gens(self, star):
        gens = set()
        for v in star.variants:
            for x in (v if type(v) is tuple else (v,)):
                if isinstance(x, Sym) and not ('atom' in x.tags and 'other' not in x.tags): gens.add(x)
        return gens

    def forget_earlier(self, st, star):
        """a new generic element is about to be taken: what still refers to an earlier one (other than storage trees
        and summaries) refers to something unknown from now on"""
        gens = self.star_gens(star)
        if not gens: return
        def ment(x):
            if type(x) is Sym: return x in gens
            if type(x) is Term: return any(ment(a) for a in x.args)
            return type(x) is Bound and ment(x.self)
        u = Unk('an earlier element of an enumeration')
        for f in st.frames:
            for n, v in f.fast.items():
                if ment(v): f.fast[n] = u
            for i, v in enumerate(f.stack):
                if ment(v): f.stack[i] = u
        for r, o in list(st.over.items()):
            kd = o.kind
            if kd == 'tree': continue
            if o.d and any(ment(v) for v in o.d.values()):
                w = st.wr(r)
                for n, v in list(w.d.items()):
                    if ment(v): w.d[n] = u
            if kd in ('list', 'tuple'):
                if any(type(v) is not Star and ment(v) for v in o.items):
                    w = st.wr(r); w.items = [u if type(v) is not Star and ment(v) else v for v in w.items]
            elif kd == 'dict':
                hs = [h for h, (a, b) in o.e.items() if ment(a) or ment(b)]
                if hs:
                    w = st.wr(r)
                    w.e = {(u if h in hs and ment(a) else h): (u if ment(a) else a, u if ment(b) else b) for h, (a, b) in w.e.items()}
            elif kd == 'set':
                hs = [h for h, a in o.e.items() if ment(a)]
                if hs:
                    w = st.wr(r)
                    w.e = {(u if h in hs else h): (u if h in hs else a) for h, a in w.e.items()}
            elif kd == 'cell':
                if o.v is not NULL and ment(o.v): st.wr(r).v = u
            elif kd == 'gen' and o.frame is not None:
                f = o.frame
                if any(v is not NULL and ment(v) for v in list(f.fast.values()) + f.stack):
                    f = st.wr(r).frame
                    for n, v in f.fast.items():
                        if ment(v): f.fast[n] = u
                    for i, v in enumerate(f.stack):
                        if ment(v): f.stack[i] = u

    def drop_generic(self, st, star):
        gens = self.star_gens(star)
        if gens:
            def ment(x):
                if x in gens: return True
                if isinstance(x, Term): return any(ment(a) for a in x.args)
                if isinstance(x, Lin): return any(ment(n) for n, _ in x.k)
                return False
            for key in [q for q in st.facts if any(ment(a) for a in q[1:] if isinstance(a, (Sym, Term, Lin)))]:
                del st.facts[key]
            for key in [q for q in st.iv if isinstance(q, (Sym, Term)) and ment(q) or isinstance(q, frozenset) and any(ment(n) for n, _ in q)]:
                if key not in gens: del st.iv[key]
            # entries of the generic element go back into the summaries of the trees that hold them
            for r, o in list(st.over.items()):
                if o.kind != 'tree': continue
                hs = [h for h, (a, b) in o.e.items() if a in gens]
                ab = [h for h in o.absent if (h[1] if isinstance(h, tuple) and len(h) > 1 else h) in gens or h in gens]
                if hs or ab:
                    w = st.wr(r)
                    for h in hs:
                        if not w.others:
                            # the other entries of w come from the tree summarised by the generic key: none of them
                            # is a key that tree tracks individually
                            for ro in st.over.values():
                                if ro.kind == 'tree' and self.tree_other(ro)[0] is w.e[h][0]:
                                    for hh in list(ro.e) + list(ro.absent):
                                        if hh not in w.e: w.absent.add(hh)
                        del w.e[h]; w.others = True
                        if as_lin(w.size) is None or not as_lin(w.size)[1]:
                            n = sym(f'n~{w.label}', 'int')
                            st.iv[n] = (len(w.e) + 1, None); w.size = n
                    for h in ab: w.absent.discard(h)

            for g in gens: self.apply_inv(st, g)

    def apply_inv(self, st, key):
        """what is known about every entry of a summary (see __learn__)"""
        inv = st.ghost.get('%geninv')
        if not inv: return
        for kind, q, b in inv.get(key, ()):
            if kind == 'f': st.facts[q] = b
            else: st.iv[q] = b

    LOOPCAP = 24
    def loop_check(self, st, tag):
        """Fixpoint test at a loop head.  False: this abstract state was explored already."""
        from .canon import canon, widen
        f = st.frames[-1]
        depth = len(st.frames)
        key = (depth, f.code, f.ip, tag if not isinstance(tag, Ref) else 'it')
        seen = st.seen.setdefault(key, {})
        c = canon(self, st)
        if c in seen: return False
        # counted per execution of the loop
        vk = (f.ip, tag)
        if f.visits is None: f.visits = {}
        v, prev = f.visits.get(vk, (0, None))
        v += 1
        if v >= 3:
            if prev is not None and widen(self, prev, st):
                st.imp = st.imp + (f'widened loop at {self.where(st)}',) if len(st.imp) < 8 else st.imp
                c = canon(self, st)
                if c in seen: return False
        seen[c] = True
        p = None
        if v >= 2:
            p = st.fork(); p.flags = {}
        f.visits[vk] = (v, p)
        if v > self.LOOPCAP:
            raise Undecided('loop did not converge')
        return True

    def range_next(self, st, it, o, k_val, k_stop):
        a, b, c, n = o.extra
        if all(isinstance(x, int) for x in (a, b, c)):
            i = a + o.pos * c
            if (c > 0 and i >= b) or (c < 0 and i <= b): return k_stop(st)
            st.wr(it).pos += 1
            return k_val(st, i)
        def seg(s, lo, hi):
            """summary of the numbers lo .. hi-1"""
            a, b = from_lin(lo), from_lin(hi)
            star = self.mkstar(s, f'range({a},{b})', (sym(f'i@range({a},{b})', 'int'),), from_lin(lin_add(hi, lo, -1)))
            i = (0, {star.variants[0]: 1})
            s.ghost[('%rangefacts', star.id)] = (from_lin(lin_add(i, lo, -1)), from_lin(lin_add(lin_add(hi, i, -1), (-1, {}))))
            if isinstance(a, int): s.iv[star.variants[0]] = (a, None)
            return star
        def go(s, *src):
            w = s.wr(it)
            w.how = 'snap'; w.src = src; w.extra = None; w.pos = 0
            return self.iter_next(s, it, k_val, k_stop)
        la, lb = as_lin(a), as_lin(b)
        nt = self.number_facts(st)
        if nt is None or nt[0] != 'composite': return go(st, seg(st, la, lb))
        # the known divisor is singled out if it is in the range
        d = as_lin(nt[2])
        def inside(s, r):
            if not r: return go(s, seg(s, la, lb))
            return go(s, seg(s, la, d), nt[2], seg(s, lin_add(d, (1, {})), lb))
        trusted = set(lb[1]) <= {nt[1], nt[2], self.ROOT}
        def upper(s, r):
            if not r: return go(s, seg(s, la, lb))
            p = lin_add(lin_add(lb, d, -1), (-1, {}))
            if not trusted and False not in (self.polyhedral(s, p[0], p[1])): return self.fork_unk(s, lambda s2, r2: inside(s2, r2), 'range bound')
            return self.ge0(s, p, lambda s2, r2: inside(s2, r2))
        return self.ge0(st, lin_add(d, la, -1), upper)

    # arithmetic of a number known to be composite (with a known divisor) or prime
    ROOT = sym('isqrt(n)', 'int')
    def number_facts(self, st):
        v = st.ghost.get('%nt')
        return None if v is None else tuple(st.rd(v).items)

    def know(self, st, p):
        """record p >= 0"""
        c, co = p
        co = {n: v for n, v in co.items() if v}
        if not co: return
        key, sg = self.lin_key(co)
        l, h = self.iv_get(st, key)
        if sg == 1: l = -c if l is None else max(l, -c)
        else: h = c if h is None else min(h, c)
        st.iv[key] = (l, h)

    def quotient(self, st, t, num, den, up):
        """t = ceil or floor of num/den, den a positive constant"""
        d = lin_add((0, {t: den}), num, -1)          # den*t - num
        if up:
            self.know(st, d); self.know(st, lin_add((den - 1, {}), d, -1))
        else:
            self.know(st, lin_add((0, {}), d, -1)); self.know(st, lin_add(d, (den - 1, {})))

    def rational(self, v):
        """(numerator form, denominator) of a/b, a*c with constants"""
        if as_lin(v) is not None: return as_lin(v), 1
        if isinstance(v, Term) and v.op in ('/', '*') and len(v.args) == 2:
            a, b = v.args
            if v.op == '*' and isinstance(a, (int, float)): a, b = b, a
            if not isinstance(b, (int, float)) or isinstance(b, bool) or b <= 0: return None
            r = self.rational(a)
            if r is None: return None
            from fractions import Fraction
            f = Fraction(b)
            if v.op == '/': f = 1 / f
            if f.numerator > 10 ** 9 or f.denominator > 10 ** 9: return None
            (c, k), den = r
            return (c * f.numerator, {n: x * f.numerator for n, x in k.items()}), den * f.denominator
        return None

    def rounded(self, st, how, v):
        """ceil/floor/int/isqrt of a term; None if nothing is known"""
        nt = self.number_facts(st)
        if nt is not None and isinstance(v, Term) and (v.op == 'sqrt' and v.args[0] is nt[1] or v.op == '**' and v.args[0] is nt[1] and v.args[1] == 0.5):
            n, R = as_lin(nt[1]), self.ROOT
            r = (0, {R: 1})
            self.know(st, lin_add(r, (-2, {})))
            if nt[0] == 'composite':
                self.know(st, lin_add(r, as_lin(nt[2]), -1)); self.know(st, lin_add(lin_add(n, r, -1), (-2, {})))
            else: self.know(st, lin_add(lin_add(n, r, -1), (-3, {})))
            if how != 'ceil': return R
            C = sym('ceil(sqrt(n))', 'int'); c = (0, {C: 1})
            self.know(st, lin_add(c, r, -1)); self.know(st, lin_add(lin_add(r, c, -1), (1, {})))
            return C
        q = self.rational(v) if how in ('ceil', 'floor') or '%exact' in st.ghost else None
        if q is not None and how == 'int':
            lo = self.lin_bounds(st, q[0])[0]
            if q[1] != 1 and (lo is None or lo < 0): return None
            return from_lin(self.floor_div(st, q[0], q[1]))
        if q is None: return None
        if q[1] == 1: return from_lin(q[0])
        t = term(how, (v,), 'int')
        if isinstance(t, Term): self.quotient(st, t, q[0], q[1], how == 'ceil')
        return t

    def number_rest(self, st, b, k):
        """n % b for the number in question"""
        nt = self.number_facts(st)
        n, lb = as_lin(nt[1]), as_lin(b)
        if lb is None: return k(st, Unk('remainder'))
        if lb == (1, {}) or b is nt[1]: return k(st, 0)
        t = term('%', (nt[1], b), 'int')
        def free(s):
            s.iv.setdefault(t, (0, None))
            return k(s, t)
        if nt[0] == 'composite':
            if b is nt[2]: return k(st, 0)
            if isinstance(b, int):
                d = lin_add(as_lin(nt[2]), lb, -1)
                return self.ge0(st, d, lambda s, r: self.ge0(s, lin_add((0, {}), d, -1), lambda s2, r2: k(s2, 0) if r2 else free(s2)) if r else free(s))
            return free(st)
        def nonzero(s):
            self.know(s, (-1, {t: 1}))
            return k(s, t)
        def small(s, r):
            if not r: return k(s, Unk('remainder by a larger number'))
            return self.ge0(s, lin_add(lb, (-2, {})), lambda s2, r2: nonzero(s2) if r2 else k(s2, Unk('remainder by a smaller number')))
        p = lin_add(lin_add(n, lb, -1), (-1, {}))
        if isinstance(b, int): return self.ge0(st, p, small)
        if self.polyhedral(st, p[0], p[1])[1] and (self.lin_bounds(st, p)[0] is None or self.lin_bounds(st, p)[0] < 0): return k(st, Unk('remainder'))
        return small(st, True)

    # generators
    def gen_resume(self, st, g, sent, k_val, k_stop, is_send=False):
        o = st.rd(g)
        if o.state == 'done':
            return k_stop(st) if not is_send else k_stop(st, None)
        if o.frame is None:
            return self.throw(st, 'ValueError', 'generator already executing')
        w = st.wr(g)
        f = w.frame; w.frame = None
        f = f.copy()
        if w.state != 'new' or True:
            f.stack.append(sent)
        w.state = 'run'
        f.kont = ('gen', k_val, k_stop, is_send)
        f.gen = g
        st.frames.append(f)
        return None

    def unpack_next(self, st, r, k_val, k_stop):
        items = st.rd(r).items
        if items[0] is True: return k_val(st, items[1])
        return k_stop(st)

    def prelude(self, st, name):
        return st.rd(self.prelude_mod).d[name]

    def seq_items(self, st, v):
        """items of a list/tuple ref"""
        return st.rd(v).items

    def fingerprint(self, st, root):
        """hash-consed structural description of the object graph below root"""
        num = {}; order = []
        def val(v):
            if type(v) is Ref:
                o = st.rd(v)
                if o.kind in ('class', 'func', 'mod'): return ('c', v.a)
                n = num.get(v)
                if n is None:
                    n = num[v] = len(num); order.append(v)
                return ('r', n)
            if type(v) is tuple: return ('T',) + tuple(val(x) for x in v)
            if type(v) is Bound: return ('B', val(v.func), val(v.self))
            if type(v) in (bool, int, float, str): return (type(v).__name__, v)
            if type(v) is Star: return ('*', v.id, val(v.variants), val(v.n))
            return v
        out = [val(root)]; i = 0
        while i < len(order):
            o = st.rd(order[i]); i += 1
            row = [o.kind, val(o.cls)]
            if o.d: row.append(frozenset((n, val(x)) for n, x in o.d.items()))
            if o.kind in ('list', 'tuple'): row.append(tuple(val(x) for x in o.items))
            elif o.kind == 'dict': row.append(tuple((val(a), val(b)) for a, b in o.e.values()) + tuple(val(x) for x in o.stars))
            elif o.kind == 'set': row.append(frozenset(val(x) for x in o.e.values()))
            elif o.kind == 'tree':
                row.append(frozenset((repr(h), val(b)) for h, (a, b) in o.e.items())); row.append((o.others, val(o.size)))
            elif o.kind == 'cell': row.append(val(o.v) if o.v is not NULL else None)
            out.append(tuple(row))
        return term('fp', (hash(tuple(out)), ), None)

    # ---------------------------------------------------------------- limits of the library models
    def is_stub(self, mod):
        return isinstance(mod, str) and self.find_source(mod)[0] is not None and str(self.find_source(mod)[0]).startswith(self.stub_dir)

    def real_module(self, name):
        """the real standard-library module (never one of the repository or of a third party)"""
        if name.split('.')[0] not in sys.stdlib_module_names: return None
        try:
            import importlib
            return importlib.import_module(name)
        except Exception: return None

    def stub_lacks(self, o, name):
        """attribute that the real module may have but its model does not"""
        if o.d.get('%opaque'): return True
        if not str(o.d.get('__file__', '')).startswith(self.stub_dir): return False
        if name.startswith('__'): return False
        real = self.real_module(o.name)
        return hasattr(real, name) if real is not None else True

    def check_modelled(self, st, cls, name):
        """raise Undecided if the attribute may exist on the real type although the model lacks it"""
        import builtins as B
        co = st.rd(cls)
        for c in co.mro or ():
            o = st.rd(c)
            real = None
            if o.native and isinstance(getattr(B, o.name, None), type): real = getattr(B, o.name)
            elif o.mod and self.is_stub(o.mod):
                rm = self.real_module(o.mod)
                if rm is not None: real = getattr(rm, o.name, None)
                elif c is cls or name.startswith(('_p_', '_v_')): raise Undecided(f'no model of {o.mod}.{o.name}.{name}')
            if real is not None and real is not object and hasattr(real, name):
                raise Undecided(f'no model of {o.name}.{name}')
        if name in dir(object) and name != '__init_subclass__': raise Undecided(f'no model of object.{name}')

    def opaque_module(self, st, name):
        r = st.alloc(ModO(self.types['module'], name))
        o = st.wr(r); o.ready = True
        o.d.update({'__name__': name, '%opaque': True})
        st.mods[name] = r
        return r

    # ---------------------------------------------------------------- modules
    def find_source(self, name):
        p = name.replace('.', '/')
        for root, ext in ((self.repo, '.py'), (self.spec_dir, '.pys'), (self.stub_dir, '.pys')):
            for cand, pkg in ((os.path.join(root, p, '__init__' + ext), True), (os.path.join(root, p + ext), False)):
                if os.path.isfile(cand): return cand, pkg
        # stub files with dotted names
        cand = os.path.join(self.stub_dir, name + '.pys')
        if os.path.isfile(cand): return cand, True
        if os.path.isdir(os.path.join(self.repo, p)) and any(fn.endswith('.py') or os.path.isdir(os.path.join(self.repo, p, fn)) for fn in os.listdir(os.path.join(self.repo, p))):
            return os.path.join(self.repo, p), 'ns'
        return None, None

    def import_module(self, st, name, k):
        """k(st, modref)"""
        if name in st.mods:
            return k(st, st.mods[name])
        if '.' in name:
            parent, leaf = name.rsplit('.', 1)
            def after_parent(s, p):
                if name in s.mods: return k(s, s.mods[name])
                pd = s.rd(p).d
                src, pkg = self.find_source(name)
                if src is None:
                    if leaf in pd and isinstance(pd[leaf], Ref) and s.rd(pd[leaf]).kind == 'mod':
                        return k(s, pd[leaf])
                    if '%opaque' in pd or self.real_module(name) is not None or str(pd.get('__file__', '')).startswith(self.stub_dir):
                        return k(s, self.opaque_module(s, name))
                    return self.throw(s, 'ModuleNotFoundError', f"No module named '{name}'")
                def done(s2, m):
                    s2.wr(p).d[leaf] = m
                    return k(s2, m)
                return self.load_module(s, name, src, pkg, done)
            return self.import_module(st, parent, after_parent)
        src, pkg = self.find_source(name)
        if src is None:
            if name in sys.stdlib_module_names or os.path.exists(f'/opt/venv/lib/python3.12/site-packages/{name}') or os.path.exists(f'/opt/venv/lib/python3.12/site-packages/{name}.py'):
                return k(st, self.opaque_module(st, name))
            return self.throw(st, 'ModuleNotFoundError', f"No module named '{name}'")
        return self.load_module(st, name, src, pkg, k)

    def load_module(self, st, name, src, pkg, k):
        mo = ModO(self.types['module'], name)
        r = st.alloc(mo)
        o = st.wr(r)
        o.d['__name__'] = name
        o.d['__file__'] = src
        o.d['__builtins__'] = None
        o.d['__doc__'] = None
        o.d['__package__'] = name if pkg else name.rpartition('.')[0]
        st.mods[name] = r
        if pkg == 'ns': return k(st, r)
        code = self.compile(src)
        fr = self.new_frame(st, code, r, None)
        fr.ns = r
        def done(s, v):
            s.wr(r).ready = True
            return k(s, r)
        fr.kont = done
        st.frames.append(fr)
        return None

    def run_source(self, st, name, text, path, k):
        """a module whose text the analysed program wrote itself"""
        key = ('text', text)
        c = self.sources.get(key)
        if c is None:
            try: c = compile(text, f'<generated {name}>', 'exec', dont_inherit=True)
            except SyntaxError as e: return self.throw(st, 'SyntaxError', str(e))
            self.sources[key] = c
        mo = ModO(self.types['module'], name)
        r = st.alloc(mo)
        st.wr(r).d.update({'__name__': name, '__file__': path, '__builtins__': None, '__doc__': None, '__package__': ''})
        fr = self.new_frame(st, c, r, None)
        fr.ns = r
        def done(s, v):
            s.wr(r).ready = True
            return k(s, r)
        fr.kont = done
        st.frames.append(fr)
        return None

    def compile(self, src):
        c = self.sources.get(src)
        if c is None:
            import warnings
            with open(src, encoding='utf-8') as fh: text = fh.read()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                c = compile(text, src, 'exec', dont_inherit=True)
            self.sources[src] = c
        return c

    def load(self, *names):
        """Analyse the top level of modules in the base state; returns base state."""
        for name in names:
            outs = self.native_outcomes(self.st0, lambda m, s: self.import_module(s, name, self.k_done))
            if len(outs) != 1 or outs[0].kind != 'ret':
                why = [(o.kind, self.show_exc(o.st, o.val) if o.kind == 'exc' else '') for o in outs]
                raise AnchorError(f'module {name} cannot be analysed: {why} {self.incomplete[:3]}')
            self.st0 = outs[0].st
        self.st0.freeze()
        self.st0.trace = (); self.st0.events = ()
        return self.st0

    def show_exc(self, st, exc):
        o = st.rd(exc)
        a = o.d.get('%args')
        args = [self.show(st, x) for x in st.rd(a).items] if isinstance(a, Ref) else a
        return f"{st.rd(o.cls).name}{args} from {o.d.get('%origin')}"

    def show(self, st, v, depth=3):
        if isinstance(v, Ref):
            o = st.rd(v)
            if depth <= 0: return f'<{o.kind}>'
            if o.kind in ('list', 'tuple'):
                inner = ', '.join(f'*{x.variants}' if isinstance(x, Star) else self.show(st, x, depth - 1) for x in o.items)
                return f'[{inner}]' if o.kind == 'list' else f'({inner})'
            if o.kind == 'dict':
                return '{' + ', '.join(f'{self.show(st, a, depth-1)}: {self.show(st, b, depth-1)}' for a, b in o.e.values()) + (f' **{o.stars}' if o.stars else '') + '}'
            if o.kind == 'set': return '{' + ', '.join(self.show(st, a, depth-1) for a in o.e.values()) + (f' *{o.stars}' if o.stars else '') + '}'
            if o.kind == 'class': return f'<class {o.name}>'
            if o.kind == 'func': return f'<function {o.qual}>'
            if o.kind == 'mod': return f'<module {o.name}>'
            if o.cls is not None:
                n = st.rd(o.cls).name
                if self.types.get('BaseException') in st.rd(o.cls).mro: return self.show_exc(st, v)
                return f'<{n} {v}>'
            return f'<{o.kind}>'
        return repr(v)

    def mod_attr(self, st, mod, *path):
        """resolve a public name; raises AnchorError if it is gone"""
        if mod not in st.mods: raise AnchorError(f'module {mod} not found')
        v = st.mods[mod]
        for p in path:
            o = st.rd(v)
            if o.kind == 'mod':
                if p not in o.d: raise AnchorError(f'{mod}.{".".join(path)} not found')
                v = o.d[p]
            elif o.kind == 'class':
                a, own = self.mro_find_raw(st, v, p)
                if own is None: raise AnchorError(f'{mod}.{".".join(path)} not found')
                v = a
            else: raise AnchorError(f'{mod}.{".".join(path)}')
        return v


class AnchorError(Exception):
    """An anchor of a rule (module, class, function) does not exist any more."""


_HALT = compile('halt', '<halt>', 'eval')
from . import ops_model  # noqa  (registers OPS)
