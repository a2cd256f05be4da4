"""Canonical form of abstract states (loop fixpoint test) and widening."""
import types
from .values import *

_SKIPFLAGS = ('lv', 'lp', 'wf')

def canon(m, st):
    num = {}
    order = []
    out = []
    over = st.over
    def val(v):
        if type(v) is Ref:
            if v not in over: return ('b', v.a)
            n = num.get(v)
            if n is None:
                n = num[v] = len(num); order.append(v)
            return ('r', n)
        t = type(v)
        if t is Star: return ('*', v.id, tuple(pair(x) for x in v.variants), val(v.n))
        if t is Bound: return ('B', val(v.func), val(v.self))
        if t is Lin: return ('L', v)
        if t in (bool, int, float, str): return (t.__name__, v)
        if t is tuple: return ('T',) + tuple(val(x) for x in v)
        return v
    def pair(x):
        return tuple(val(y) for y in x) if type(x) is tuple else val(x)
    def hk(h):
        if type(h) is Ref: return val(h)
        if type(h) is tuple: return tuple(hk(x) if type(x) in (Ref, tuple) else x for x in h)
        return h
    def kont(x, d=0):
        """continuations are compared by their code and the values they captured"""
        t = type(x)
        if t is types.FunctionType:
            if d > 12: return x
            return (x.__code__,) + tuple(kont(c.cell_contents, d + 1) if c_ok(c) else None for c in x.__closure__ or ()) + tuple(kont(y, d + 1) for y in x.__defaults__ or ())
        if t is types.MethodType: return ('meth', x.__func__)
        if t is tuple or t is list: return (t.__name__,) + tuple(kont(y, d + 1) for y in x)
        if t is dict: return ('dict',) + tuple((kont(a, d + 1), kont(b, d + 1)) for a, b in x.items())
        if t in (Ref, Star, Bound, Lin, bool, int, float, str, Sym, Term, Unk, Nat, type(None), bytes, types.CodeType): return val(x)
        n = t.__name__
        if n == 'Machine': return 'm'
        if n == 'State': return 'st'
        return id(x)
    def c_ok(c):
        try: c.cell_contents
        except ValueError: return False
        return True
    def frame(f):
        return (f.code, f.ip, tuple(val(v) for v in f.stack), tuple((n, val(f.fast[n])) for n in sorted(f.fast)),
                val(f.ns), kont(f.kont), val(f.gen), f.cur)
    for f in st.frames: out.append(frame(f))
    out.append(tuple((k, val(v)) for k, v in sorted(st.ghost.items(), key=lambda x: str(x[0])) if k != '%geninv'))
    out.append(tuple((k, val(v)) for k, v in sorted(((k, v) for k, v in st.flags.items() if not (isinstance(k, tuple) and k[0] in _SKIPFLAGS)), key=lambda x: str(x[0]))))
    i = 0
    while i < len(order):
        o = over[order[i]]; i += 1
        k = o.kind
        row = [k, val(o.cls)]
        if o.d: row.append(tuple((n, val(o.d[n])) for n in sorted(o.d)))
        if k in ('list', 'tuple'): row.append(tuple(val(x) for x in o.items))
        elif k == 'dict':
            row.append(tuple((hk(h), val(a), val(b)) for h, (a, b) in o.e.items())); row.append(tuple(val(s) for s in o.stars))
        elif k == 'set':
            row.append(frozenset(hk(h) for h in o.e)); [val(x) for x in o.e.values()]; row.append(tuple(val(s) for s in o.stars))
        elif k == 'tree':
            row.append(frozenset((hk(h), val(b)) for h, (a, b) in o.e.items())); row.append(frozenset(hk(h) for h in o.absent))
            row.append(o.others); row.append(val(o.size))
        elif k == 'cell': row.append(val(o.v) if o.v is not NULL else None)
        elif k == 'iter': row += [o.how, val(o.src), o.pos, min(o.instar, 2), val(o.extra)]
        elif k == 'gen':
            row.append(o.state)
            if o.frame is not None: row.append(frame(o.frame))
        elif k == 'view': row += [val(o.src), o.how, val(o.lo), val(o.hi)]
        elif k == 'func': row += [o.code, o.name, tuple(val(x) for x in o.defaults), tuple(val(x) for x in o.closure)]
        elif k == 'class': row += [o.name, tuple(val(x) for x in o.bases)]
        elif k == 'slice': row += [val(o.a), val(o.b), val(o.c)]
        elif k == 'super': row += [val(o.start), val(o.obj)]
        out.append(tuple(row))
    out.append(frozenset((hk(k) if isinstance(k, tuple) else k, v) for k, v in st.facts.items()))
    out.append(frozenset(st.iv.items()))
    out.append(bool(st.imp))
    return tuple(out)


def widen(m, prev, st):
    """forget what changed since the previous visit of the loop head; True if something was forgotten"""
    ch = False
    for r, o in list(st.over.items()):
        p = prev.over.get(r) or prev.base.get(r)
        if p is None or p.kind != o.kind: continue
        if o.kind == 'tree' and o.size != p.size:
            w = st.wr(r)
            n = sym(f'n~{o.label}', 'int')
            w.size = n
            st.iv[n] = (0, None); ch = True
    for k in list(st.iv):
        if prev.iv.get(k) != st.iv[k] and k in prev.iv:
            a, b = st.iv[k]; c, d = prev.iv[k]
            st.iv[k] = (a if a == c else None, b if b == d else None); ch = True
    for k in list(st.facts):
        if k in prev.facts and prev.facts[k] != st.facts[k]: del st.facts[k]; ch = True
    return ch
