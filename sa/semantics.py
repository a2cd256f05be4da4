"""Semantics of operators and containers over abstract values."""
import math, operator, types
import datetime as _dt
from .values import *

_PYOPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
          '%': operator.mod, '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor,
          '<<': operator.lshift, '>>': operator.rshift}
_PYCMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
_DUNDER = {'+': ('__add__', '__radd__'), '-': ('__sub__', '__rsub__'), '*': ('__mul__', '__rmul__'),
           '/': ('__truediv__', '__rtruediv__'), '//': ('__floordiv__', '__rfloordiv__'), '%': ('__mod__', '__rmod__'),
           '**': ('__pow__', '__rpow__'), '&': ('__and__', '__rand__'), '|': ('__or__', '__ror__'), '^': ('__xor__', '__rxor__'),
           '<<': ('__lshift__', '__rlshift__'), '>>': ('__rshift__', '__rrshift__'), '@': ('__matmul__', '__rmatmul__')}
_IDUNDER = {'+': '__iadd__', '-': '__isub__', '|': '__ior__', '&': '__iand__', '*': '__imul__'}
_CMPD = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
_SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
CONST = (bool, int, float, str, bytes, complex, type(None))


class Sem:
    # ---------------------------------------------------------------- str / repr
    def str_(self, st, v, k):
        from .machine import AbsExc
        if isinstance(v, str): return k(st, v)
        if isinstance(v, CONST): return k(st, str(v))
        if isinstance(v, (Sym, Term)):
            if v.typ == 'str': return k(st, v)
            if isinstance(v, Term) and v.op == 'td_const' and type(v.args[0]) is int:
                return k(st, str(_dt.timedelta(microseconds=v.args[0])))
            return k(st, term('str', (v,), 'str'))
        if isinstance(v, Lin): return k(st, term('str', (v,), 'str'))
        if isinstance(v, Unk): return k(st, term('str', (v,), 'str'))
        if isinstance(v, Ref):
            o = st.rd(v)
            if o.kind == 'inst':
                for n in ('__str__', '__repr__'):
                    f = self.mro_find(st, o.cls, n)
                    if f is not None:
                        return self.call(st, self.bind_simple(st, f, v, o.cls), [], {}, k)
                if self.isa(st, v, 'BaseException'):
                    a = st.rd(o.d['%args']).items if '%args' in o.d else []
                    if len(a) == 0: return k(st, '')
                    if len(a) == 1: return self.str_(st, a[0], k)
            if o.kind == 'class': return k(st, f"<class '{o.name}'>")
            if o.kind in ('list', 'tuple') and all(isinstance(x, CONST) for x in o.items):
                x = o.items if o.kind == 'list' else tuple(o.items)
                return k(st, str(x))
        return k(st, term('strof', (v,), 'str') if not isinstance(v, (Nat, Bound)) else term('strof', (repr(v),), 'str'))

    def repr_(self, st, v, k):
        if isinstance(v, CONST): return k(st, repr(v))
        if isinstance(v, Ref):
            o = st.rd(v)
            if o.kind == 'inst':
                f = self.mro_find(st, o.cls, '__repr__')
                if f is not None: return self.call(st, self.bind_simple(st, f, v, o.cls), [], {}, k)
            return k(st, term('reprof', (v,), 'str'))
        return k(st, term('repr', (v,), 'str') if not isinstance(v, (Nat, Bound)) else 'repr')

    # ---------------------------------------------------------------- binary operators
    def numeric_type(self, a, b, op):
        ta = 'float' if isinstance(a, float) else 'int' if as_lin(a) is not None else getattr(a, 'typ', None)
        tb = 'float' if isinstance(b, float) else 'int' if as_lin(b) is not None else getattr(b, 'typ', None)
        if op == '/': return 'float'
        if ta == 'float' or tb == 'float': return 'float'
        if ta == 'int' and tb == 'int': return 'int'
        return None

    def binary(self, st, op, a, b, k):
        from .machine import AbsExc
        from .ops_model import concat_str
        inplace = op.endswith('=')
        if inplace: op = op[:-1]
        ra, rb = isinstance(a, Ref), isinstance(b, Ref)
        if not ra and not rb:
            if isinstance(a, CONST) and isinstance(b, CONST):
                try: return k(st, _PYOPS[op](a, b))
                except Exception as e: return self.throw(st, type(e).__name__, str(e))
            if isinstance(a, Unk) or isinstance(b, Unk): return k(st, term(op, (a, b)))
            ta, tb = self.tname(st, a), self.tname(st, b)
            if op == '+' and ta == 'str' and tb == 'str': return k(st, concat_str([a, b]))
            if op == '+' and {ta, tb} & {'str'} and ta and tb and ta != tb:
                return self.throw(st, 'TypeError', f'can only concatenate str, not {tb if ta == "str" else ta}')
            la, lb = as_lin(a), as_lin(b)
            if la is not None and lb is not None:
                if op == '+': return k(st, from_lin(lin_add(la, lb)))
                if op == '-': return k(st, from_lin(lin_add(la, lb, -1)))
                if op == '*':
                    if not lb[1]: la, lb = lb, la
                    if not la[1]: return k(st, from_lin((lb[0] * la[0], {n: v * la[0] for n, v in lb[1].items()})))
            if '%nt' in st.ghost:
                nt = self.number_facts(st)
                if op == '%' and a is nt[1]: return self.number_rest(st, b, k)
                if not (op == '**' and a is nt[1] and b == 0.5) and not (op == '//' and isinstance(b, int)): return k(st, Unk('nonlinear arithmetic'))
            if '%exact' in st.ghost and la is not None and lb is not None and not lb[1] and lb[0] > 0 and op in ('//', '%'):
                q = self.floor_div(st, la, lb[0])
                if op == '//': return k(st, from_lin(q))
                r = lin_add(la, (q[0] * lb[0], {n: v * lb[0] for n, v in q[1].items()}), -1)
                self.know(st, r); self.know(st, lin_add((lb[0] - 1, {}), r, -1))
                return k(st, from_lin(r))
            if op == '%' and ta == 'str': return self.percent(st, a, b, k)
            if op == '*' and 'str' in (ta, tb): return k(st, term('*', (a, b), 'str'))
            if 'timedelta' in (ta, tb):
                r = self.td_fold(st, op, a, b)
                if r is not None: return k(st, r)
            dt = self.dt_binary(op, ta, tb)
            if dt: return k(st, term(op, (a, b), dt))
            t = term(op, (a, b), self.numeric_type(a, b, op))
            if isinstance(t, Term) and op == '%' and t.typ == 'int':
                if isinstance(b, int) and b > 0: st.iv.setdefault(t, (0, b - 1))
                elif b == 0: return self.throw(st, 'ZeroDivisionError', 'integer modulo by zero')
                else:
                    lo, hi = self.bounds(st, *as_lin(b)) if as_lin(b) else (None, None)
                    st.iv.setdefault(t, (0, hi - 1 if hi is not None else None))
            if op in ('/', '//') and b == 0 and isinstance(b, (int, float)):
                return self.throw(st, 'ZeroDivisionError', 'division by zero')
            if isinstance(t, Term) and op == '//' and t.typ == 'int' and isinstance(b, int) and b > 0 and as_lin(a):
                lo, hi = self.bounds(st, *as_lin(a))
                st.iv.setdefault(t, (None if lo is None else lo // b, None if hi is None else hi // b))
                if as_lin(a)[1]: self.quotient(st, t, as_lin(a), b, False)
            return k(st, t)
        oa = st.rd(a) if ra else None
        ob = st.rd(b) if rb else None
        ka, kb = (oa.kind if oa else None), (ob.kind if ob else None)
        if op == '+' and ka in ('list', 'tuple') and ka == kb:
            if inplace and ka == 'list':
                return self.list_extend(st, a, b, lambda s: k(s, a))
            return k(st, (self.mklist if ka == 'list' else self.mktuple)(st, oa.items + ob.items))
        if op == '+' and ka == 'list' and inplace:
            return self.list_extend(st, a, b, lambda s: k(s, a))
        if op == '*' and ka in ('list', 'tuple') and isinstance(b, int):
            return k(st, (self.mklist if ka == 'list' else self.mktuple)(st, oa.items * b))
        if op == '*' and kb in ('list', 'tuple') and isinstance(a, int):
            return k(st, (self.mklist if kb == 'list' else self.mktuple)(st, ob.items * a))
        if op == '%' and (isinstance(a, str) or getattr(a, 'typ', None) == 'str'):
            return self.percent(st, a, b, k)
        if op in '|&-^' and ka in ('set', 'view') and kb in ('set', 'view'):
            return self.set_binary(st, op, a, b, k, inplace)
        if op == '|' and ka == 'dict' and kb == 'dict':
            if inplace: return self.dict_update(st, a, b, lambda s: k(s, a))
            r = st.alloc(DictO(self.types['dict']))
            return self.dict_update(st, r, a, lambda s: self.dict_update(s, r, b, lambda s2: k(s2, r)))
        if op == '|' and (ka == 'class' or kb == 'class' or a is None or b is None or self.is_typing(st, a) or self.is_typing(st, b)):
            items = []
            for x in (a, b):
                if isinstance(x, Ref) and st.rd(x).kind == 'tuple': items += st.rd(x).items
                else: items.append(self.types['NoneType'] if x is None else x)
            return k(st, self.mktuple(st, items))
        # user defined
        def try_r(s):
            if isinstance(b, Ref):
                o = s.rd(b)
                f = self.mro_find(s, o.cls, _DUNDER[op][1]) if o.cls is not None else None
                if f is not None:
                    def chk(s2, v):
                        if self.is_notimpl(s2, v): return self.bad_operand(s2, op, a, b)
                        return k(s2, v)
                    return self.call(s, self.bind_simple(s, f, b, o.cls), [a], {}, chk)
            if isinstance(a, (Sym, Term, Unk)) or isinstance(b, (Sym, Term, Unk)):
                t = term(op, (a, b))
                if (getattr(a, 'typ', 1) is None or getattr(b, 'typ', 1) is None or isinstance(a, Unk) or isinstance(b, Unk)):
                    return k(s, t)
            return self.bad_operand(s, op, a, b)
        if ra and oa.cls is not None:
            names = ([_IDUNDER[op]] if inplace and op in _IDUNDER else []) + [_DUNDER[op][0]]
            for n in names:
                f = self.mro_find(st, oa.cls, n)
                if f is not None:
                    return self.call(st, self.bind_simple(st, f, a, oa.cls), [b], {},
                                     lambda s, v: try_r(s) if self.is_notimpl(s, v) else k(s, v))
        return try_r(st)

    def floor_div(self, st, p, d):
        """floor(p / d) in normal form: multiples of d are taken out, nested quotients are joined"""
        c, co = p
        if d == 1: return p
        q, r = (c // d, {}), {}
        for n, v in co.items():
            e = (v + (d - 1) // 2) // d         # the residue nearest to zero
            if e: q[1][n] = e
            if v - e * d: r[n] = v - e * d
        if not r: return q
        g = math.gcd(d, *r.values())
        rest = (c % d // g, {n: v // g for n, v in r.items()}); d //= g
        if d == 1: return lin_add(q, rest)
        f = from_lin(rest)
        if isinstance(f, Term) and f.op == '//' and isinstance(f.args[1], int):
            return lin_add(q, self.floor_div(st, as_lin(f.args[0]), f.args[1] * d))
        t = term('//', (f, d), 'int')
        num = t.args[0]
        self.quotient(st, t, as_lin(num), t.args[1], False)
        lo, hi = self.lin_bounds(st, as_lin(num))
        if lo is not None: self.know(st, (-(lo // t.args[1]), {t: 1}))
        if hi is not None: self.know(st, (hi // t.args[1], {t: -1}))
        return lin_add(q, (0, {t: 1}))

    def td_fold(self, st, op, a, b):
        """arithmetic of constant durations (kept in microseconds)"""
        us = lambda x: x.args[0] if isinstance(x, Term) and x.op == 'td_const' else None
        mk = lambda n: term('td_const', (n,), 'timedelta')
        x, y = us(a), us(b)
        if any(v is not None and not isinstance(v, (int, float)) for v in (x, y)):
            if x is not None and y is not None and op in '+-': return mk(from_lin(lin_add(as_lin(x), as_lin(y), 1 if op == '+' else -1)))
            whole = isinstance(b, Term)
            d = y if whole else b
            if x is not None and isinstance(d, int) and op == '*' and not whole:
                l = as_lin(x)
                return mk(from_lin((l[0] * d, {n: v * d for n, v in l[1].items()})))
            if x is not None and isinstance(d, int) and d > 0 and (op == '//' or op == '%' and whole):
                q = self.floor_div(st, as_lin(x), d)
                if op == '//': return from_lin(q) if whole else mk(from_lin(q))
                r = lin_add(as_lin(x), (q[0] * d, {n: v * d for n, v in q[1].items()}), -1)
                self.know(st, r); self.know(st, lin_add((d - 1, {}), r, -1))
                return mk(from_lin(r))
            return None
        try:
            if x is not None and y is not None:
                if op == '+': return mk(x + y)
                if op == '-': return mk(x - y)
                if op == '/': return x / y
                if op == '//': return x // y
                if op == '%': return mk(x % y)
            if x is not None and isinstance(b, (int, float)):
                if op == '*': return mk(round(x * b))
                if op == '/': return mk(round(x / b))
                if op == '//' and isinstance(b, int): return mk(x // b)
            if y is not None and op == '*' and isinstance(a, (int, float)): return mk(round(a * y))
        except ZeroDivisionError: pass
        return None

    def dt_binary(self, op, ta, tb):
        if ta == 'datetime' and tb == 'timedelta' and op in '+-': return 'datetime'
        if ta == 'timedelta' and tb == 'datetime' and op == '+': return 'datetime'
        if ta == 'datetime' and tb == 'datetime' and op == '-': return 'timedelta'
        return None

    def is_typing(self, st, v):
        return isinstance(v, Ref) and st.rd(v).cls is not None and st.rd(st.rd(v).cls).name in ('_TypingForm',)

    def is_notimpl(self, st, v):
        return v is self.not_implemented

    def bad_operand(self, st, op, a, b):
        return self.throw(st, 'TypeError', f'unsupported operand type(s) for {op}: {self.tname(st, a)} and {self.tname(st, b)}')

    def tname(self, st, v):
        c = self.typeof(st, v)
        return st.rd(c).name if c is not None else None

    def format_value(self, st, v, spec, conv, k):
        """one replacement field of an f-string, of str.format or of a % format"""
        if conv in (2, 3, 'r', 'a'):
            return self.repr_(st, v, lambda s, x: k(s, x) if spec == '' else self.format_value(s, x, spec, 0, k))
        if conv in (1, 's'):
            return self.str_(st, v, lambda s, x: k(s, x) if spec == '' else self.format_value(s, x, spec, 0, k))
        if isinstance(spec, str) and as_lin(v) is not None and spec[-1:] == 'd' and not isinstance(v, CONST): spec = spec[:-1]
        if isinstance(spec, str) and getattr(v, 'typ', None) == 'str' and spec[-1:] == 's': spec = spec[:-1]
        if spec == '': return self.str_(st, v, k)
        if isinstance(v, CONST) and isinstance(spec, str):
            try: return k(st, format(v, spec))
            except Exception as e: return self.throw(st, type(e).__name__, str(e))
        return k(st, term('format', (v, spec), 'str') if not isinstance(v, Ref) else Unk('format'))

    def format_pieces(self, st, pieces, k):
        """pieces: texts and (value, spec, conversion) triples"""
        from .ops_model import concat_str
        def go(s, i, done):
            if i == len(pieces): return k(s, concat_str(done))
            x = pieces[i]
            if isinstance(x, str): return go(s, i + 1, done + [x])
            return self.format_value(s, x[0], x[1], x[2], lambda s2, t: go(s2, i + 1, done + [t]))
        return go(st, 0, [])

    def str_format(self, st, text, args, kw, k):
        """text.format(*args, **kw) for a constant text; NotImplemented where the fields are not plain"""
        import string
        pieces, auto = [], 0
        try: parsed = list(string.Formatter().parse(text))
        except ValueError as e: return self.throw(st, 'ValueError', str(e))
        for lit, name, spec, conv in parsed:
            if lit: pieces.append(lit)
            if name is None: continue
            if '{' in (spec or ''): return NotImplemented
            if name == '': name = str(auto); auto += 1
            if name.isdigit():
                if int(name) >= len(args): return self.throw(st, 'IndexError', 'Replacement index out of range for positional args tuple')
                v = args[int(name)]
            elif name.isidentifier():
                if name not in kw: return self.throw(st, 'KeyError', name)
                v = kw[name]
            else: return NotImplemented
            pieces.append((v, spec or '', conv or 0))
        return self.format_pieces(st, pieces, k)

    def percent(self, st, a, b, k):
        import re
        if isinstance(a, str) and not (isinstance(b, Ref) and st.rd(b).kind in ('dict',) and (st.rd(b).stars or '%(' not in a)):
            named = isinstance(b, Ref) and st.rd(b).kind == 'dict'
            items = list(st.rd(b).items) if isinstance(b, Ref) and st.rd(b).kind == 'tuple' else [b]
            keys = {x[0]: x[1] for x in st.rd(b).e.values()} if named else {}
            if not any(isinstance(x, Star) for x in items):
                pieces, pos, n, plain = [], 0, 0, True
                for f in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*)(\d*)(\.\d+)?([a-zA-Z%])', a):
                    if '%' in a[pos:f.start()]: plain = False
                    if f.start() > pos: pieces.append(a[pos:f.start()])
                    pos = f.end()
                    name, flags, width, prec, c = f.groups()
                    if c == '%': pieces.append('%'); continue
                    if named != (name is not None): plain = False; break
                    if named:
                        if name not in keys: return self.throw(st, 'KeyError', name)
                        v = keys[name]
                    else:
                        if n >= len(items): return self.throw(st, 'TypeError', 'not enough arguments for format string')
                        v = items[n]; n += 1
                    if isinstance(v, CONST):
                        try: pieces.append(f.group().replace(f'({name})', '') % v)
                        except Exception as e: return self.throw(st, type(e).__name__, str(e))
                    elif c in 'di' and flags in ('', '0') and not prec and (as_lin(v) is not None and not isinstance(v, float)):
                        pieces.append((v, flags + width, 0))
                    elif c in 'sr' and not flags and not width and not prec: pieces.append((v, '', c))
                    else: plain = False; break
                if '%' in a[pos:]: plain = False
                if plain:
                    if pos < len(a): pieces.append(a[pos:])
                    if not named and n < len(items) and (isinstance(b, CONST) or isinstance(b, Ref) and st.rd(b).kind == 'tuple'):
                        return self.throw(st, 'TypeError', 'not all arguments converted during string formatting')
                    return self.format_pieces(st, pieces, k)
        items = st.rd(b).items if isinstance(b, Ref) and st.rd(b).kind == 'tuple' else [b]
        if all(isinstance(x, CONST) for x in items) and isinstance(a, str):
            try: return k(st, a % tuple(items))
            except Exception: pass
        return k(st, term('%', (a,) + tuple(str(x) if isinstance(x, Star) else x for x in items), 'str'))

    def set_items(self, st, v):
        o = st.rd(v)
        if o.kind == 'set': return dict(o.e), list(o.stars)
        if o.kind == 'view':
            src = st.rd(o.src)
            if src.kind == 'tree': return {}, [Unk('tree view as set')]
            if o.how == 'keys': return {h: x[0] for h, x in src.e.items()}, list(src.stars)
            return {}, [Unk('view as set')] if src.e or src.stars else []
        return None, None

    def set_binary(self, st, op, a, b, k, inplace=False):
        from .machine import Undecided
        ea, sa = self.set_items(st, a)
        eb, sb = self.set_items(st, b)
        if sa or sb:
            if op != '|': raise Undecided('operation on summarised set')
        if op == '|': e = {**ea, **eb}
        elif op == '&': e = {h: v for h, v in ea.items() if h in eb}
        elif op == '-': e = {h: v for h, v in ea.items() if h not in eb}
        else: e = {**{h: v for h, v in ea.items() if h not in eb}, **{h: v for h, v in eb.items() if h not in ea}}
        if inplace and st.rd(a).kind == 'set' and st.rd(a).cls is self.types['set']:
            w = st.wr(a); w.e = e; w.stars = sa + sb; w.ver += 1
            return k(st, a)
        so = SetO(st.rd(a).cls if st.rd(a).kind == 'set' else self.types['set'])
        so.e = e; so.stars = sa + sb
        return k(st, st.alloc(so))

    # ---------------------------------------------------------------- comparison
    def compare(self, st, op, a, b, k):
        if op == '==': return self.compare_eq(st, a, b, k)
        if op == '!=':
            if isinstance(a, Ref) and st.rd(a).kind == 'inst':
                f = self.mro_find(st, st.rd(a).cls, '__ne__')
                if f is not None: return self.call(st, self.bind_simple(st, f, a, st.rd(a).cls), [b], {}, k)
            def neg(s, v):
                if isinstance(v, bool): return k(s, not v)
                if isinstance(v, Term): return k(s, term('not', (v,), 'bool'))
                return self.truth(s, v, lambda s2, x: k(s2, not x))
            return self.compare_eq(st, a, b, neg)
        if isinstance(a, CONST) and isinstance(b, CONST):
            try: return k(st, _PYCMP[op](a, b))
            except TypeError as e: return self.throw(st, 'TypeError', str(e))
        la, lb = as_lin(a), as_lin(b)
        if la is not None and lb is not None:
            d = lin_add(la, lb, -1)      # a-b
            if op == '>=': p = d
            elif op == '>': p = lin_add(d, (-1, {}))
            elif op == '<=': p = lin_add((0, {}), d, -1)
            else: p = lin_add(lin_add((0, {}), d, -1), (-1, {}))
            p = (p[0], {n: v for n, v in p[1].items() if v})
            lo, hi = self.lin_bounds(st, p)
            if lo is not None and lo >= 0: return k(st, True)
            if hi is not None and hi < 0: return k(st, False)
            return k(st, term('ge0', (mklin(p[0], p[1]),), 'bool'))
        if isinstance(a, Unk) or isinstance(b, Unk): return k(st, term(op, (a, b), 'bool'))
        ra, rb = isinstance(a, Ref), isinstance(b, Ref)
        if ra and st.rd(a).kind == 'inst':
            f = self.mro_find(st, st.rd(a).cls, _CMPD[op])
            if f is not None:
                return self.call(st, self.bind_simple(st, f, a, st.rd(a).cls), [b], {}, k)
        if rb and st.rd(b).kind == 'inst':
            f = self.mro_find(st, st.rd(b).cls, _CMPD[_SWAP[op]])
            if f is not None:
                return self.call(st, self.bind_simple(st, f, b, st.rd(b).cls), [a], {}, k)
        if ra and rb and st.rd(a).kind == st.rd(b).kind and st.rd(a).kind in ('list', 'tuple'):
            return self.call(st, self.prelude(st, '__seq_cmp'), [op, a, b], {}, k)
        if ra and rb and st.rd(a).kind == st.rd(b).kind == 'set':
            ea, eb = set(st.rd(a).e), set(st.rd(b).e)
            return k(st, _PYCMP[op](ea, eb))
        ta, tb = self.tname(st, a), self.tname(st, b)
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == 'td_const': return self.compare(st, op, a.args[0], b.args[0], k)
        if ta and tb:
            num = {'int', 'bool', 'float'}
            ok = ta == tb and ta in ('str', 'bytes', 'int', 'float', 'bool', 'datetime', 'timedelta', 'date') or (ta in num and tb in num) or (ta == tb and not ra and not rb)
            if not ok or ta == 'NoneType':
                return self.throw(st, 'TypeError', f"'{op}' not supported between instances of '{ta}' and '{tb}'")
        def done(s):
            x, y, neg = (a, b, False) if op == '<' else (b, a, False) if op == '>' else (b, a, True) if op == '<=' else (a, b, True)
            if x is y: return k(s, neg)
            t = term('lt', (x, y), 'bool')
            return k(s, term('not', (t,), 'bool') if neg else t)
        if not ta or not tb:
            un = a if not ta else b
            key = ('orderable', un)
            return self.fork_fact(st, key, lambda s, ok: done(s) if ok else self.throw(
                s, 'TypeError', f"'{op}' not supported between instances of these types"), f'{un} is orderable')
        return done(st)

    def is_(self, st, a, b):
        if a is b: return True
        if isinstance(a, (Sym, Term)) or isinstance(b, (Sym, Term)):
            if isinstance(b, (Sym, Term)) and not isinstance(a, (Sym, Term)): a, b = b, a
            if b is None:
                if a.typ is not None and a.typ != 'NoneType': return False
                if a.typ == 'NoneType': return True
                if ('is', a, None) in st.facts: return st.facts[('is', a, None)]
                if st.facts.get(('truth', a)): return False
                for fk, fv in st.facts.items():
                    if fv is True and fk[0] == 'isinst' and fk[1] is a and fk[2] is not self.types['NoneType']: return False
                    if fv is True and fk[0] == 'eq' and fk[1] is a and isinstance(fk[2], CONST): return fk[2] is None
                return term('is', (a, None), 'bool')
            if isinstance(b, bool):
                if a.typ not in (None, 'bool'): return False
                return term('is', (a, b), 'bool')
            if isinstance(a, Term) and a.op == 'fmt' or isinstance(b, Term) and b.op == 'fmt':
                e = self.eq(st, a, b)
                if e is False: return False
                if isinstance(e, Term) and e.op == 'eq' and st.facts.get(('eq',) + e.args, st.facts.get(('eq',) + e.args[::-1])) is False: return False
            if isinstance(b, Ref):
                if isinstance(a, Term) and a.op == 'type': return self.type_is(st, a, b)
                return term('is', (a, b), 'bool') if a.typ is None and 'other' in getattr(a, 'tags', ()) else False
            if isinstance(b, (Sym, Term)):
                if self.distinct(a, b): return False
                return term('is', (a, b), 'bool')
            return term('is', (a, b), 'bool')
        if isinstance(a, Unk) or isinstance(b, Unk): return term('is', (a, b), 'bool')
        if isinstance(a, Lin) or isinstance(b, Lin): return False
        ta, tb = type(a), type(b)
        if ta is not tb: return False
        if ta in CONST: return a == b
        if ta in (Nat, Bound): return a == b and ta is Nat
        return False

    def type_is(self, st, t, cls):
        """type(x) is cls for a symbolic x"""
        return term('istype', (t.args[0], cls), 'bool')

    # ---------------------------------------------------------------- membership
    def contains(self, st, c, x, k):
        from .machine import Undecided
        if isinstance(c, str):
            if isinstance(x, str): return k(st, x in c)
            if isinstance(x, (Sym, Term, Unk)): return k(st, term('in', (x, c), 'bool'))
            return self.throw(st, 'TypeError', "'in <string>' requires string as left operand")
        if isinstance(c, Ref):
            o = st.rd(c)
            kd = o.kind
            if kd in ('list', 'tuple'): return self.seq_contains(st, c, x, 0, k)
            if kd == 'dict':
                return self.dict_lookup(st, c, x, lambda s, h, v: k(s, True), lambda s: k(s, False))
            if kd == 'set':
                return self.set_lookup(st, c, x, lambda s, h: k(s, True), lambda s: k(s, False))
            if kd == 'tree':
                return self.tree_lookup(st, c, x, lambda s, p, h: k(s, p))
            if kd == 'view':
                if o.how == 'keys' and o.lo is None and o.hi is None: return self.contains(st, o.src, x, k)
                return self.call(st, self.prelude(st, '__iter_contains'), [c, x], {}, k)
            if kd in ('gen', 'iter'): return self.call(st, self.prelude(st, '__iter_contains'), [c, x], {}, k)
            if o.cls is not None:
                f = self.mro_find(st, o.cls, '__contains__')
                if f is not None:
                    return self.call(st, self.bind_simple(st, f, c, o.cls), [x], {},
                                     lambda s, r: self.truth(s, r, k))
                if self.mro_find(st, o.cls, '__iter__') is not None or self.mro_find(st, o.cls, '__getitem__') is not None:
                    return self.call(st, self.prelude(st, '__iter_contains'), [c, x], {}, k)
            return self.throw(st, 'TypeError', f"argument of type '{self.tname(st, c)}' is not iterable")
        if isinstance(c, (Sym, Term, Unk)):
            if getattr(c, 'typ', None) in ('int', 'float', 'bool', 'NoneType', 'datetime'):
                return self.throw(st, 'TypeError', 'argument is not iterable')
            return k(st, term('in', (x, c), 'bool') if not isinstance(x, (Nat, Bound)) else Unk('in'))
        return self.throw(st, 'TypeError', f"argument of type '{self.tname(st, c)}' is not iterable")

    def seq_contains(self, st, c, x, i, k):
        items = st.rd(c).items
        while i < len(items):
            y = items[i]; i += 1
            if isinstance(y, Star):
                if all(self.surely_differs(st, v, x) for v in y.variants): continue
                j = i
                return self.fork_unk(st, lambda s, b: k(s, True) if b else self.seq_contains(s, c, x, j, k), 'membership in summary')
            if y is x: return k(st, True)
            r = self.eq(st, y, x)
            if r is True: return k(st, True)
            if r is False: continue
            j = i
            return self.compare_eq(st, y, x, lambda s, v: self.truth(
                s, v, lambda s2, b: k(s2, True) if b else self.seq_contains(s2, c, x, j, k)))
        return k(st, False)

    # ---------------------------------------------------------------- dicts / sets
    def dict_lookup(self, st, d, key, k_found, k_missing):
        o = st.rd(d)
        h = self.hkey(st, key)
        if h in o.e: return k_found(st, h, o.e[h][1])
        if isinstance(key, (Sym, Term, Unk, Lin)) or any(isinstance(x[0], (Sym, Term, Lin, Unk)) for x in o.e.values()) or (isinstance(key, Ref) and st.rd(key).kind == 'tuple'):
            return self._lookup(st, d, key, [(hh, x[0]) for hh, x in o.e.items()], 0,
                                lambda s, hh: k_found(s, hh, s.rd(d).e[hh][1]), k_missing)
        return self._lookup_stars(st, d, key, k_found, k_missing)

    def set_lookup(self, st, d, key, k_found, k_missing):
        o = st.rd(d)
        h = self.hkey(st, key)
        if h in o.e: return k_found(st, h)
        if isinstance(key, (Sym, Term, Unk, Lin)) or any(isinstance(x, (Sym, Term, Lin, Unk)) for x in o.e.values()) or (isinstance(key, Ref) and st.rd(key).kind == 'tuple'):
            return self._lookup(st, d, key, list(o.e.items()), 0, k_found, k_missing)
        if o.stars and not all(self.surely_differs(st, v, key) for x in o.stars for v in x.variants):
            return self.fork_unk(st, lambda s, b: k_found(s, None) if b else k_missing(s), 'membership in summary set')
        return k_missing(st)

    def surely_differs(self, st, a, b):
        """a can never equal b (used for members of summaries)"""
        if isinstance(a, tuple) or isinstance(a, Unk) or isinstance(b, Unk): return False
        if isinstance(a, Ref) or isinstance(b, Ref): return False
        if a is b: return False
        return self.eq(st, a, b) is False

    def _lookup(self, st, d, key, cands, i, k_found, k_missing):
        while i < len(cands):
            h, kv = cands[i]; i += 1
            r = self.eq(st, kv, key) if not (isinstance(kv, Ref) and isinstance(key, Ref) and kv is not key and st.rd(kv).kind != 'tuple') else False
            if r is True: return k_found(st, h)
            if r is False or r is None: continue
            j = i
            return self.truth(st, r, lambda s, b: k_found(s, h) if b else self._lookup(s, d, key, cands, j, k_found, k_missing))
        stars = st.rd(d).stars
        if stars and not all(self.surely_differs(st, v[0] if st.rd(d).kind == 'dict' else v, key) for x in stars for v in x.variants):
            if st.rd(d).kind == 'dict':
                return self._lookup_stars(st, d, key, lambda s, h, v: k_found(s, h), k_missing)
            return self.fork_unk(st, lambda s, b: k_found(s, None) if b else k_missing(s), 'membership in summary')
        return k_missing(st)

    def _lookup_stars(self, st, d, key, k_found, k_missing):
        o = st.rd(d)
        if not o.stars or all(self.surely_differs(st, v[0], key) for x in o.stars for v in x.variants): return k_missing(st)
        # materialise an entry of the summary
        def go(s, b):
            if not b: return k_missing(s)
            w = s.wr(d)
            star = w.stars[0]
            v = star.variants[0][1]
            if isinstance(v, Ref): v = self.clone_obj(s, v)
            elif isinstance(v, Sym): v = sym(f'{v.name}@{key}', v.typ, v.tags)
            h = self.hkey(s, key)
            w.e[h] = (key, v)
            return k_found(s, h, v)
        return self.fork_unk(st, go, 'membership in summary')

    def clone_obj(self, st, v):
        o = st.rd(v).copy()
        o.owner = None
        return st.alloc(o)

    def dict_set(self, st, d, key, val, k):
        if isinstance(key, (Sym, Term, Unk, Lin)) or any(isinstance(x[0], (Sym, Term)) for x in st.rd(d).e.values()):
            def found(s, h, v):
                w = s.wr(d); w.e[h] = (w.e[h][0], val)
                return k(s)
            def missing(s):
                return self.dict_new(s, d, key, val, k)
            h = self.hkey(st, key)
            o = st.rd(d)
            if h in o.e: return found(st, h, None)
            return self._lookup(st, d, key, [(hh, x[0]) for hh, x in o.e.items()], 0, lambda s, h: found(s, h, None),
                                missing) if not o.stars else missing(st)
        h = self.hkey(st, key)
        w = st.wr(d)
        if h in w.e:
            w.e[h] = (w.e[h][0], val)
            self.dict_sync(st, d, key, val)
            return k(st)
        return self.dict_new(st, d, key, val, k)

    def dict_new(self, st, d, key, val, k):
        from .ops_model import star_of
        w = st.wr(d)
        if st.flags.get('stars'):
            stars = st.active_stars()
            if stars and (w.star is None or w.star not in stars):
                src = star_of(st, stars[-1])
                if src is not None and not isinstance(key, CONST):
                    sid = f'app({src.id})'
                    for j, s in enumerate(w.stars):
                        if s.id == sid:
                            if (key, val) not in s.variants: w.stars[j] = Star(sid, s.variants + ((key, val),), s.n)
                            return k(st)
                    n = src.n if st.rd(stars[-1]).forks == st.forks else None
                    w.stars.append(self.mkstar(st, sid, ((key, val),), n))
                    return k(st)
        w.e[self.hkey(st, key)] = (key, val); w.ver += 1
        self.dict_sync(st, d, key, val)
        return k(st)

    def dict_sync(self, st, d, key, val):
        """write-through of obj.__dict__"""
        o = st.rd(d)
        if o.d and '%dictof' in o.d and isinstance(key, str):
            t = o.d['%dictof']
            w = st.wr(t)
            w.d[key] = val

    def dict_del(self, st, d, h):
        w = st.wr(d)
        key = w.e[h][0]
        del w.e[h]; w.ver += 1
        if w.d and '%dictof' in w.d and isinstance(key, str):
            st.wr(w.d['%dictof']).d.pop(key, None)

    def dict_update(self, st, d, v, k):
        from .machine import Undecided
        if isinstance(v, Ref):
            o = st.rd(v)
            if o.kind == 'dict':
                pairs = list(o.e.values())
                def go(s, i):
                    while i < len(pairs):
                        kk, vv = pairs[i]; i += 1
                        w = s.wr(d)
                        if isinstance(kk, CONST) and not any(isinstance(x[0], (Sym, Term)) for x in w.e.values()):
                            h = self.hkey(s, kk)
                            if h not in w.e: w.ver += 1
                            w.e[h] = (kk, vv)
                            self.dict_sync(s, d, kk, vv)
                            continue
                        j = i
                        return self.dict_set(s, d, kk, vv, lambda s2: go(s2, j))
                    st2 = s.rd(v).stars
                    if st2:
                        w = s.wr(d); w.stars.extend(x for x in st2 if x not in w.stars)
                    return k(s)
                return go(st, 0)
            if o.kind == 'inst' and '%dict' in o.d:
                return self.dict_update(st, d, o.d['%dict'], k)
            return self.call(st, self.prelude(st, '__dict_update'), [d, v], {}, lambda s, r: k(s))
        if isinstance(v, (Sym, Term, Unk)):
            w = st.wr(d)
            kk = sym(f'key({v})', 'str')
            w.stars.append(self.mkstar(st, f'items({v})', ((kk, term('item', (v, kk))),)))
            return k(st)
        return self.throw(st, 'TypeError', f"'{self.tname(st, v)}' object is not a mapping")

    def set_update(self, st, d, v, k):
        from .ops_model import set_add
        if isinstance(v, Ref) and st.rd(v).kind in ('set', 'list', 'tuple') and not any(isinstance(x, Star) for x in (getattr(st.rd(v), 'items', None) or [])):
            o = st.rd(v)
            items = list(o.e.values()) if o.kind == 'set' else list(o.items)
            for x in items: set_add(self, st, d, x)
            if o.kind == 'set' and o.stars: st.wr(d).stars.extend(o.stars)
            return k(st)
        return self.call(st, self.prelude(st, '__set_update'), [d, v], {}, lambda s, r: k(s))

    def list_extend(self, st, lst, v, k):
        if isinstance(v, Ref):
            o = st.rd(v)
            if o.kind in ('list', 'tuple'):
                st.wr(lst).items.extend(list(o.items)); return k(st)
            if o.kind == 'set':
                st.wr(lst).items.extend(list(o.e.values()) + list(o.stars)); return k(st)
            if o.kind == 'dict':
                st.wr(lst).items.extend([x[0] for x in o.e.values()] + [Star(s.id, tuple(p[0] for p in s.variants), s.n) for s in o.stars]); return k(st)
            if o.kind == 'iter' and o.how == 'list' and o.instar == 0:
                src = st.rd(o.src)
                xs = list(src.items[o.pos:])
                st.wr(v).pos = len(src.items)
                st.wr(lst).items.extend(xs); return k(st)
            if o.kind == 'view' and o.lo is None and o.hi is None:
                return self.iter_(st, v, lambda s, it: self._extend_snap(s, lst, it, k))
        if isinstance(v, str):
            st.wr(lst).items.extend(v); return k(st)
        return self.call(st, self.prelude(st, '__list_extend'), [lst, v], {}, lambda s, r: k(s))

    def _extend_snap(self, st, lst, it, k):
        o = st.rd(it)
        w = st.wr(lst)
        for x in o.src:
            if isinstance(x, Star):
                vs = tuple(self.mktuple(st, v) if type(v) is tuple else v for v in x.variants)
                w = st.wr(lst); w.items.append(Star(x.id, vs, x.n))
            else:
                xx = self.wrap_item(st, x); w = st.wr(lst); w.items.append(xx)
        return k(st)

    # ---------------------------------------------------------------- subscripts
    def norm_index(self, i, n):
        return i + n if i < 0 else i

    def getitem(self, st, v, key, k):
        from .machine import Undecided
        if isinstance(v, Ref):
            o = st.rd(v)
            kd = o.kind
            if kd in ('list', 'tuple'):
                if isinstance(key, bool): key = int(key)
                if isinstance(key, int):
                    if any(isinstance(x, Star) for x in o.items):
                        return self.star_index(st, v, key, k)
                    if -len(o.items) <= key < len(o.items): return k(st, o.items[key])
                    return self.throw(st, 'IndexError', f'{kd} index out of range')
                if isinstance(key, Ref) and st.rd(key).kind == 'slice':
                    return self.slice_seq(st, v, st.rd(key), k)
                l = as_lin(key)
                if l is not None:
                    if any(isinstance(x, Star) for x in o.items): raise Undecided('symbolic index into summary')
                    return self.index_fork(st, v, key, l, k)
                if isinstance(key, (Unk, Sym, Term)): raise Undecided(f'index by {key!r}')
                return self.throw(st, 'TypeError', f'{kd} indices must be integers or slices, not {self.tname(st, key)}')
            if kd == 'dict':
                def missing(s):
                    f = self.mro_find(s, s.rd(v).cls, '__missing__')
                    if f is not None: return self.call(s, self.bind_simple(s, f, v, s.rd(v).cls), [key], {}, k)
                    return self.throw(s, 'KeyError', key)
                f = self.mro_find(st, o.cls, '__getitem__') if o.cls is not self.types['dict'] else None
                if isinstance(f, Ref): return self.call(st, self.bind_simple(st, f, v, o.cls), [key], {}, k)
                return self.dict_lookup(st, v, key, lambda s, h, x: k(s, x), missing)
            if kd == 'tree':
                return self.tree_lookup(st, v, key, lambda s, p, h: k(s, s.rd(v).e[h][1]) if p else self.throw(s, 'KeyError', key))
            if kd == 'class':
                meta = o.cls
                if meta is not None and meta is not self.types['type']:
                    f = self.mro_find(st, meta, '__getitem__')
                    if f is not None: return self.call(st, self.bind_simple(st, f, v, meta), [key], {}, k)
                a, own = self.mro_find_raw(st, v, '__class_getitem__')
                if own is not None and isinstance(a, Ref):
                    return self.bind(st, a, None, v, lambda s, f: self.call(s, f, [key], {}, k))
                return k(st, v)      # generic alias
            if o.cls is not None:
                f = self.mro_find(st, o.cls, '__getitem__')
                if f is not None:
                    return self.call(st, self.bind_simple(st, f, v, o.cls), [key], {}, k)
            return self.throw(st, 'TypeError', f"'{self.tname(st, v)}' object is not subscriptable")
        if isinstance(v, (str, bytes)):
            if isinstance(key, int):
                try: return k(st, v[key])
                except IndexError: return self.throw(st, 'IndexError', 'string index out of range')
            if isinstance(key, Ref) and st.rd(key).kind == 'slice':
                s = st.rd(key)
                if all(x is None or isinstance(x, int) for x in (s.a, s.b, s.c)): return k(st, v[s.a:s.b:s.c])
            return k(st, term('item', (v, key), 'str') if not isinstance(key, Ref) else Unk('string slice'))
        if isinstance(v, Unk): return k(st, v)
        if isinstance(v, (Sym, Term)):
            if v.typ in ('int', 'float', 'bool', 'NoneType', 'datetime'):
                return self.throw(st, 'TypeError', f"'{v.typ}' object is not subscriptable")
            if isinstance(key, Ref) and st.rd(key).kind == 'slice':
                s = st.rd(key)
                return k(st, term('slice', (v, s.a, s.b, s.c), v.typ))
            return k(st, term('item', (v, key), 'str' if v.typ == 'str' else None))
        if isinstance(v, (Nat,)): return k(st, v)
        return self.throw(st, 'TypeError', f"'{self.tname(st, v)}' object is not subscriptable")

    def star_index(self, st, v, i, k):
        from .machine import Undecided
        items = st.rd(v).items
        if i >= 0:
            pre = items[:i + 1]
            if len(pre) == i + 1 and not any(isinstance(x, Star) for x in pre): return k(st, items[i])
        else:
            post = items[i:]
            if len(post) == -i and not any(isinstance(x, Star) for x in post): return k(st, items[i])
        if len(items) == 1 and isinstance(items[0], Star):
            star = items[0]
            p = as_lin(star.n)
            def go(s, b):
                if not b: return self.throw(s, 'IndexError', 'list index out of range')
                s.imp = s.imp + ('element of summary',)
                x = star.variants[0]
                return k(s, self.wrap_item(s, x))
            return self.ge0(st, lin_add(p, (-1, {})), go)
        raise Undecided('index into summary')

    def index_fork(self, st, v, key, l, k):
        items = st.rd(v).items
        n = len(items)
        def go(s, i):
            if i == n:
                lo, hi = self.lin_bounds(s, l)
                if lo is not None and lo >= 0 and hi is not None and hi < n:
                    from .machine import Dead
                    raise Dead()
                return self.throw(s, 'IndexError', 'tuple index out of range')
            if i == n - 1:
                lo, hi = self.lin_bounds(s, l)
                if lo is not None and hi is not None and lo >= 0 and hi <= n - 1:
                    # last remaining position; record the choice
                    pass
            r = self.eq(s, key, i)
            if r is True: return k(s, s.rd(v).items[i])
            if r is False: return go(s, i + 1)
            return self.truth(s, r, lambda s2, b: k(s2, s2.rd(v).items[i]) if b else go(s2, i + 1))
        return go(st, 0)

    def slice_seq(self, st, v, sl, k):
        from .machine import Undecided
        o = st.rd(v)
        mk = self.mklist if o.kind == 'list' else self.mktuple
        idx = (sl.a, sl.b, sl.c)
        if all(x is None for x in idx): return k(st, mk(st, list(o.items)))
        if not all(x is None or isinstance(x, int) for x in idx): raise Undecided('symbolic slice')
        if any(isinstance(x, Star) for x in o.items):
            a, b, c = idx
            if (a or 0) >= 0 and b is None and c is None:
                n = a or 0
                if not any(isinstance(x, Star) for x in o.items[:n]): return k(st, mk(st, o.items[n:]))
            if (a or 0) == 0 and c is None and isinstance(b, int) and b >= 0 and not any(isinstance(x, Star) for x in o.items[:b]) and len(o.items) >= b:
                return k(st, mk(st, o.items[:b]))
            raise Undecided('slice of summary')
        return k(st, mk(st, o.items[sl.a:sl.b:sl.c]))

    def setitem(self, st, v, key, val, k):
        from .machine import Undecided
        if isinstance(v, Ref):
            o = st.rd(v)
            kd = o.kind
            if kd == 'list':
                if isinstance(key, int):
                    if any(isinstance(x, Star) for x in o.items): raise Undecided('store into summary')
                    if -len(o.items) <= key < len(o.items):
                        st.wr(v).items[key] = val; return k(st)
                    return self.throw(st, 'IndexError', 'list assignment index out of range')
                if isinstance(key, Ref) and st.rd(key).kind == 'slice':
                    s = st.rd(key)
                    def go(s2, r):
                        st2 = s2.rd(key)
                        s2.wr(v).items[st2.a:st2.b:st2.c] = list(s2.rd(r).items)
                        return k(s2)
                    return self.call(st, self.types['list'], [val], {}, go)
                l = as_lin(key)
                if l is not None:
                    n = len(o.items)
                    def go(s, i):
                        if i == n: return self.throw(s, 'IndexError', 'list assignment index out of range')
                        r = self.eq(s, key, i)
                        def setit(s2):
                            s2.wr(v).items[i] = val; return k(s2)
                        if r is True: return setit(st)
                        if r is False: return go(s, i + 1)
                        return self.truth(s, r, lambda s2, b: setit(s2) if b else go(s2, i + 1))
                    return go(st, 0)
                raise Undecided('store at unknown index')
            if kd == 'dict':
                f = self.mro_find(st, o.cls, '__setitem__') if o.cls is not self.types['dict'] else None
                if isinstance(f, Ref): return self.call(st, self.bind_simple(st, f, v, o.cls), [key, val], {}, lambda s, r: k(s))
                return self.dict_set(st, v, key, val, k)
            if kd == 'tree':
                return self.tree_set(st, v, key, val, k)
            if kd == 'tuple': return self.throw(st, 'TypeError', "'tuple' object does not support item assignment")
            if o.cls is not None:
                f = self.mro_find(st, o.cls, '__setitem__')
                if f is not None:
                    return self.call(st, self.bind_simple(st, f, v, o.cls), [key, val], {}, lambda s, r: k(s))
            return self.throw(st, 'TypeError', f"'{self.tname(st, v)}' object does not support item assignment")
        if isinstance(v, (Unk, Sym, Term)):
            self.event(st, 'setitem', v, key, val); return k(st)
        return self.throw(st, 'TypeError', 'object does not support item assignment')

    def delitem(self, st, v, key, k):
        from .machine import Undecided
        if isinstance(v, Ref):
            o = st.rd(v)
            if o.kind == 'list':
                if isinstance(key, int) and not any(isinstance(x, Star) for x in o.items):
                    if -len(o.items) <= key < len(o.items):
                        del st.wr(v).items[key]; return k(st)
                    return self.throw(st, 'IndexError', 'list assignment index out of range')
                if isinstance(key, Ref) and st.rd(key).kind == 'slice':
                    s = st.rd(key)
                    w = st.wr(v); del w.items[s.a:s.b:s.c]
                    return k(st)
                raise Undecided('del at unknown index')
            if o.kind == 'dict':
                def found(s, h, x):
                    self.dict_del(s, v, h); return k(s)
                return self.dict_lookup(st, v, key, found, lambda s: self.throw(s, 'KeyError', key))
            if o.kind == 'tree':
                def go(s, p, h):
                    if not p: return self.throw(s, 'KeyError', key)
                    self.tree_remove(s, v, h); return k(s)
                return self.tree_lookup(st, v, key, go)
            if o.cls is not None:
                f = self.mro_find(st, o.cls, '__delitem__')
                if f is not None:
                    return self.call(st, self.bind_simple(st, f, v, o.cls), [key], {}, lambda s, r: k(s))
        if isinstance(v, (Unk, Sym, Term)):
            self.event(st, 'delitem', v, key); return k(st)
        return self.throw(st, 'TypeError', 'object does not support item deletion')

    # ---------------------------------------------------------------- abstract BTree
    def tree_lookup(self, st, t, key, k):
        """k(st, present, hkey)"""
        o = st.rd(t)
        if key is None or (isinstance(key, Ref) and st.rd(key).kind in ('list', 'dict', 'set')):
            return self.throw(st, 'TypeError', 'Object has default comparison')
        h = self.hkey(st, key)
        if h in o.e: return k(st, True, h)
        if h in o.absent: return k(st, False, h)
        if o.others and key is self.tree_other(o)[0]:
            st.wr(t).e[h] = (key, self.tree_other(o)[1])
            return k(st, True, h)
        cands = [(hh, x[0], True) for hh, x in o.e.items()] + [(hh, hh if not isinstance(hh, tuple) else hh[1], False) for hh in o.absent]
        def go(s, i):
            while i < len(cands):
                hh, kv, pres = cands[i]; i += 1
                r = self.eq(s, kv, key)
                if r is True: return k(s, pres, hh)
                if r is False or r is None: continue
                j = i
                return self.truth(s, r, lambda s2, b: k(s2, pres, hh) if b else go(s2, j))
            ob = s.rd(t)
            if not ob.others: return k(s, False, h)
            def present(s2):
                w = s2.wr(t)
                w.e[h] = (key, sym(f'val({w.label},{key})', None, ('stored',)))
                l = as_lin(w.size)
                if l is not None:
                    # size >= number of tracked entries
                    p = lin_add(l, (len(w.e), {}), -1)
                    lo, hi = self.lin_bounds(s2, p)
                    if hi is not None and hi < 0:
                        from .machine import Dead
                        raise Dead()
                    self.assume_ge0(s2, p)
                return k(s2, True, h)
            def absent(s2):
                s2.wr(t).absent.add(h)
                return k(s2, False, h)
            return self.branch(s, [(f'{key} present in {ob.label}', present), (f'{key} absent from {ob.label}', absent)])
        return go(st, 0)

    def assume_ge0(self, st, p):
        c, co = p
        co = {n: v for n, v in co.items() if v}
        if not co: return
        key, sgn = self.lin_key(co)
        l, h = self.iv_get(st, key)
        if sgn > 0:      # L >= -c
            l = -c if l is None else max(l, -c)
        else:
            h = c if h is None else min(h, c)
        st.iv[key] = (l, h)

    def tree_set(self, st, t, key, val, k, how='set'):
        def go(s, p, h):
            w = s.wr(t)
            if p:
                w.e[h] = (w.e[h][0], val)
            else:
                w.e[h] = (key, val); w.absent.discard(h)
                w.size = from_lin(lin_add(as_lin(w.size), (1, {}))); w.ver += 1
            self.event(s, 'tree_write', t, h)
            return k(s)
        return self.tree_lookup(st, t, key, go)

    def tree_remove(self, st, t, h):
        w = st.wr(t)
        kv, v = w.e.pop(h)
        w.absent.add(h)
        w.size = from_lin(lin_add(as_lin(w.size), (1, {}), -1)); w.ver += 1
        self.event(st, 'tree_write', t, h)
        return v
