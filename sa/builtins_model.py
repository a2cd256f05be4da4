"""Models of builtin types and functions."""
import math, types
from . import relang
from .values import *
from .semantics import CONST

EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'GeneratorExit': 'BaseException', 'CancelledError': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'LookupError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError', 'ValueError': 'Exception',
    'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError',
    'TypeError': 'Exception', 'AttributeError': 'Exception', 'NameError': 'Exception', 'UnboundLocalError': 'NameError',
    'RuntimeError': 'Exception', 'RecursionError': 'RuntimeError', 'NotImplementedError': 'RuntimeError',
    'StopIteration': 'Exception', 'StopAsyncIteration': 'Exception', 'AssertionError': 'Exception', 'OSError': 'Exception',
    'FileNotFoundError': 'OSError', 'FileExistsError': 'OSError', 'PermissionError': 'OSError', 'NotADirectoryError': 'OSError',
    'IsADirectoryError': 'OSError', 'ConnectionError': 'OSError', 'TimeoutError': 'OSError',
    'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'EOFError': 'Exception', 'MemoryError': 'Exception',
    'Warning': 'Exception', 'UserWarning': 'Warning', 'DeprecationWarning': 'Warning', 'RuntimeWarning': 'Warning',
    'BufferError': 'Exception', 'SystemError': 'Exception', 'ExceptionGroup': 'Exception', 'BaseExceptionGroup': 'BaseException',
}
PLAIN = ['int', 'str', 'float', 'bytes', 'complex', 'NoneType', 'list', 'tuple', 'dict', 'set', 'frozenset', 'property',
         'classmethod', 'staticmethod', 'function', 'method', 'builtin_function_or_method', 'module', 'iterator', 'generator',
         'coroutine', 'code', 'ellipsis', 'slice', 'super', 'NotImplementedType', 'view', 'OOBTree', 'range', 'datetime',
         'timedelta', 'cell', 'object_', 'bytearray', 'date', 'file']

STR_RET = {'encode': 'bytes', 'startswith': 'bool', 'endswith': 'bool', 'isdigit': 'bool', 'isalpha': 'bool', 'isalnum': 'bool',
           'isnumeric': 'bool', 'isdecimal': 'bool', 'isspace': 'bool', 'isupper': 'bool', 'islower': 'bool', 'isidentifier': 'bool', 'isascii': 'bool',
           'find': 'int', 'rfind': 'int', 'index': 'int', 'rindex': 'int', 'count': 'int'}



def strenc(x, toks):
    """a string with unknown pieces as a python string with one private character per piece"""
    if isinstance(x, str): return x
    if isinstance(x, Term) and x.op == 'fmt':
        ps = [strenc(y, toks) for y in x.args]
        return None if None in ps else ''.join(ps)
    if isinstance(x, (Sym, Term)) and x.typ in ('str', None):
        if x not in toks: toks.append(x)
        return chr(0xe000 + toks.index(x))
    return None

def strdec(s, toks):
    from .ops_model import concat_str
    return concat_str([toks[ord(c) - 0xe000] if 0 <= ord(c) - 0xe000 < len(toks) else c for c in s]) if s else ''


def install(m, st):
    from .machine import AbsExc, Undecided
    T = m.types
    def mktype(name, bases):
        c = ClassO(None, name, tuple(bases), {}, native=True)
        r = st.alloc(c); T[name] = r
        return r
    mktype('object', ())
    st.wr(T['object']).mro = (T['object'],)
    mktype('type', (T['object'],))
    for r in (T['object'], T['type']): st.wr(r).cls = T['type']
    def fin(name, base='object'):
        r = T.get(name) or mktype(name, (T[base],))
        o = st.wr(r); o.cls = T['type']; o.mro = (r,) + tuple(st.rd(T[base]).mro); o.bases = (T[base],); o.mod = 'builtins'
        return r
    fin('type')
    for n in PLAIN: fin(n)
    fin('bool', 'int')
    for n, b in EXC.items(): fin(n, b or 'object')
    T['IOError'] = T['OSError']; T['EnvironmentError'] = T['OSError']
    B = m.builtins = {}
    for n in ['object', 'type', 'int', 'str', 'float', 'bytes', 'complex', 'list', 'tuple', 'dict', 'set', 'frozenset', 'property',
              'classmethod', 'staticmethod', 'slice', 'super', 'bool', 'IOError', 'range', 'bytearray'] + list(EXC): B[n] = T[n]
    del B['super']; del B['slice']; del B['CancelledError']
    B['True'] = True; B['False'] = False; B['None'] = None; B['Ellipsis'] = Ellipsis
    B['__OOBTree__'] = T['OOBTree']
    B['slice'] = T['slice']
    m.not_implemented = st.alloc(Inst(T['NotImplementedType'])); B['NotImplemented'] = m.not_implemented
    B['__name__'] = 'builtins'; B['__debug__'] = True

    def add(name, fn, simple=True, where=None):
        n = Nat(name, fn, simple); m.nat[name] = n
        if where: st.wr(T[where]).d[name.split('.', 1)[1]] = n
        elif '.' not in name: B[name] = n
        return n
    def simple(name, where=None):
        return lambda f: add(name, f, True, where)
    def full(name, where=None):
        return lambda f: add(name, f, False, where)
    def meth(tname, name, simple_=True):
        return lambda f: add(f'{tname}.{name}', f, simple_, tname)

    # ------------------------------------------------------------ object / type
    meth('object', '__init__')(lambda m, st, a, kw: None)
    def obj_new(m, st, a, kw, k):
        c = a[0]
        for b in st.rd(c).mro:
            nn = st.rd(b).nat_new
            if nn is not None and st.rd(b).name not in ('object',):
                return nn_raw(m, st, c, a[1:], kw, k, nn)
        return k(st, st.alloc(Inst(c)))
    def nn_raw(m, st, c, args, kw, k, nn):
        return nn(m, st, c, args, kw, k, raw=True)
    meth('object', '__new__', False)(obj_new)
    def gset(m, st, a, kw, k):
        return m.generic_setattr(st, a[0], a[1], a[2], lambda s: k(s, None))
    meth('object', '__setattr__', False)(gset)
    def gget(m, st, a, kw, k):
        return m.inst_getattr2(st, a[0], st.rd(a[0]), st.rd(a[0]).cls, a[1], k)
    meth('object', '__getattribute__', False)(gget)
    meth('object', '__str__', False)(lambda m, st, a, kw, k: m.str_(st, a[0], k))
    meth('object', '__repr__', False)(lambda m, st, a, kw, k: k(st, term('reprof', (a[0],), 'str')))
    meth('object', '__hash__')(lambda m, st, a, kw: term('hash', (a[0], st.ghost.get('%epoch', 0)), 'int'))
    meth('object', '__eq__')(lambda m, st, a, kw: True if a[0] is a[1] else m.not_implemented)
    meth('object', '__init_subclass__')(lambda m, st, a, kw: None)
    def gdel(m, st, a, kw):
        w = st.wr(a[0])
        if a[1] not in w.d: raise AbsExc('AttributeError', a[1])
        del w.d[a[1]]
    meth('object', '__delattr__')(gdel)

    @full('type.mro')
    def _(m, st, a, kw, k): return k(st, m.mklist(st, st.rd(a[0]).mro))
    st.wr(T['type']).d['mro'] = m.nat['type.mro']

    def type_new(m, st, c, args, kw, k, raw=False):
        if len(args) == 1 and c is T['type']:
            v = args[0]
            t = m.typeof(st, v)
            if t is not None: return k(st, t)
            if isinstance(v, Unk): return k(st, v)
            return k(st, term('type', (v,)))
        name, bases, d = args
        ns = {}
        o = st.rd(d)
        if o.stars: raise Undecided('class from summarised namespace')
        for kk, vv in o.e.values(): ns[kk] = vv
        return make_class(m, st, c, name, list(st.rd(bases).items), ns, k, {})
    st.wr(T['type']).nat_new = type_new

    def merge_mro(m, st, bases):
        seqs = [list(st.rd(b).mro) for b in bases] + [list(bases)]
        out = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs: return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs): break
            else:
                raise AbsExc('TypeError', 'Cannot create a consistent method resolution order (MRO)')
            out.append(c)
            for s in seqs:
                if s[0] is c: del s[0]

    def make_class(m, st, meta, name, bases, ns, k, kwds):
        bases = [b for b in bases if not m.is_typing(st, b)]
        bases = tuple(bases) or (T['object'],)
        if len(set(bases)) != len(bases): raise AbsExc('TypeError', 'duplicate base class')
        mc = meta or T['type']
        for b in bases:
            if isinstance(b, Ref) and st.rd(b).kind == 'class':
                bm = st.rd(b).cls
                if bm is not None and bm is not T['type'] and mc is T['type']: mc = bm
        ns = dict(ns)
        for drop in ('__dict__', '__weakref__'): ns.pop(drop, None)
        cell = ns.pop('__classcell__', None)
        co = ClassO(mc, name, bases, ns)
        r = st.alloc(co)
        o = st.wr(r)
        o.mro = tuple([r] + merge_mro(m, st, bases))
        o.mod = ns.get('__module__')
        if '__doc__' not in ns: ns['__doc__'] = None
        if cell is not None: st.wr(cell).v = r
        for n in ('__init_subclass__', '__class_getitem__'):
            v = ns.get(n)
            if isinstance(v, Ref) and st.rd(v).kind == 'func':
                i = Inst(T['classmethod']); i.d['%f'] = v; ns[n] = st.alloc(i)
        v = ns.get('__new__')
        if isinstance(v, Ref) and st.rd(v).kind == 'func':
            i = Inst(T['staticmethod']); i.d['%f'] = v; ns['__new__'] = st.alloc(i)
        # __set_name__
        todo = []
        for n, v in list(ns.items()):
            if isinstance(v, Ref) and st.rd(v).kind == 'inst':
                f = m.mro_find(st, st.rd(v).cls, '__set_name__')
                if f is not None: todo.append((n, v, f))
        def names(s, i):
            if i < len(todo):
                n, v, f = todo[i]
                return m.call(s, m.bind_simple(s, f, v, s.rd(v).cls), [r, n], {}, lambda s2, _: names(s2, i + 1))
            for b in s.rd(r).mro[1:]:
                f = s.rd(b).d.get('__init_subclass__')
                if f is not None and isinstance(f, Ref):
                    return m.bind(s, f, None, r, lambda s2, g: m.call(s2, g, [], kwds, lambda s3, _: k(s3, r)))
            return k(s, r)
        return names(st, 0)
    m.make_class = lambda st, meta, name, bases, ns, k: make_class(m, st, meta, name, bases, ns, k, {})

    @full('__build_class__')
    def _(m, st, a, kw, k):
        fn, name, bases = a[0], a[1], a[2:]
        kw = dict(kw)
        meta = kw.pop('metaclass', None)
        ns = st.alloc(Inst(T['object']))
        o = st.rd(fn)
        def done(s, cell):
            d = dict(s.rd(ns).d)
            if isinstance(cell, Ref) and s.rd(cell).kind == 'cell': d['__classcell__'] = cell
            return make_class(m, s, meta, name, list(bases), d, k, kw)
        fr = m.new_frame(st, o.code, o.globs, done)
        fr.ns = ns; fr.func = fn
        if o.closure:
            for n, c in zip(o.code.co_freevars, o.closure): fr.fast[n] = c
        st.frames.append(fr)
        return None

    def obj_nat_new(m, st, c, args, kw, k, raw=False):
        r = st.alloc(Inst(c))
        if raw: return k(st, r)
        return m.init_obj(st, r, c, args, kw, k)

    # ------------------------------------------------------------ scalars
    def sub_ok(c, name):
        if c is not T[name]: raise Undecided(f'subclass of {name}')
    def int_new(m, st, c, args, kw, k, raw=False):
        sub_ok(c, 'int')
        if not args: return k(st, 0)
        v = args[0]
        if isinstance(v, CONST):
            try: return k(st, int(v, *[x for x in args[1:]], **kw))
            except Exception as e: return m.throw(st, type(e).__name__, str(e))
        l = as_lin(v)
        if l is not None: return k(st, v)
        if isinstance(v, Ref):
            for n in ('__int__', '__index__'):
                f = m.mro_find(st, st.rd(v).cls, n) if st.rd(v).cls else None
                if f is not None: return m.call(st, m.bind_simple(st, f, v, st.rd(v).cls), [], {}, k)
            return m.throw(st, 'TypeError', 'int() argument must be a string or a number')
        if isinstance(v, Unk): return k(st, term('int', (v,), 'int'))
        t = v.typ
        if len(args) == 1 and t == 'float':
            r = m.rounded(st, 'int', v)
            if r is not None: return k(st, r)
            if '%nt' in st.ghost: return k(st, Unk('rounding'))
        res = term('int', tuple(args), 'int')
        if t in ('float', 'bool'): return k(st, res)
        return m.fork_fact(st, ('parses', 'int', v), lambda s, b: k(s, res) if b else m.throw(s, 'ValueError', 'invalid literal for int()'), f'{v} parses as int')
    st.wr(T['int']).nat_new = int_new
    def bool_new(m, st, c, args, kw, k, raw=False):
        if not args: return k(st, False)
        v = args[0]
        if isinstance(v, Term) and v.typ == 'bool': return k(st, v)
        return m.truth(st, v, k)
    st.wr(T['bool']).nat_new = bool_new
    def float_new(m, st, c, args, kw, k, raw=False):
        sub_ok(c, 'float')
        if not args: return k(st, 0.0)
        v = args[0]
        if isinstance(v, CONST):
            try: return k(st, float(v))
            except Exception as e: return m.throw(st, type(e).__name__, str(e))
        if getattr(v, 'typ', None) == 'float': return k(st, v)
        res = term('float', (v,), 'float')
        if getattr(v, 'typ', None) == 'str':
            return m.fork_fact(st, ('parses', 'float', v), lambda s, b: k(s, res) if b else m.throw(s, 'ValueError', 'could not convert string to float'))
        return k(st, res)
    st.wr(T['float']).nat_new = float_new
    def str_new(m, st, c, args, kw, k, raw=False):
        sub_ok(c, 'str')
        if not args: return k(st, '')
        if len(args) > 1 or kw: return k(st, term('decode', tuple(args), 'str'))
        return m.str_(st, args[0], k)
    st.wr(T['str']).nat_new = str_new
    def bytes_new(m, st, c, args, kw, k, raw=False):
        if not args: return k(st, b'')
        if isinstance(args[0], (bytes,)): return k(st, args[0])
        return k(st, term('bytes', tuple(args), 'bytes'))
    st.wr(T['bytes']).nat_new = bytes_new
    def from_bytes(m, st, a, kw):
        v = a[0]
        order = a[1] if len(a) > 1 else kw.get('byteorder', 'big')
        signed = kw.get('signed', False)
        if isinstance(v, bytes) and isinstance(order, str): return int.from_bytes(v, order, signed=signed)
        t = term('int.from_bytes', (v, order, signed), 'int')
        if isinstance(t, Term): st.iv.setdefault(t, (0 if signed is False else None, None))
        return t
    i = Inst(T['staticmethod']); i.d['%f'] = Nat('int.from_bytes', from_bytes, True)
    st.wr(T['int']).d['from_bytes'] = st.alloc(i)
    for tn, names in (('int', ('bit_length', 'to_bytes', 'bit_count', 'is_integer')), ('float', ('is_integer', 'hex'))):
        for n in names:
            def f(m, st, a, kw, n=n):
                if all(isinstance(x, CONST) for x in a): return getattr(a[0], n)(*a[1:], **kw)
                return term(n, tuple(a), 'int' if n.startswith('bit') else 'bytes')
            meth(tn, n)(f)
    # datetime-like symbolic numbers
    # ------------------------------------------------------------ str methods
    def mk_str(n, typ):
        def f(m, st, a, kw, k):
            a = list(a)
            if n in ('startswith', 'endswith') and len(a) == 2 and isinstance(a[0], Term) and a[0].op == 'fmt' and isinstance(a[1], str):
                piece = a[0].args[0 if n == 'startswith' else -1]
                if isinstance(piece, str):
                    if len(piece) >= len(a[1]): return k(st, getattr(piece, n)(a[1]))
                    if not (a[1].startswith(piece) if n == 'startswith' else a[1].endswith(piece)): return k(st, False)
            if n in ('startswith', 'endswith') and a[1:] == ['']: return k(st, True)
            if n in ('startswith', 'endswith') and len(a) == 2 and any(isinstance(x, Term) and x.op == 'fmt' for x in a):
                toks = []
                x, y = strenc(a[0], toks), strenc(a[1], toks)
                if x is not None and y is not None:
                    if getattr(x, n)(y): return k(st, True)
                    if n == 'endswith': x, y = x[::-1], y[::-1]
                    for c, d in zip(x, y):
                        if c != d:
                            if ord(c) < 0xe000 and ord(d) < 0xe000: return k(st, False)
                            break
            if n == 'join':
                return m.call(st, m.prelude(st, '__list_of'), [a[1]], {}, lambda s, l: join(m, s, a[0], l, k))
            conc = []
            for x in a + list(kw.values()):
                if isinstance(x, CONST): conc.append(x)
                elif isinstance(x, Ref) and st.rd(x).kind == 'tuple' and all(isinstance(y, CONST) for y in st.rd(x).items): conc.append(tuple(st.rd(x).items))
                elif isinstance(x, Ref) and st.rd(x).kind == 'dict' and all(isinstance(y, CONST) for p in st.rd(x).e.values() for y in p) and not st.rd(x).stars:
                    conc.append({p[0]: p[1] for p in st.rd(x).e.values()})
                else: conc = None; break
            if conc is not None:
                na = len(a)
                try: r = getattr(conc[0], n)(*conc[1:na], **dict(zip(kw, conc[na:])))
                except Exception as e: return m.throw(st, type(e).__name__, str(e))
                if isinstance(r, list): return k(st, m.mklist(st, r))
                if isinstance(r, tuple): return k(st, m.mktuple(st, r))
                return k(st, r)
            if n == 'format' and isinstance(a[0], str):
                r = m.str_format(st, a[0], a[1:], kw, k)
                if r is not NotImplemented: return r
            if n == 'format':
                vals = []
                def nxt(s, i):
                    if i == len(a): return k(s, term('fmt', tuple(vals), 'str'))
                    return m.str_(s, a[i], lambda s2, v: (vals.append(v), nxt(s2, i + 1))[1])
                return nxt(st, 0)
            args = [x if not isinstance(x, Ref) else (tuple_repr(st, x) if st.rd(x).kind == 'tuple' else Unk('str arg')) for x in a]
            if n in ('split', 'rsplit', 'splitlines'):
                t = term('str.' + n, args)
                e = term('part', (t,), 'str')
                return k(st, m.mklist(st, [m.mkstar(st, f'split({t})', (e,))]))
            if n in ('partition', 'rpartition'):
                t = term('str.' + n, args)
                return k(st, m.mktuple(st, [term('item', (t, j), 'str') for j in range(3)]))
            if n in ('index', 'rindex'):
                t = term('str.find', args, 'int')
                return m.fork_fact(st, ('found',) + tuple(args), lambda s, b: k(s, t) if b else m.throw(s, 'ValueError', 'substring not found'))
            if kw: args += [x for _, x in sorted(kw.items())]
            t = term('str.' + n, args, typ)
            if n in ('count',) and isinstance(t, Term): st.iv.setdefault(t, (0, None))
            if n in ('find', 'rfind') and isinstance(t, Term): st.iv.setdefault(t, (-1, None))
            if n in ('lower', 'upper', 'casefold', 'strip') and isinstance(args[0], Term) and args[0].op == 'str.' + n and len(args) == 1:
                return k(st, args[0])
            return k(st, t)
        return f
    def tuple_repr(st, x):
        its = st.rd(x).items
        return tuple(its) if all(isinstance(y, CONST) for y in its) else Unk('tuple arg')
    def join(m, st, sep, l, k):
        from .ops_model import concat_str
        items = st.rd(l).items
        for x in items:
            if isinstance(x, Star):
                return k(st, term('join', (sep,) + tuple(y if not isinstance(y, Star) else str(y) for y in items), 'str'))
            if isinstance(x, Ref) or (isinstance(x, CONST) and not isinstance(x, (str, bytes))):
                return m.throw(st, 'TypeError', 'sequence item: expected str instance')
        if isinstance(sep, bytes): return k(st, term('bjoin', (sep,) + tuple(items), 'bytes'))
        out = []
        for i, x in enumerate(items):
            if i: out.append(sep)
            out.append(x)
        return k(st, concat_str(out))
    for n in dir(str):
        if not n.startswith('_') and n not in ('maketrans',):
            add(f'str.{n}', mk_str(n, STR_RET.get(n, 'str')), False, 'str')
    add('str.__len__', lambda m, st, a, kw, k: m.length(st, a[0], k), False, 'str')
    for n in ('__iter__', '__contains__', '__getitem__'):
        pass
    for n, typ in (('decode', 'str'), ('hex', 'str'), ('startswith', 'bool'), ('endswith', 'bool')):
        def f(m, st, a, kw, n=n, typ=typ):
            if all(isinstance(x, CONST) for x in a):
                try: return getattr(a[0], n)(*a[1:])
                except Exception as e: raise AbsExc(type(e).__name__, str(e))
            if n == 'decode' and isinstance(a[0], Term) and a[0].op == 'str.encode': return a[0].args[0]
            return term('bytes.' + n, tuple(a), typ)
        meth('bytes', n)(f)

    # ------------------------------------------------------------ sequences
    def seq_new(kind):
        def new(m, st, c, args, kw, k, raw=False):
            mk = (lambda s, items: s.alloc((ListO if kind == 'list' else TupO)(c, list(items))))
            if not args:
                r = mk(st, ())
                return fin_new(m, st, r, c, kind, args, kw, k, raw)
            v = args[0]
            if isinstance(v, Ref) and st.rd(v).kind in ('list', 'tuple'):
                if kind == 'tuple' and st.rd(v).kind == 'tuple' and c is T['tuple']: return k(st, v)
                return k(st, mk(st, st.rd(v).items))
            r = m.mklist(st, ())
            def done(s):
                return k(s, mk(s, s.rd(r).items))
            return m.list_extend(st, r, v, done)
        return new
    def fin_new(m, st, r, c, kind, args, kw, k, raw):
        if raw or c is T[kind]: return k(st, r)
        return m.init_obj(st, r, c, args, kw, k)
    st.wr(T['list']).nat_new = seq_new('list')
    st.wr(T['tuple']).nat_new = seq_new('tuple')

    from .ops_model import list_append, set_add
    meth('list', 'append')(lambda m, st, a, kw: list_append(m, st, a[0], a[1]))
    meth('list', 'extend', False)(lambda m, st, a, kw, k: m.list_extend(st, a[0], a[1], lambda s: k(s, None)))
    def l_insert(m, st, a, kw):
        if not isinstance(a[1], int): raise Undecided('list.insert position')
        st.wr(a[0]).items.insert(a[1], a[2])
    meth('list', 'insert')(l_insert)
    def l_pop(m, st, a, kw):
        o = st.rd(a[0])
        i = a[1] if len(a) > 1 else -1
        if any(isinstance(x, Star) for x in o.items): raise Undecided('pop from summary')
        if not isinstance(i, int): raise Undecided('list.pop index')
        if not -len(o.items) <= i < len(o.items): raise AbsExc('IndexError', 'pop from empty list')
        return st.wr(a[0]).items.pop(i)
    meth('list', 'pop')(l_pop)
    def l_remove(m, st, a, kw, k):
        def go(s, i):
            items = s.rd(a[0]).items
            if i >= len(items): return m.throw(s, 'ValueError', 'list.remove(x): x not in list')
            if isinstance(items[i], Star): raise Undecided('remove from summary')
            return m.compare_eq(s, items[i], a[1], lambda s2, v: m.truth(s2, v, lambda s3, b: (s3.wr(a[0]).items.pop(i), k(s3, None))[1] if b else go(s3, i + 1)))
        return go(st, 0)
    meth('list', 'remove', False)(l_remove)
    def seq_index(m, st, a, kw, k):
        def go(s, i):
            items = s.rd(a[0]).items
            if i >= len(items): return m.throw(s, 'ValueError', 'x not in list')
            if isinstance(items[i], Star): raise Undecided('index in summary')
            return m.compare_eq(s, items[i], a[1], lambda s2, v: m.truth(s2, v, lambda s3, b: k(s3, i) if b else go(s3, i + 1)))
        return go(st, a[2] if len(a) > 2 else 0)
    meth('list', 'index', False)(seq_index); meth('tuple', 'index', False)(seq_index)
    def seq_count(m, st, a, kw, k):
        return m.call(st, m.prelude(st, '__seq_count'), [a[0], a[1]], {}, k)
    meth('list', 'count', False)(seq_count); meth('tuple', 'count', False)(seq_count)
    def l_reverse(m, st, a, kw): st.wr(a[0]).items.reverse()
    meth('list', 'reverse')(l_reverse)
    def l_clear(m, st, a, kw): st.wr(a[0]).items.clear()
    meth('list', 'clear')(l_clear)
    meth('list', 'copy')(lambda m, st, a, kw: m.mklist(st, st.rd(a[0]).items))
    def l_sort(m, st, a, kw, k):
        def done(s, r):
            s.wr(a[0]).items = list(s.rd(r).items); return k(s, None)
        return sorted_(m, st, [a[0]], kw, done)
    meth('list', 'sort', False)(l_sort)
    for tn in ('list', 'tuple', 'dict', 'set', 'frozenset', 'OOBTree', 'view', 'range', 'bytes'):
        add(f'{tn}.__len__', lambda m, st, a, kw, k: m.length(st, a[0], k), False, tn)
        add(f'{tn}.__iter__', lambda m, st, a, kw, k: m.iter_(st, a[0], k), False, tn)
        add(f'{tn}.__contains__', lambda m, st, a, kw, k: m.contains(st, a[0], a[1], lambda s, r: m.truth(s, r, k)), False, tn)
        add(f'{tn}.__getitem__', lambda m, st, a, kw, k: base_getitem(m, st, a, k), False, tn)
    def base_getitem(m, st, a, k):
        o = st.rd(a[0]) if isinstance(a[0], Ref) else None
        if o is not None and o.kind == 'dict':
            return m.dict_lookup(st, a[0], a[1], lambda s, h, x: k(s, x), lambda s: m.throw(s, 'KeyError', a[1]))
        return m.getitem(st, a[0], a[1], k)
    add('str.__iter__', lambda m, st, a, kw, k: m.iter_(st, a[0], k), False, 'str')
    add('str.__getitem__', lambda m, st, a, kw, k: m.getitem(st, a[0], a[1], k), False, 'str')
    add('iterator.__iter__', lambda m, st, a, kw: a[0], True, 'iterator')
    add('generator.__iter__', lambda m, st, a, kw: a[0], True, 'generator')
    def it_next(m, st, a, kw, k):
        return m.iter_next(st, a[0], k, lambda s: m.throw(s, 'StopIteration'))
    add('iterator.__next__', it_next, False, 'iterator')
    add('generator.__next__', it_next, False, 'generator')
    def g_send(m, st, a, kw, k):
        return m.gen_resume(st, a[0], a[1], k, lambda s: m.throw(s, 'StopIteration'))
    add('generator.send', g_send, False, 'generator')
    def g_close(m, st, a, kw, k):
        w = st.wr(a[0])
        if w.state == 'new' or w.frame is None:
            w.state = 'done'; w.frame = None
            return k(st, None)
        return g_throw(m, st, [a[0], m.mkexc(st, 'GeneratorExit')], {}, k, close=True)
    def g_throw(m, st, a, kw, k, close=False):
        exc = a[-1] if len(a) < 3 else (a[2] if a[2] is not None else a[1])
        if isinstance(exc, Ref) and st.rd(exc).kind == 'class':
            return m.call(st, exc, [], {}, lambda s, e: g_throw(m, s, [a[0], e], {}, k, close))
        w = st.wr(a[0])
        if w.frame is None:
            return k(st, None) if close else m.raise_(st, exc)
        f = w.frame.copy(); w.frame = None; w.state = 'run'
        f.gen = a[0]
        # guard frame that swallows GeneratorExit / StopIteration on close
        f.kont = ('gen', (lambda s, v: m.throw(s, 'RuntimeError', 'generator ignored GeneratorExit')) if close else k,
                  (lambda s: k(s, None)) if close else (lambda s: m.throw(s, 'StopIteration')), False)
        if close:
            return m.call(st, m.prelude(st, '__gen_close'), [Nat('resume', lambda m2, s, aa, kk, k2: resume(m, s, f, exc, k2), False)], {}, k)
        st.frames.append(f)
        return m.raise_(st, exc)
    def resume(m, st, f, exc, k2):
        f.kont = ('gen', lambda s, v: m.throw(s, 'RuntimeError', 'generator ignored GeneratorExit'), lambda s: k2(s, None), False)
        st.frames.append(f)
        return m.raise_(st, exc)
    add('generator.close', g_close, False, 'generator')
    add('generator.throw', g_throw, False, 'generator')
    add('coroutine.close', lambda m, st, a, kw: None, True, 'coroutine')
    add('coroutine.send', lambda m, st, a, kw, k: m.gen_resume(st, a[0], a[1], k, lambda s, v: m.throw(s, 'StopIteration', v), is_send=True), False, 'coroutine')
    add('coroutine.__await__', lambda m, st, a, kw: a[0], True, 'coroutine')

    # ------------------------------------------------------------ dict
    def dict_new(m, st, c, args, kw, k, raw=False):
        r = st.alloc(DictO(c))
        if raw: return k(st, r)
        if c is not T['dict']:
            ini, own = m.mro_find_raw(st, c, '__init__')
            if isinstance(ini, Ref):
                return m.init_obj(st, r, c, args, kw, k)
        return d_init(m, st, [r] + list(args), kw, lambda s, _: k(s, r))
    def d_init(m, st, a, kw, k):
        r = a[0]
        def kws(s):
            w = s.wr(r)
            for n, v in kw.items():
                h = m.hkey(s, n)
                w.e[h] = (n, v)
            return k(s, None)
        if len(a) > 1: return m.dict_update(st, r, a[1], kws)
        return kws(st)
    st.wr(T['dict']).nat_new = dict_new
    meth('dict', '__init__', False)(d_init)
    meth('dict', 'update', False)(d_init)
    def d_get(m, st, a, kw, k):
        dv = a[2] if len(a) > 2 else kw.get('default')
        return m.dict_lookup(st, a[0], a[1], lambda s, h, v: k(s, v), lambda s: k(s, dv))
    meth('dict', 'get', False)(d_get)
    meth('dict', '__setitem__', False)(lambda m, st, a, kw, k: m.dict_set(st, a[0], a[1], a[2], lambda s: k(s, None)))
    meth('dict', '__delitem__', False)(lambda m, st, a, kw, k: m.dict_lookup(st, a[0], a[1], lambda s, h, v: (m.dict_del(s, a[0], h), k(s, None))[1], lambda s: m.throw(s, 'KeyError', a[1])))
    def d_pop(m, st, a, kw, k):
        def found(s, h, v):
            m.dict_del(s, a[0], h); return k(s, v)
        return m.dict_lookup(st, a[0], a[1], found, lambda s: k(s, a[2]) if len(a) > 2 else m.throw(s, 'KeyError', a[1]))
    meth('dict', 'pop', False)(d_pop)
    def d_popitem(m, st, a, kw):
        o = st.rd(a[0])
        if o.stars: raise Undecided('popitem of summary')
        if not o.e: raise AbsExc('KeyError', 'popitem(): dictionary is empty')
        h = next(reversed(o.e)); kk, v = o.e[h]
        m.dict_del(st, a[0], h)
        return m.mktuple(st, (kk, v))
    meth('dict', 'popitem')(d_popitem)
    def d_setdefault(m, st, a, kw, k):
        dv = a[2] if len(a) > 2 else None
        return m.dict_lookup(st, a[0], a[1], lambda s, h, v: k(s, v), lambda s: m.dict_set(s, a[0], a[1], dv, lambda s2: k(s2, dv)))
    meth('dict', 'setdefault', False)(d_setdefault)
    for how in ('keys', 'values', 'items'):
        meth('dict', how)(lambda m, st, a, kw, how=how: st.alloc(ViewO(T['view'], a[0], how)))
    def d_clear(m, st, a, kw):
        w = st.wr(a[0]); w.e.clear(); w.stars = []; w.ver += 1
    meth('dict', 'clear')(d_clear)
    def d_copy(m, st, a, kw):
        r = st.alloc(DictO(T['dict'])); o = st.wr(r); s = st.rd(a[0])
        o.e = dict(s.e); o.stars = list(s.stars)
        return r
    meth('dict', 'copy')(d_copy)
    def d_fromkeys(m, st, a, kw, k):
        return m.call(st, m.prelude(st, '__fromkeys'), list(a), {}, k)
    i = Inst(T['staticmethod']); i.d['%f'] = Nat('dict.fromkeys', d_fromkeys, False)
    st.wr(T['dict']).d['fromkeys'] = st.alloc(i)

    # ------------------------------------------------------------ set
    def set_new(m, st, c, args, kw, k, raw=False):
        r = st.alloc(SetO(c))
        if not args: return k(st, r)
        return m.set_update(st, r, args[0], lambda s: k(s, r))
    st.wr(T['set']).nat_new = set_new
    st.wr(T['frozenset']).nat_new = set_new
    meth('set', 'add')(lambda m, st, a, kw: set_add(m, st, a[0], a[1]))
    def s_discard(m, st, a, kw, k, err=False):
        def found(s, h):
            w = s.wr(a[0])
            if h is not None: w.e.pop(h, None); w.ver += 1
            return k(s, None)
        return m.set_lookup(st, a[0], a[1], found, lambda s: m.throw(s, 'KeyError', a[1]) if err else k(s, None))
    meth('set', 'discard', False)(s_discard)
    meth('set', 'remove', False)(lambda m, st, a, kw, k: s_discard(m, st, a, kw, k, True))
    def s_update(m, st, a, kw, k):
        def go(s, i):
            if i >= len(a): return k(s, None)
            return m.set_update(s, a[0], a[i], lambda s2: go(s2, i + 1))
        return go(st, 1)
    meth('set', 'update', False)(s_update)
    def s_pop(m, st, a, kw):
        o = st.rd(a[0])
        if o.stars: raise Undecided('pop of summary set')
        if not o.e: raise AbsExc('KeyError', 'pop from an empty set')
        w = st.wr(a[0]); h = next(iter(w.e)); w.ver += 1
        return w.e.pop(h)
    meth('set', 'pop')(s_pop)
    def s_clear(m, st, a, kw):
        w = st.wr(a[0]); w.e.clear(); w.stars = []
    meth('set', 'clear')(s_clear)
    for tn in ('set', 'frozenset'):
        def s_copy(m, st, a, kw):
            r = st.alloc(SetO(st.rd(a[0]).cls)); w = st.wr(r); w.e = dict(st.rd(a[0]).e); w.stars = list(st.rd(a[0]).stars)
            return r
        meth(tn, 'copy')(s_copy)
        for n, opn in (('union', '|'), ('intersection', '&'), ('difference', '-'), ('symmetric_difference', '^')):
            def f(m, st, a, kw, k, opn=opn):
                def go(s, acc, i):
                    if i >= len(a): return k(s, acc)
                    return m.call(s, T['set'], [a[i]], {}, lambda s2, b: m.set_binary(s2, opn, acc, b, lambda s3, r: go(s3, r, i + 1)))
                return go(st, s_copy(m, st, [a[0]], {}), 1)
            meth(tn, n, False)(f)
        for n, fn in (('issubset', lambda x, y: x <= y), ('issuperset', lambda x, y: x >= y), ('isdisjoint', lambda x, y: not (x & y))):
            def f(m, st, a, kw, k, fn=fn):
                return m.call(st, T['set'], [a[1]], {}, lambda s, b: k(s, fn(set(s.rd(a[0]).e), set(s.rd(b).e))))
            meth(tn, n, False)(f)
    # view set-like methods
    def v_isdisjoint(m, st, a, kw, k):
        return m.call(st, T['set'], [a[0]], {}, lambda s, x: m.call(s, T['set'], [a[1]], {}, lambda s2, y: k(s2, not (set(s2.rd(x).e) & set(s2.rd(y).e)))))
    meth('view', 'isdisjoint', False)(v_isdisjoint)

    # ------------------------------------------------------------ property & friends
    def prop_new(m, st, c, args, kw, k, raw=False):
        r = st.alloc(Inst(c))
        w = st.wr(r)
        w.d.update({'%fget': None, '%fset': None, '%fdel': None})
        if raw: return k(st, r)
        return m.init_obj(st, r, c, args, kw, k)
    st.wr(T['property']).nat_new = prop_new
    def prop_init(m, st, a, kw, k):
        names = ('fget', 'fset', 'fdel', 'doc')
        v = dict(zip(names, a[1:])); v.update(kw)
        w = st.wr(a[0])
        for n in names[:3]: w.d['%' + n] = v.get(n)
        doc = v.get('doc')
        if doc is None and v.get('fget') is not None:
            return m.getattr(st, v['fget'], '__doc__', lambda s, d: (s.wr(a[0]).d.__setitem__('__doc__', d), k(s, None))[1])
        w.d['__doc__'] = doc
        return k(st, None)
    meth('property', '__init__', False)(prop_init)
    for n in ('getter', 'setter', 'deleter'):
        def f(m, st, a, kw, k, n=n):
            o = st.rd(a[0])
            v = {x: o.d.get('%' + x) for x in ('fget', 'fset', 'fdel')}
            v['f' + n[:3]] = a[1]
            r = st.alloc(Inst(o.cls)); w = st.wr(r)
            w.d.update({'%' + x: y for x, y in v.items()}); w.d['__doc__'] = o.d.get('__doc__')
            return k(st, r)
        meth('property', n, False)(f)
    def prop_get(m, st, a, kw, k):
        fg = st.rd(a[0]).d.get('%fget')
        if len(a) < 2 or a[1] is None: return k(st, a[0])
        if fg is None: return m.throw(st, 'AttributeError', 'unreadable attribute')
        return m.call(st, fg, [a[1]], {}, k)
    def prop_set(m, st, a, kw, k):
        fs = st.rd(a[0]).d.get('%fset')
        if fs is None: return m.throw(st, 'AttributeError', 'property has no setter')
        return m.call(st, fs, [a[1], a[2]], {}, lambda s, r: k(s, None))
    def prop_del(m, st, a, kw, k):
        fs = st.rd(a[0]).d.get('%fdel')
        if fs is None: return m.throw(st, 'AttributeError', 'property has no deleter')
        return m.call(st, fs, [a[1]], {}, lambda s, r: k(s, None))
    add('property.__get__', prop_get, False, 'property'); add('property.__set__', prop_set, False, 'property'); add('property.__delete__', prop_del, False, 'property')
    def wrap_new(m, st, c, args, kw, k, raw=False):
        r = st.alloc(Inst(c)); st.wr(r).d['%f'] = args[0]; st.wr(r).d['%__func__'] = args[0]; st.wr(r).d['%__wrapped__'] = args[0]
        return k(st, r)
    st.wr(T['classmethod']).nat_new = wrap_new
    st.wr(T['staticmethod']).nat_new = wrap_new
    # functions as descriptors
    def fn_get(m, st, a, kw, k):
        return k(st, a[0] if a[1] is None else Bound(a[0], a[1]))
    add('function.__get__', fn_get, False, 'function')
    add('function.__call__', lambda m, st, a, kw, k: m.call(st, a[0], a[1:], kw, k), False, 'function')
    add('method.__call__', lambda m, st, a, kw, k: m.call(st, a[0], a[1:], kw, k), False, 'method')
    add('builtin_function_or_method.__call__', lambda m, st, a, kw, k: m.call(st, a[0], a[1:], kw, k), False, 'builtin_function_or_method')
    add('type.__call__', lambda m, st, a, kw, k: m.call_class(st, a[0], st.rd(a[0]), a[1:], kw, k), False, 'type')

    # ------------------------------------------------------------ exceptions
    def exc_new(m, st, c, args, kw, k, raw=False):
        r = st.alloc(Inst(c))
        t = m.mktuple(st, args)
        st.wr(r).d['%args'] = t
        if raw: return k(st, r)
        return m.init_obj(st, r, c, args, kw, k)
    st.wr(T['BaseException']).nat_new = exc_new
    def exc_init(m, st, a, kw):
        t = m.mktuple(st, a[1:]); st.wr(a[0]).d['%args'] = t
    meth('BaseException', '__init__')(exc_init)
    meth('BaseException', 'with_traceback')(lambda m, st, a, kw: a[0])
    meth('BaseException', 'add_note')(lambda m, st, a, kw: None)
    for n in ('__cause__', '__suppress_context__'):
        st.wr(T['BaseException']).d[n] = None

    # ------------------------------------------------------------ functions
    simple('len2')(lambda m, st, a, kw: None)
    full('len')(lambda m, st, a, kw, k: m.length(st, a[0], k))
    simple('callable')(lambda m, st, a, kw: callable_(m, st, a[0]))
    def callable_(m, st, v):
        if isinstance(v, (Nat, Bound)): return True
        if isinstance(v, Ref):
            o = st.rd(v)
            if o.kind in ('func', 'class'): return True
            if o.kind == 'inst':
                if m.isa(st, v, 'classmethod'): return False
                if m.isa(st, v, 'staticmethod'): return True
                return m.mro_find(st, o.cls, '__call__') is not None
            return False
        if isinstance(v, (Sym, Term)):
            return v.typ == 'func' if v.typ else term('callable', (v,), 'bool')
        if isinstance(v, Unk): return term('callable', (v,), 'bool')
        return False
    full('repr')(lambda m, st, a, kw, k: m.repr_(st, a[0], k))
    full('ascii')(lambda m, st, a, kw, k: m.repr_(st, a[0], k))
    simple('print')(lambda m, st, a, kw: None)
    simple('id')(lambda m, st, a, kw: term('id', (a[0], st.ghost.get('%epoch', 0)), 'int') if not isinstance(a[0], (Nat, Bound)) else 0)
    def hash_(m, st, a, kw, k):
        v = a[0]
        if isinstance(v, Ref):
            o = st.rd(v)
            if o.kind in ('list', 'dict') or (o.kind == 'set' and o.cls is T['set']): return m.throw(st, 'TypeError', 'unhashable type')
            f = m.mro_find(st, o.cls, '__hash__') if o.cls else None
            if f is not None: return m.call(st, m.bind_simple(st, f, v, o.cls), [], {}, k)
        return k(st, term('hash', (v, st.ghost.get('%epoch', 0)), 'int') if not isinstance(v, (Nat, Bound)) else 0)
    full('hash')(hash_)
    def num1(name, fn):
        def f(m, st, a, kw, k):
            v = a[0]
            if all(isinstance(x, CONST) for x in a):
                try: return k(st, fn(*a))
                except Exception as e: return m.throw(st, type(e).__name__, str(e))
            if isinstance(v, Ref):
                return m.throw(st, 'TypeError', f'bad operand type for {name}()')
            if name == 'abs' and isinstance(v, Term) and v.op == 'td_const':
                n = v.args[0]
                return m.compare(st, '<', n, 0, lambda s, b: m.truth(s, b, lambda s2, neg: k(s2, v if not neg else
                    term('td_const', (from_lin(lin_add((0, {}), as_lin(n), -1)),), 'timedelta'))))
            if name == 'abs' and as_lin(v) is not None:
                lo, hi = m.lin_bounds(st, as_lin(v))
                if lo is not None and lo >= 0: return k(st, v)
            t = term(name, tuple(a), 'int' if name == 'round' and len(a) == 1 else getattr(v, 'typ', None) if as_lin(v) is None else 'int')
            if name == 'abs' and isinstance(t, Term) and t.typ == 'int': st.iv.setdefault(t, (0, None))
            return k(st, t)
        full(name)(f)
    num1('abs', abs); num1('round', round); num1('chr', chr); num1('ord', ord); num1('bin', bin); num1('hex', hex); num1('oct', oct)
    def pow_(m, st, a, kw, k): return m.binary(st, '**', a[0], a[1], k)
    full('pow')(pow_)
    def divmod_(m, st, a, kw, k):
        return m.binary(st, '//', a[0], a[1], lambda s, q: m.binary(s, '%', a[0], a[1], lambda s2, r: k(s2, m.mktuple(s2, (q, r)))))
    full('divmod')(divmod_)
    full('iter')(lambda m, st, a, kw, k: m.iter_(st, a[0], k) if len(a) == 1 else m.call(st, m.prelude(st, '__iter_sentinel'), list(a), {}, k))
    def next_(m, st, a, kw, k):
        if len(a) > 1: return m.iter_next(st, a[0], k, lambda s: k(s, a[1])) if st.kind(a[0]) in ('iter', 'gen') else m.call(st, m.prelude(st, '__next_default'), [a[0], a[1]], {}, k)
        if not isinstance(a[0], Ref): return m.throw(st, 'TypeError', 'not an iterator')
        if st.kind(a[0]) in ('iter', 'gen') and not (st.kind(a[0]) == 'iter' and st.rd(a[0]).how == 'range'):
            return m.iter_next(st, a[0], k, lambda s: m.throw(s, 'StopIteration'))
        o = st.rd(a[0])
        f = m.mro_find(st, o.cls, '__next__') if o.cls is not None else None
        if f is None: return m.throw(st, 'TypeError', f"'{st.rd(o.cls).name}' object is not an iterator")
        return m.call(st, m.bind_simple(st, f, a[0], o.cls), [], {}, k)
    full('next')(next_)
    def range_new(m, st, c, args, kw, k, raw=False):
        if len(args) == 1: a, b, s = 0, args[0], 1
        elif len(args) == 2: a, b, s = args[0], args[1], 1
        else: a, b, s = args
        for x in (a, b, s):
            if as_lin(x) is None:
                if isinstance(x, (Unk,)) or (isinstance(x, (Sym, Term)) and x.typ is None): raise Undecided('range of unknown')
                return m.throw(st, 'TypeError', 'object cannot be interpreted as an integer')
        if all(isinstance(x, int) for x in (a, b, s)):
            n = len(range(a, b, s))
        else:
            if s != 1: raise Undecided('symbolic range step')
            n = from_lin(lin_add(as_lin(b), as_lin(a), -1))
        return k(st, st.alloc(IterO(T['range'], 'range', None, (a, b, s, n))))
    st.wr(T['range']).nat_new = range_new
    def slice_new(m, st, c, args, kw, k, raw=False):
        a = list(args)
        if len(a) == 1: a = [None, a[0], None]
        while len(a) < 3: a.append(None)
        return k(st, st.alloc(SliceO(T['slice'], *a)))
    st.wr(T['slice']).nat_new = slice_new

    # attributes
    def getattr_(m, st, a, kw, k):
        name = a[1]
        if not isinstance(name, str):
            if isinstance(name, (Sym, Term, Unk)): raise Undecided(f'getattr with computed name {name!r}')
            return m.throw(st, 'TypeError', 'attribute name must be string')
        if len(a) < 3: return m.getattr(st, a[0], name, k)
        v = a[0]
        if isinstance(v, Ref):
            o = st.rd(v)
            if o.kind == 'inst' and o.d is not None and name in o.d:
                x, own = m.mro_find_raw(st, o.cls, name)
                if own is None: return k(st, o.d[name])
        elif isinstance(v, CONST):
            x, own = m.mro_find_raw(st, m.typeof(st, v), name)
            if own is None: return k(st, a[2])
        return m.call(st, m.prelude(st, '__getattr_default'), list(a), {}, k)
    full('getattr')(getattr_)
    full('__getattr')(lambda m, st, a, kw, k: m.getattr(st, a[0], a[1], k))
    def hasattr_(m, st, a, kw, k):
        if isinstance(a[1], (Sym, Term, Unk)): raise Undecided('hasattr with computed name')
        return m.call(st, m.prelude(st, '__hasattr'), list(a), {}, k)
    full('hasattr')(hasattr_)
    def setattr_(m, st, a, kw, k):
        if isinstance(a[1], (Sym, Term, Unk)): raise Undecided('setattr with computed name')
        if not isinstance(a[1], str): return m.throw(st, 'TypeError', 'attribute name must be string')
        return m.setattr(st, a[0], a[1], a[2], lambda s: k(s, None))
    full('setattr')(setattr_)
    full('delattr')(lambda m, st, a, kw, k: m.delattr(st, a[0], a[1], lambda s: k(s, None)))
    def vars_(m, st, a, kw, k):
        if not a: raise Undecided('vars()')
        return m.getattr(st, a[0], '__dict__', k)
    full('vars')(vars_)
    def dir_(m, st, a, kw):
        names = []
        v = a[0]
        o = st.rd(v) if isinstance(v, Ref) else None
        if o is not None and o.kind == 'class': mro = o.mro
        elif o is not None and o.kind == 'mod': return m.mklist(st, sorted(o.d))
        else: mro = st.rd(m.typeof(st, v)).mro
        seen = set()
        if o is not None and o.d and o.kind != 'class': seen |= set(o.d)
        for c in mro: seen |= set(st.rd(c).d)
        return m.mklist(st, sorted(n for n in seen if not n.startswith('%')))
    simple('dir')(dir_)
    def globals_(m, st, a, kw): return m.dict_of(st, st.rd(st.frames[-1].globs).d)
    simple('globals')(globals_)
    # isinstance
    def isinst_one(m, st, v, c, k):
        o = st.rd(c) if isinstance(c, Ref) else None
        if o is None or o.kind != 'class':
            if m.is_typing(st, c): return k(st, True) if st.rd(c).d.get('name') == 'Any' else isinst_one(m, st, v, T['object'], k)
            if isinstance(c, Ref) and m.mro_find(st, st.rd(c).cls, '__instancecheck__') is not None:
                f = m.mro_find(st, st.rd(c).cls, '__instancecheck__')
                return m.call(st, m.bind_simple(st, f, c, st.rd(c).cls), [v], {}, lambda s, r: m.truth(s, r, k))
            return m.throw(st, 'TypeError', 'isinstance() arg 2 must be a type, a tuple of types, or a union')
        r = m.isinst_known(st, v, c)
        if isinstance(r, bool): return k(st, r)
        if isinstance(v, Unk): return m.fork_unk(st, k, 'isinstance')
        return m.fork_fact(st, ('isinst', v, c), k, f'isinstance({v}, {o.name})')
    def isinstance_(m, st, a, kw, k):
        v, t = a
        if isinstance(t, Ref) and st.rd(t).kind == 'tuple':
            ts = flat(m, st, t)
            def go(s, i):
                if i == len(ts): return k(s, False)
                return isinst_one(m, s, v, ts[i], lambda s2, b: k(s2, True) if b else go(s2, i + 1))
            return go(st, 0)
        return isinst_one(m, st, v, t, k)
    def flat(m, st, t):
        out = []
        for x in st.rd(t).items:
            if isinstance(x, Ref) and st.rd(x).kind == 'tuple': out += flat(m, st, x)
            else: out.append(x)
        return out
    full('isinstance')(isinstance_)
    ABC_OK = {
        'Iterable': ('__iter__',), 'Sized': ('__len__',), 'Container': ('__contains__',), 'Hashable': ('__hash__',), 'Callable': ('__call__',),
        'Iterator': ('__next__',), 'Collection': ('__len__', '__iter__', '__contains__'),
    }
    ABC_REG = {
        'Number': ('int', 'float', 'complex'), 'Complex': ('int', 'float', 'complex'), 'Real': ('int', 'float'), 'Rational': ('int',), 'Integral': ('int',),
        'Sequence': ('list', 'tuple', 'str', 'bytes', 'range'), 'MutableSequence': ('list',), 'Mapping': ('dict',), 'MutableMapping': ('dict',),
        'Set': ('set', 'frozenset'), 'MutableSet': ('set',), 'Generator': ('generator',), 'Coroutine': ('coroutine',), 'Awaitable': ('coroutine',),
        'KeysView': ('view',), 'ValuesView': ('view',), 'ItemsView': ('view',),
    }
    ITERABLE_BUILTIN = {'str', 'bytes', 'list', 'tuple', 'dict', 'set', 'frozenset', 'iterator', 'generator', 'view', 'range', 'OOBTree', 'file'}
    SIZED_BUILTIN = ITERABLE_BUILTIN - {'iterator', 'generator', 'file'}
    def cls_is(m, st, tc, c):
        """class tc is a (virtual) subclass of c"""
        o = st.rd(c)
        mro = st.rd(tc).mro
        if c in mro: return True
        if o.abc:
            if o.abc in ABC_REG:
                return any(T[n] in mro for n in ABC_REG[o.abc])
            if o.abc == 'Hashable':
                return not any(T[n] in mro for n in ('list', 'dict', 'set'))
            need = ABC_OK.get(o.abc)
            if need is None: raise Undecided(f'abc {o.abc}')
            names = {st.rd(x).name for x in mro if st.rd(x).native}
            if o.abc == 'Iterable' and names & ITERABLE_BUILTIN: return True
            if o.abc in ('Sized', 'Collection', 'Container') and names & SIZED_BUILTIN: return True
            if o.abc == 'Callable' and names & {'function', 'method', 'builtin_function_or_method', 'type'}: return True
            for n in need:
                a, own = m.mro_find_raw(st, tc, n)
                if own is None or own is T['object'] or a is None: return False
            return True
        return False
    m.cls_is = cls_is
    def isinst_known(st, v, c):
        if c is T['object']: return True
        tc = m.typeof(st, v)
        if tc is not None:
            return cls_is(m, st, tc, c)
        if isinstance(v, (Sym, Term)):
            if ('isinst', v, c) in st.facts: return st.facts[('isinst', v, c)]
            if st.facts.get(('is', v, None)): return cls_is(m, st, T['NoneType'], c)
            if c is T['NoneType'] and st.facts.get(('truth', v)): return False
            if c is T['NoneType'] and ('is', v, None) in st.facts: return st.facts[('is', v, None)]
            for fk, fv in st.facts.items():
                if fk[0] == 'isinst' and fk[1] is v:
                    if fv and cls_is(m, st, fk[2], c): return True
                    if not fv and c is not fk[2] and fk[2] in st.rd(c).mro: return False
                    if fv and st.rd(c).native and st.rd(fk[2]).native and not cls_is(m, st, c, fk[2]) and not st.rd(fk[2]).abc: return False
                if fk[0] == 'eq' and fv and fk[1] is v and isinstance(fk[2], CONST):
                    return cls_is(m, st, m.typeof(st, fk[2]), c)
        return None
    m.isinst_known = isinst_known
    def issubclass_(m, st, a, kw, k):
        t = a[1]
        if not (isinstance(a[0], Ref) and st.rd(a[0]).kind == 'class'): return m.throw(st, 'TypeError', 'issubclass() arg 1 must be a class')
        ts = flat(m, st, t) if isinstance(t, Ref) and st.rd(t).kind == 'tuple' else [t]
        return k(st, any(cls_is(m, st, a[0], x) for x in ts))
    full('issubclass')(issubclass_)
    def super_(m, st, a, kw, k):
        if a: return k(st, st.alloc(SuperO(T['super'], a[0], a[1])))
        f = st.frames[-1]
        cell = f.fast.get('__class__')
        if cell is None: return m.throw(st, 'RuntimeError', 'super(): __class__ cell not found')
        first = f.fast.get(f.code.co_varnames[0])
        if isinstance(first, Ref) and st.rd(first).kind == 'cell': first = st.rd(first).v
        return k(st, st.alloc(SuperO(T['super'], st.rd(cell).v, first)))
    full('super')(super_)
    def sorted_(m, st, a, kw, k):
        def go(s, l):
            items = s.rd(l).items
            rev = kw.get('reverse', False)
            if kw.get('key') is None and isinstance(rev, bool) and all(isinstance(x, CONST) for x in items):
                try: return k(s, m.mklist(s, sorted(items, reverse=rev)))
                except TypeError as e: return m.throw(s, 'TypeError', str(e))
            if kw.get('key') is None and isinstance(rev, bool) and len(items) <= 1 and not any(isinstance(x, Star) for x in items):
                return k(s, l)
            if any(isinstance(x, Star) for x in items):
                return k(s, m.mklist(s, list(items)))
            return m.call(s, m.prelude(s, '__sorted'), [l, kw.get('key'), rev], {}, k)
        return m.call(st, T['list'], [a[0]], {}, go)
    full('sorted')(sorted_)
    simple('__is_star_list')(lambda m, st, a, kw: any(isinstance(x, Star) for x in st.rd(a[0]).items))

    # ------------------------------------------------------------ intrinsics for the stub modules
    def event_(m, st, a, kw): m.event(st, *a)
    simple('__event__')(event_)
    def choice_(m, st, a, kw, k):
        """a nondeterministic environment answer (fault, host reply ...): both are explored"""
        label = a[0]
        pol = m.choices.get(label)
        if callable(pol): pol = pol(m, st)
        if pol is None: return k(st, a[1] if len(a) > 1 else False)
        if isinstance(pol, bool): return k(st, pol)
        lim = pol if isinstance(pol, int) else None
        n = st.flags.get(('choice', label), 0)
        cap = 1
        if n >= cap: return k(st, False)
        def yes(s):
            s.flags[('choice', label)] = s.flags.get(('choice', label), 0) + 1
            return k(s, True)
        return m.branch(st, [(f'{label}: yes', yes), (f'{label}: no', lambda s: k(s, False))])
    full('__choice__')(choice_)
    def fresh_(m, st, a, kw):
        st.fresh += 1
        return term('fresh', (a[0], st.fresh), a[1] if len(a) > 1 else None)
    simple('__fresh__')(fresh_)
    def term_(m, st, a, kw):
        args = []
        for x in a[2:]:
            if isinstance(x, Ref):
                o = st.rd(x)
                if o.kind in ('tuple', 'list') and not any(isinstance(y, (Star, Ref)) for y in o.items): args.extend(o.items)
                elif o.kind == 'inst' and '%term' in o.d: args.append(o.d['%term'])
                else: args.append(x)
            else: args.append(x)
        if any(isinstance(x, (Nat, Bound)) for x in args): return Unk(a[0])
        return term(a[0], args, a[1])
    simple('__term__')(term_)
    def sym_(m, st, a, kw): return sym(a[0], a[1] if len(a) > 1 else None, (('atom', a[2]) if isinstance(a[2], str) else ('atom',)) if len(a) > 2 and a[2] else ())
    simple('__sym__')(sym_)
    simple('__ghost_get__')(lambda m, st, a, kw: st.ghost.get(a[0], a[1] if len(a) > 1 else None))
    def gset_(m, st, a, kw): st.ghost[a[0]] = a[1]
    simple('__ghost_set__')(gset_)
    simple('__isconst__')(lambda m, st, a, kw: all(isinstance(x, CONST) for x in a))
    def undecided_(m, st, a, kw): raise Undecided(str(a[0]))
    simple('__undecided__')(undecided_)
    def fold_(m, st, a, kw):
        import re as _re, math as _math, urllib.parse as _up
        fn = {'ceil': _math.ceil, 'sqrt': _math.sqrt, 'floor': _math.floor, 'isqrt': _math.isqrt}[a[0]]
        try: return fn(*a[1:])
        except Exception as e: raise AbsExc(type(e).__name__, str(e))
    simple('__fold__')(fold_)
    def round_(m, st, a, kw, k):
        r = m.rounded(st, a[0], a[1])
        if r is not None: return k(st, r)
        return k(st, Unk('rounding') if '%nt' in st.ghost else term(a[0], (a[1],), 'int'))
    full('__round__')(round_)
    def parts_(m, st, a, kw):
        """the pieces of a text: constant texts, numbers written in full, (number, format)"""
        t = a[0]
        if isinstance(t, str): return m.mklist(st, [t])
        if not isinstance(t, Term): return m.mklist(st, [t])
        out = []
        for x in (t.args if t.op == 'fmt' else (t,)):
            if isinstance(x, Term) and x.op == 'str' and as_lin(x.args[0]) is not None: out.append(x.args[0])
            elif isinstance(x, Term) and x.op == 'format' and isinstance(x.args[1], str): out.append(m.mktuple(st, list(x.args)))
            elif isinstance(x, Term) and x.op == 'str.zfill' and isinstance(x.args[1], int) and isinstance(x.args[0], Term) and x.args[0].op == 'str':
                out.append(m.mktuple(st, [x.args[0].args[0], f'0{x.args[1]}']))
            elif isinstance(x, Term) and x.op == 'str.rstrip' and x.args[1:] == ('0',) and isinstance(x.args[0], Term) and x.args[0].op in ('format', 'fmt'):
                last = x.args[0] if x.args[0].op == 'format' else x.args[0].args[-1]
                if isinstance(last, Term) and last.op == 'format':
                    if x.args[0].op == 'fmt': out.extend(y.args[0] if isinstance(y, Term) and y.op == 'str' and as_lin(y.args[0]) is not None else y for y in x.args[0].args[:-1])
                    out.append(m.mktuple(st, [last.args[0], f'{last.args[1]} without zeros']))
                else: out.append(x)
            else: out.append(x)
        return m.mklist(st, out)
    simple('__parts__')(parts_)
    def star_list_(m, st, a, kw):
        return m.mklist(st, [m.mkstar(st, a[0], tuple(a[1:]))])
    simple('__star_list__')(star_list_)
    def typename_(m, st, a, kw): return m.tname(st, a[0])
    simple('__typename__')(typename_)
    def mkinst_(m, st, a, kw):
        return st.alloc(Inst(a[0]))
    simple('__mkinst__')(mkinst_)
    def instdict_(m, st, a, kw):
        o = st.rd(a[0])
        return m.mkdict(st, [(n, v) for n, v in (o.d or {}).items() if not n.startswith('%')])
    simple('__instdict__')(instdict_)
    def setraw_(m, st, a, kw):
        st.wr(a[0]).d[a[1]] = a[2]
    simple('__setraw__')(setraw_)
    def setabc_(m, st, a, kw): st.wr(a[0]).abc = a[1]; st.wr(a[0]).native = True
    simple('__setabc__')(setabc_)
    def setnative_(m, st, a, kw): T[a[1]] = a[0]
    simple('__settype__')(setnative_)
    def set_cls_(m, st, a, kw):
        r = m.clone_obj(st, a[0]); return r
    simple('__shallow__')(set_cls_)
    def kindof_(m, st, a, kw): return st.kind(a[0])
    simple('__kind__')(kindof_)
    def urlpart_(m, st, a, kw, k):
        """component of a URL: a constant is parsed, an opaque URL gets one opaque component"""
        import urllib.parse as _up
        which, url = a
        if isinstance(url, str):
            p = _up.urlparse(url)
            return k(st, getattr(p, which))
        for u, name, part in st.ghost.get('%urls', ()):
            if u is url and which == name: return k(st, part)
        if url is None: return k(st, b'')
        if isinstance(url, (int, float)) or isinstance(url, Ref): return m.throw(st, 'AttributeError', 'not a string')
        t = term('url_' + which, (url,), 'str')
        return k(st, t)
    full('__urlpart__')(urlpart_)
    def termarg_(m, st, a, kw):
        if isinstance(a[1], Term) and a[1].op == a[0]: return a[1].args[a[2]]
        return term('arg', a, 'str')
    simple('__termarg__')(termarg_)
    def url_(m, st, a, kw):
        """an unknown address of which some components are given"""
        u = sym(a[0], 'str', ('atom',))
        st.ghost = dict(st.ghost); st.ghost['%urls'] = st.ghost.get('%urls', ()) + tuple((u, n, v) for n, v in kw.items())
        return u
    simple('__url__')(url_)
    def lang_(m, st, a, kw):
        """an unknown string of a regular language"""
        import re as _re
        u = sym(a[0], 'str', ('atom',))
        relang.refine(st, u, relang.pattern(a[1], _re.S, 'fullmatch'))
        return u
    simple('__lang__')(lang_)
    def inlang_(m, st, a, kw):
        """what the path knows about the string implies that it is in the language"""
        import re as _re
        l = relang.pattern(a[1], _re.S, 'fullmatch')
        if isinstance(a[0], str): return relang.accepts(l, a[0])
        return relang.empty(relang.combine(relang.IDS[st.langs()[a[0]]], l, 'minus'))
    simple('__inlang__')(inlang_)
    def path_(m, st, a, kw):
        """posixpath on strings with unknown pieces; an unknown piece stands for one plain component"""
        import posixpath
        toks = []
        args = [strenc(x, toks) for x in a[1:]]
        if any(x is None for x in args): return Unk('path')
        if a[0] in ('abspath', 'realpath', 'normpath'):
            r = posixpath.normpath(args[0] if a[0] == 'normpath' else posixpath.join('/cwd', args[0]))
        elif a[0] == 'relpath':
            r = posixpath.relpath(posixpath.join('/cwd', args[0]), posixpath.join('/cwd', *args[1:2]))
        elif a[0] == 'commonpath': r = posixpath.commonpath(args)
        else: r = getattr(posixpath, a[0])(*args)
        return m.mktuple(st, [strdec(x, toks) for x in r]) if isinstance(r, tuple) else strdec(r, toks)
    simple('__path__')(path_)
    def dt_(m, st, a, kw, k):
        """constant folding of time values, as ISO text"""
        import datetime as D
        op, x = a[0], a[1]
        try:
            if op == 'strptime': return k(st, D.datetime.strptime(x, a[2]).isoformat())
            if op == 'make': return k(st, D.datetime(*a[1:]).isoformat())
            if op == 'iso': return k(st, D.datetime.fromisoformat(x).isoformat())
            d = D.datetime.fromisoformat(x)
            if op == 'aware': return k(st, d.utcoffset() is not None)
            if op == 'offset': return k(st, int(d.utcoffset() / D.timedelta(microseconds=1)))
            if op == 'utc': return k(st, d.astimezone(D.timezone.utc).isoformat())
            if op == 'stamp': return k(st, d.replace(tzinfo=D.timezone.utc).isoformat())
            if op == 'naive': return k(st, d.replace(tzinfo=None).isoformat())
            if op == 'whole': return k(st, d.replace(microsecond=0).isoformat())
            if op == 'field': return k(st, d.strftime('%:z' if a[2] == ':' else '%' + a[2]))
            if op == 'attr': return k(st, getattr(d, a[2]))
        except (ValueError, TypeError, OverflowError) as e:
            return m.throw(st, type(e).__name__, str(e))
        raise Undecided(f'time {op}')
    full('__dt__')(dt_)
    simple('__istermof__')(lambda m, st, a, kw: isinstance(a[1], Term) and a[1].op == a[0])
    def retest_(m, st, a, kw, k):
        import re as _re
        kind, pat, flags, s = a
        if isinstance(pat, str) and isinstance(s, str) and isinstance(flags, int):
            r = getattr(_re, kind)(pat, s, flags)
            if r is None: return k(st, None)
            return k(st, m.mktuple(st, (m.mktuple(st, r.span()), m.mktuple(st, (r.group(0),) + r.groups()))))
        if isinstance(s, (Sym, Term)) and isinstance(pat, str) and s in st.langs():
            return relang.test(m, st, kind, pat, flags, s, k)
        t = term('re_' + kind, (pat, flags, s), 'bool')
        return m.truth(st, t, k)
    full('__retest__')(retest_)
    def setname_(m, st, a, kw):
        w = st.wr(a[0])
        if w.kind == 'func':
            w.name = a[1]
        return None
    simple('__setname__')(setname_)

    from . import spec_rt
    spec_rt.install(m, st, full, simple, B)

    # ------------------------------------------------------------ BTree
    def tree_new(m, st, c, args, kw, k, raw=False):
        t = TreeO(c)
        n = st.ghost.get('%ntrees', 0); st.ghost['%ntrees'] = n + 1
        t.label = f't{n}'
        r = st.alloc(t)
        if args: return m.call(st, m.prelude(st, '__dict_update'), [r, args[0]], {}, lambda s, _: k(s, r))
        return k(st, r)
    st.wr(T['OOBTree']).nat_new = tree_new
    def targ(a, kw, i, *names):
        if len(a) > i: return a[i]
        for n in names:
            if n in kw: return kw[n]
        return None
    def t_get(m, st, a, kw, k):
        d = targ(a, kw, 2, 'default')
        return m.tree_lookup(st, a[0], targ(a, kw, 1, 'key'), lambda s, p, h: k(s, s.rd(a[0]).e[h][1] if p else d))
    meth('OOBTree', 'get', False)(t_get)
    def t_insert(m, st, a, kw, k):
        key, val = targ(a, kw, 1, 'key'), targ(a, kw, 2, 'value')
        def go(s, p, h):
            if p: return k(s, 0)
            w = s.wr(a[0]); w.e[h] = (key, val); w.absent.discard(h)
            w.size = from_lin(lin_add(as_lin(w.size), (1, {}))); w.ver += 1
            m.event(s, 'tree_write', a[0], h)
            return k(s, 1)
        return m.tree_lookup(st, a[0], key, go)
    meth('OOBTree', 'insert', False)(t_insert)
    def t_update(m, st, a, kw, k):
        return m.call(st, m.prelude(st, '__dict_update'), [a[0], a[1]], {}, lambda s, _: k(s, None))
    meth('OOBTree', 'update', False)(t_update)
    def t_pop(m, st, a, kw, k):
        def go(s, p, h):
            if p: return k(s, m.tree_remove(s, a[0], h))
            if len(a) > 2: return k(s, a[2])
            return m.throw(s, 'KeyError', a[1])
        return m.tree_lookup(st, a[0], targ(a, kw, 1, 'key'), go)
    meth('OOBTree', 'pop', False)(t_pop)
    def t_setdefault(m, st, a, kw, k):
        def go(s, p, h):
            if p: return k(s, s.rd(a[0]).e[h][1])
            w = s.wr(a[0]); w.e[h] = (a[1], a[2]); w.absent.discard(h)
            w.size = from_lin(lin_add(as_lin(w.size), (1, {}))); w.ver += 1
            m.event(s, 'tree_write', a[0], h)
            return k(s, a[2])
        return m.tree_lookup(st, a[0], a[1], go)
    meth('OOBTree', 'setdefault', False)(t_setdefault)
    def t_clear(m, st, a, kw):
        w = st.wr(a[0]); w.e = {}; w.absent = set(); w.others = False; w.size = 0; w.ver += 1
        m.event(st, 'tree_write', a[0], None)
    meth('OOBTree', 'clear')(t_clear)
    for how in ('keys', 'values', 'items'):
        def f(m, st, a, kw, how=how):
            lo, hi = targ(a, kw, 1, 'min'), targ(a, kw, 2, 'max')
            return st.alloc(ViewO(T['view'], a[0], how, lo, hi))
        meth('OOBTree', how)(f)
        def g(m, st, a, kw, k, how=how):
            lo, hi = targ(a, kw, 1, 'min'), targ(a, kw, 2, 'max')
            return m.iter_tree(st, a[0], how, lo, hi, k)
        meth('OOBTree', 'iter' + how, False)(g)
    meth('OOBTree', 'has_key', False)(lambda m, st, a, kw, k: m.tree_lookup(st, a[0], targ(a, kw, 1, 'key'), lambda s, p, h: k(s, p)))
    meth('OOBTree', '__setitem__', False)(lambda m, st, a, kw, k: m.tree_set(st, a[0], a[1], a[2], lambda s: k(s, None)))
    meth('OOBTree', '__delitem__', False)(lambda m, st, a, kw, k: m.delitem(st, a[0], a[1], lambda s: k(s, None)))
    def t_ext(m, st, a, kw, k, how):
        """min/max key: fork over the candidates"""
        t = a[0]
        bound = targ(a, kw, 1, 'min' if how == 'min' else 'max')
        o = st.rd(t)
        cands = [x[0] for x in o.e.values()]
        other = None
        if o.others:
            other, ov = m.tree_other(o)
        def order(s, small, big):
            s.facts[('truth', term('lt', (small, big), 'bool'))] = True
            s.facts[('truth', term('lt', (big, small), 'bool'))] = False
        def pick(s, c, rest):
            for x in rest:
                if isinstance(x, str) and isinstance(c, str): continue
                key = ('truth', term('lt', (c, x) if how == 'min' else (x, c), 'bool'))
                if s.facts.get(key) is False:
                    from .machine import Dead
                    raise Dead()
                order(s, *((c, x) if how == 'min' else (x, c)))
            return k(s, c)
        def choose(s, cands):
            if (all(isinstance(x, str) for x in cands) or all(isinstance(x, (int, float)) for x in cands)) and cands and not o.others:
                return k(s, (min if how == 'min' else max)(cands))
            alts = [(f'{c} is the {how}imum', (lambda c: lambda s2: pick(s2, c, [x for x in cands if x is not c]))(c)) for c in cands]
            if other is not None:
                nl = lin_add(as_lin(s.rd(t).size), (len(s.rd(t).e), {}), -1)
                def oth(s2):
                    return m.ge0(s2, lin_add(nl, (-1, {})), lambda s3, b: pick(s3, other, cands) if b else dead())
                alts.append((f'another key is the {how}imum', oth))
                if not cands:
                    return m.ge0(s, lin_add(nl, (-1, {})), lambda s3, b: k(s3, other) if b else m.throw(s3, 'ValueError', 'empty tree'))
            if not alts: return m.throw(s, 'ValueError', 'empty tree')
            if len(alts) == 1: return alts[0][1](s)
            return m.branch(s, alts)
        if bound is None: return choose(st, cands)
        # keys outside the bound are filtered out
        def filt(s, i, keep):
            if i == len(cands):
                if not keep and other is None: return m.throw(s, 'ValueError', 'no key satisfies the conditions')
                return choose(s, keep)
            return m.compare(s, '>=' if how == 'min' else '<=', cands[i], bound, lambda s2, r: m.truth(
                s2, r, lambda s3, b: filt(s3, i + 1, keep + [cands[i]] if b else keep)))
        return filt(st, 0, [])
    def dead():
        from .machine import Dead
        raise Dead()
    meth('OOBTree', 'minKey', False)(lambda m, st, a, kw, k: t_ext(m, st, a, kw, k, 'min'))
    meth('OOBTree', 'maxKey', False)(lambda m, st, a, kw, k: t_ext(m, st, a, kw, k, 'max'))
    def t_popitem(m, st, a, kw, k):
        o = st.rd(a[0])
        if not o.e and not o.others: return m.throw(st, 'KeyError', 'popitem(): empty BTree')
        def got(s, key):
            return m.tree_lookup(s, a[0], key, lambda s2, p, h: k(s2, m.mktuple(s2, (key, m.tree_remove(s2, a[0], h)))) if p else dead())
        return t_ext(m, st, [a[0]], {}, got, 'min')
    meth('OOBTree', 'popitem', False)(t_popitem)
    def t_byvalue(m, st, a, kw, k):
        mn = targ(a, kw, 1, 'min')
        if len(a) < 2: return m.throw(st, 'TypeError', 'byValue requires a minimum')
        o = st.rd(a[0])
        m.event(st, 'bounded_iter', a[0], 'byValue', mn, None)
        pairs = list(o.e.values())
        def go(s, i, acc):
            if i == len(pairs):
                if all(isinstance(x, CONST) for p in acc for x in p):
                    try: acc = sorted(acc, key=lambda p: (p[1], p[0]), reverse=True)
                    except TypeError: pass
                l = m.mklist(s, [m.mktuple(s, (v, kk)) for kk, v in acc])
                if s.rd(a[0]).others:
                    ok, ov = m.tree_other(s.rd(a[0]))
                    p = m.mktuple(s, (ov, ok))
                    s.wr(l).items.append(m.mkstar(s, f'byv({o.label})', (p,)))
                return k(s, l)
            kk, v = pairs[i]
            return m.compare(s, '>=', v, mn, lambda s2, r: m.truth(s2, r, lambda s3, b: go(s3, i + 1, acc + [(kk, v)] if b else acc)))
        return go(st, 0, [])
    meth('OOBTree', 'byValue', False)(t_byvalue)

    # ------------------------------------------------------------ prelude
    import os
    pm = st.alloc(ModO(T['module'], '__prelude__'))
    m.prelude_mod = pm
    m.prelude_public = set()
    st.wr(pm).d['__name__'] = '__prelude__'
    src = os.path.join(m.stub_dir, '__prelude__.pys')
    code = m.compile(src)
    fr = m.new_frame(st, code, pm, m.k_done); fr.ns = pm
    st.frames.append(fr)
    done = m.run(st)
    assert len(done) == 1 and done[0].result[0] == 'ret', (done and m.show_exc(done[0], done[0].result[1]), m.incomplete)
    assert done[0] is st
    st.result = None; st.frames = []
    m.prelude_public = {n for n in st.rd(pm).d if not n.startswith('__')}
    st.freeze()
