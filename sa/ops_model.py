"""Transfer functions for CPython 3.12 instructions."""
import dis, types
from .values import *
from . import machine as M
from .machine import op, AbsExc, Undecided, OPS

NB = [n for n, s in dis._nb_ops] if hasattr(dis, '_nb_ops') else []
NBS = [s for n, s in dis._nb_ops]
_DUNDER = {'+': ('__add__', '__radd__'), '-': ('__sub__', '__rsub__'), '*': ('__mul__', '__rmul__'),
           '/': ('__truediv__', '__rtruediv__'), '//': ('__floordiv__', '__rfloordiv__'), '%': ('__mod__', '__rmod__'),
           '**': ('__pow__', '__rpow__'), '&': ('__and__', '__rand__'), '|': ('__or__', '__ror__'), '^': ('__xor__', '__rxor__'),
           '<<': ('__lshift__', '__rlshift__'), '>>': ('__rshift__', '__rrshift__'), '@': ('__matmul__', '__rmatmul__')}
_CMP = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__', '==': '__eq__', '!=': '__ne__'}
_SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


# ------------------------------------------------------------------ stack
@op('NOP', 'RESUME', 'PRECALL', 'CACHE', 'SETUP_ANNOTATIONS')
def _nop(m, st, f, i): pass

@op('POP_TOP', 'END_FOR1')
def _pop(m, st, f, i): f.stack.pop()

@op('END_FOR')
def _endfor(m, st, f, i): del f.stack[-2:]

@op('COPY')
def _copy(m, st, f, i): f.stack.append(f.stack[-i.arg])

@op('SWAP')
def _swap(m, st, f, i): f.stack[-1], f.stack[-i.arg] = f.stack[-i.arg], f.stack[-1]

@op('PUSH_NULL')
def _pn(m, st, f, i): f.stack.append(NULL)

@op('LOAD_CONST')
def _lc(m, st, f, i):
    v = i.val
    f.stack.append(m.const(st, v) if type(v) in (tuple, frozenset) else v)

@op('LOAD_ASSERTION_ERROR')
def _lae(m, st, f, i): f.stack.append(m.types['AssertionError'])

@op('LOAD_BUILD_CLASS')
def _lbc(m, st, f, i): f.stack.append(m.nat['__build_class__'])

# ------------------------------------------------------------------ names
@op('LOAD_FAST', 'LOAD_FAST_CHECK')
def _lf(m, st, f, i):
    v = f.fast.get(i.val, NULL)
    if v is NULL:
        return m.throw(st, 'UnboundLocalError', f"cannot access local variable '{i.val}'")
    f.stack.append(v)

@op('LOAD_CLOSURE')
def _lcl(m, st, f, i): f.stack.append(f.fast[i.val])

@op('LOAD_FAST_AND_CLEAR')
def _lfc(m, st, f, i):
    f.stack.append(f.fast.pop(i.val, NULL))

@op('STORE_FAST', 'STORE_FAST_MAYBE_NULL')
def _sf(m, st, f, i):
    v = f.stack.pop()
    if v is NULL: f.fast.pop(i.val, None)
    else: f.fast[i.val] = v

@op('DELETE_FAST')
def _df(m, st, f, i):
    if i.val not in f.fast: return m.throw(st, 'UnboundLocalError', i.val)
    del f.fast[i.val]

@op('MAKE_CELL')
def _mc(m, st, f, i):
    f.fast[i.val] = st.alloc(CellO(f.fast.get(i.val, NULL)))

@op('COPY_FREE_VARS')
def _cfv(m, st, f, i): pass

@op('LOAD_DEREF')
def _ld(m, st, f, i):
    v = st.rd(f.fast[i.val]).v
    if v is NULL: return m.throw(st, 'NameError', f"cannot access free variable '{i.val}'")
    f.stack.append(v)

@op('STORE_DEREF')
def _sd(m, st, f, i): st.wr(f.fast[i.val]).v = f.stack.pop()

@op('DELETE_DEREF')
def _dd(m, st, f, i): st.wr(f.fast[i.val]).v = NULL

def glob(m, st, f, name):
    d = st.rd(f.globs).d
    if name in d: return d[name]
    b = m.builtins
    if name in b: return b[name]
    p = st.rd(m.prelude_mod).d
    if name in m.prelude_public and name in p: return p[name]
    return NULL

def no_name(m, st, name):
    import builtins
    if hasattr(builtins, name): raise Undecided(f'no model of {name}')
    if st.frames[-1].code.co_filename.startswith(m.stub_dir): raise Undecided(f'stub refers to {name}')
    return m.throw(st, 'NameError', f"name '{name}' is not defined")

@op('LOAD_GLOBAL')
def _lg(m, st, f, i):
    v = glob(m, st, f, i.val)
    if v is NULL: return no_name(m, st, i.val)
    if i.arg & 1: f.stack.append(NULL)
    f.stack.append(v)

@op('LOAD_NAME')
def _ln(m, st, f, i):
    if f.ns is not None:
        d = st.rd(f.ns).d
        if i.val in d:
            f.stack.append(d[i.val]); return
    v = glob(m, st, f, i.val)
    if v is NULL: return no_name(m, st, i.val)
    f.stack.append(v)

@op('STORE_NAME')
def _sn(m, st, f, i): st.wr(f.ns).d[i.val] = f.stack.pop()

@op('DELETE_NAME')
def _dn(m, st, f, i):
    d = st.wr(f.ns).d
    if i.val not in d: return m.throw(st, 'NameError', i.val)
    del d[i.val]

@op('STORE_GLOBAL')
def _sg(m, st, f, i): st.wr(f.globs).d[i.val] = f.stack.pop()

@op('DELETE_GLOBAL')
def _dg(m, st, f, i): st.wr(f.globs).d.pop(i.val, None)

@op('LOAD_LOCALS')
def _ll(m, st, f, i): f.stack.append(f.ns)

@op('LOAD_FROM_DICT_OR_DEREF')
def _lfdd(m, st, f, i):
    ns = f.stack.pop()
    d = st.rd(ns).d
    f.stack.append(d[i.val] if i.val in d else st.rd(f.fast[i.val]).v)

@op('LOAD_FROM_DICT_OR_GLOBALS')
def _lfdg(m, st, f, i):
    ns = f.stack.pop()
    d = st.rd(ns).d
    v = d[i.val] if i.val in d else glob(m, st, f, i.val)
    if v is NULL: return m.throw(st, 'NameError', i.val)
    f.stack.append(v)

# ------------------------------------------------------------------ attributes
@op('LOAD_ATTR')
def _la(m, st, f, i):
    v = f.stack.pop()
    if i.arg & 1:
        f.stack.append(NULL)
    return m.getattr(st, v, i.val, m.k_push)

@op('LOAD_METHOD')
def _lm(m, st, f, i):
    v = f.stack.pop(); f.stack.append(NULL)
    return m.getattr(st, v, i.val, m.k_push)

@op('LOAD_SUPER_ATTR')
def _lsa(m, st, f, i):
    obj = f.stack.pop(); cls = f.stack.pop(); f.stack.pop()
    name = f.code.co_names[i.arg >> 2]
    if i.arg & 1: f.stack.append(NULL)
    return m.super_getattr(st, cls, obj, name, m.k_push)

@op('STORE_ATTR')
def _sa(m, st, f, i):
    obj = f.stack.pop(); val = f.stack.pop()
    return m.setattr(st, obj, i.val, val, lambda s: None)

@op('DELETE_ATTR')
def _da(m, st, f, i):
    return m.delattr(st, f.stack.pop(), i.val, lambda s: None)

# ------------------------------------------------------------------ building
@op('BUILD_TUPLE')
def _bt(m, st, f, i):
    n = i.arg
    xs = f.stack[len(f.stack) - n:]; del f.stack[len(f.stack) - n:]
    f.stack.append(m.mktuple(st, xs))

@op('BUILD_LIST')
def _bl(m, st, f, i):
    n = i.arg
    xs = f.stack[len(f.stack) - n:]; del f.stack[len(f.stack) - n:]
    f.stack.append(m.mklist(st, xs))

@op('BUILD_SET')
def _bs(m, st, f, i):
    n = i.arg
    xs = f.stack[len(f.stack) - n:]; del f.stack[len(f.stack) - n:]
    r = m.mkset(st, ())
    f.stack.append(r)
    for x in xs:
        set_add(m, st, r, x)

@op('BUILD_MAP')
def _bm(m, st, f, i):
    n = i.arg
    xs = f.stack[len(f.stack) - 2 * n:]; del f.stack[len(f.stack) - 2 * n:]
    f.stack.append(m.mkdict(st, list(zip(xs[::2], xs[1::2]))))

@op('BUILD_CONST_KEY_MAP')
def _bckm(m, st, f, i):
    ks = st.rd(f.stack.pop()).items
    n = i.arg
    xs = f.stack[len(f.stack) - n:]; del f.stack[len(f.stack) - n:]
    f.stack.append(m.mkdict(st, list(zip(ks, xs))))

@op('BUILD_STRING')
def _bstr(m, st, f, i):
    n = i.arg
    xs = f.stack[len(f.stack) - n:]; del f.stack[len(f.stack) - n:]
    f.stack.append(concat_str(xs))

def concat_str(xs):
    out = []
    for x in xs:
        if isinstance(x, Term) and x.op == 'fmt': out.extend(x.args)
        else: out.append(x)
    res = []
    for x in out:
        if isinstance(x, str) and res and isinstance(res[-1], str): res[-1] += x
        elif x == '' and isinstance(x, str): continue
        else: res.append(x)
    if not res: return ''
    if len(res) == 1 and (isinstance(res[0], str) or (isinstance(res[0], (Sym, Term)) and res[0].typ == 'str')): return res[0]
    return term('fmt', res, 'str')

@op('BUILD_SLICE')
def _bsl(m, st, f, i):
    c = f.stack.pop() if i.arg == 3 else None
    b = f.stack.pop(); a = f.stack.pop()
    f.stack.append(st.alloc(SliceO(m.types['slice'], a, b, c)))

@op('FORMAT_VALUE')
def _fv(m, st, f, i):
    a = i.arg
    spec = f.stack.pop() if a & 4 else ''
    v = f.stack.pop()
    conv = a & 3
    return m.format_value(st, v, spec, conv, m.k_push)

@op('LIST_APPEND')
def _lap(m, st, f, i):
    v = f.stack.pop()
    list_append(m, st, f.stack[-i.arg], v)

def list_append(m, st, r, v):
    w = st.wr(r)
    stars = st.active_stars()
    if stars and (w.star is None or w.star not in stars):
        it = stars[-1]
        src = star_of(st, it)
        if src is not None:
            absorb(m, st, w, it, src, v)
            return
    w.items.append(v)

def star_of(st, it):
    o = st.rd(it)
    if o.how == 'list': items = st.rd(o.src).items
    else: items = o.src
    if items is None or o.pos >= len(items): return None
    x = items[o.pos]
    return x if isinstance(x, Star) else None

def absorb(m, st, w, it, src, v):
    """append inside a summarised loop: the appended elements form a summary too"""
    sid = f'app({src.id})'
    last = w.items[-1] if w.items else None
    if isinstance(last, Star) and last.id == sid:
        vs = last.variants if v in last.variants else last.variants + (v,)
        w.items[-1] = Star(sid, vs, last.n)
        return
    forks = st.rd(it).forks
    n = src.n if st.forks == forks else None
    nm = len(st.mat.get(src.id, ()))
    if n is not None and nm:
        # materialised members were appended one by one before
        n = from_lin(lin_add(as_lin(n), (nm, {}), -1))
    if n is None:
        st.imp = st.imp + ('filtered summary',) if len(st.imp) < 8 else st.imp
    w.items.append(m.mkstar(st, sid, (v,), n))

@op('SET_ADD')
def _seta(m, st, f, i):
    v = f.stack.pop()
    return set_add(m, st, f.stack[-i.arg], v)

def set_add(m, st, r, v):
    key = m.hkey(st, v)
    o = st.rd(r)
    if key in o.e: return
    w = st.wr(r)
    stars = st.active_stars()
    if stars and (w.star is None or w.star not in stars):
        src = star_of(st, stars[-1])
        if src is not None:
            sid = f'app({src.id})'
            for j, s in enumerate(w.stars):
                if s.id == sid:
                    if v not in s.variants: w.stars[j] = Star(sid, s.variants + (v,), s.n)
                    return
            st.imp = st.imp + ('summary set',) if len(st.imp) < 8 else st.imp
            w.stars.append(m.mkstar(st, sid, (v,)))
            return
    w.e[key] = v; w.ver += 1

@op('MAP_ADD')
def _mapa(m, st, f, i):
    v = f.stack.pop(); k = f.stack.pop()
    return m.dict_set(st, f.stack[-i.arg], k, v, lambda s: None)

@op('LIST_EXTEND')
def _le(m, st, f, i):
    v = f.stack.pop()
    lst = f.stack[-i.arg]
    return m.list_extend(st, lst, v, lambda s: None)

@op('SET_UPDATE')
def _su(m, st, f, i):
    v = f.stack.pop()
    return m.set_update(st, f.stack[-i.arg], v, lambda s: None)

@op('DICT_UPDATE')
def _du(m, st, f, i):
    v = f.stack.pop()
    return m.dict_update(st, f.stack[-i.arg], v, lambda s: None)

@op('DICT_MERGE')
def _dm(m, st, f, i):
    v = f.stack.pop()
    d = f.stack[-i.arg]
    o = st.rd(v) if isinstance(v, Ref) else None
    if o is not None and o.kind == 'dict':
        dup = [x for x in o.e if x in st.rd(d).e]
        if dup: return m.throw(st, 'TypeError', f'got multiple values for keyword argument {dup[0]!r}')
    elif o is None and not isinstance(v, (Unk, Sym, Term)):
        return m.throw(st, 'TypeError', 'argument after ** must be a mapping')
    return m.dict_update(st, d, v, lambda s: None)

@op('UNPACK_SEQUENCE')
def _us(m, st, f, i):
    v = f.stack.pop()
    n = i.arg
    return unpack(m, st, v, n)

def unpack(m, st, v, n):
    if isinstance(v, Ref) and st.rd(v).kind in ('list', 'tuple'):
        items = st.rd(v).items
        if not any(isinstance(x, Star) for x in items):
            if len(items) != n:
                return m.throw(st, 'ValueError', f'expected {n} values to unpack, got {len(items)}')
            st.frames[-1].stack.extend(reversed(items)); return None
        raise Undecided('unpack of summarised sequence')
    if isinstance(v, str) and len(v) == n:
        st.frames[-1].stack.extend(reversed(v)); return None
    if isinstance(v, (Sym, Term, Unk)):
        if isinstance(v, Unk): st.imp = st.imp + ('unpack of unknown',)
        st.frames[-1].stack.extend(reversed([term('item', (v, j)) for j in range(n)])); return None
    return m.call(st, m.types['list'], [v], {}, lambda s, r: unpack(m, s, r, n))

@op('UNPACK_EX')
def _ue(m, st, f, i):
    v = f.stack.pop()
    before, after = i.arg & 255, i.arg >> 8
    def go(s, r):
        items = s.rd(r).items
        if any(isinstance(x, Star) for x in items): raise Undecided('unpack of summarised sequence')
        if len(items) < before + after: return m.throw(s, 'ValueError', 'not enough values to unpack')
        mid = m.mklist(s, items[before:len(items) - after])
        seq = items[:before] + [mid] + items[len(items) - after:] if after else items[:before] + [mid]
        s.frames[-1].stack.extend(reversed(seq))
    return m.call(st, m.types['list'], [v], {}, go)

# ------------------------------------------------------------------ operators
@op('UNARY_NOT')
def _un(m, st, f, i):
    v = f.stack.pop()
    if isinstance(v, Term) and v.typ == 'bool' and not v.unk:
        f.stack.append(v.args[0] if v.op == 'not' else term('not', (v,), 'bool')); return
    return m.truth(st, v, lambda s, b: s.push(not b))

@op('UNARY_NEGATIVE')
def _uneg(m, st, f, i):
    v = f.stack.pop()
    if isinstance(v, (int, float)): f.stack.append(-v); return
    l = as_lin(v)
    if l is not None: f.stack.append(from_lin(lin_add((0, {}), l, -1))); return
    if isinstance(v, Term) and v.op == 'td_const' and as_lin(v.args[0]) is not None:
        f.stack.append(term('td_const', (from_lin(lin_add((0, {}), as_lin(v.args[0]), -1)),), 'timedelta')); return
    if isinstance(v, Ref):
        g = m.mro_find(st, st.rd(v).cls, '__neg__')
        if g is not None: return m.call(st, m.bind_simple(st, g, v, st.rd(v).cls), [], {}, m.k_push)
        return m.throw(st, 'TypeError', 'bad operand type for unary -')
    f.stack.append(term('neg', (v,), getattr(v, 'typ', None)))

@op('UNARY_INVERT')
def _uinv(m, st, f, i):
    v = f.stack.pop()
    f.stack.append(~v if isinstance(v, int) else term('inv', (v,)))

@op('BINARY_OP')
def _bo(m, st, f, i):
    b = f.stack.pop(); a = f.stack.pop()
    return m.binary(st, NBS[i.arg], a, b, m.k_push)

@op('COMPARE_OP')
def _co(m, st, f, i):
    b = f.stack.pop(); a = f.stack.pop()
    return m.compare(st, dis.cmp_op[i.arg >> 4], a, b, m.k_push)

@op('IS_OP')
def _is(m, st, f, i):
    b = f.stack.pop(); a = f.stack.pop()
    r = m.is_(st, a, b)
    if i.arg: r = (not r) if isinstance(r, bool) else term('not', (r,), 'bool')
    f.stack.append(r)

@op('CONTAINS_OP')
def _cont(m, st, f, i):
    c = f.stack.pop(); x = f.stack.pop()
    inv = i.arg
    return m.contains(st, c, x, lambda s, r: s.push(((not r) if isinstance(r, bool) else term('not', (r,), 'bool')) if inv else r))

@op('BINARY_SUBSCR')
def _bsub(m, st, f, i):
    k = f.stack.pop(); v = f.stack.pop()
    return m.getitem(st, v, k, m.k_push)

@op('STORE_SUBSCR')
def _ss(m, st, f, i):
    k = f.stack.pop(); v = f.stack.pop(); val = f.stack.pop()
    return m.setitem(st, v, k, val, lambda s: None)

@op('DELETE_SUBSCR')
def _ds(m, st, f, i):
    k = f.stack.pop(); v = f.stack.pop()
    return m.delitem(st, v, k, lambda s: None)

@op('BINARY_SLICE')
def _bslice(m, st, f, i):
    b = f.stack.pop(); a = f.stack.pop(); v = f.stack.pop()
    sl = st.alloc(SliceO(m.types['slice'], a, b, None))
    return m.getitem(st, v, sl, m.k_push)

@op('STORE_SLICE')
def _sslice(m, st, f, i):
    b = f.stack.pop(); a = f.stack.pop(); v = f.stack.pop(); val = f.stack.pop()
    sl = st.alloc(SliceO(m.types['slice'], a, b, None))
    return m.setitem(st, v, sl, val, lambda s: None)

@op('GET_LEN')
def _gl(m, st, f, i): return m.length(st, f.stack[-1], m.k_push)

# ------------------------------------------------------------------ jumps
def _jump(s, t): s.frames[-1].ip = t

@op('JUMP_FORWARD', 'JUMP_BACKWARD_NO_INTERRUPT')
def _jf(m, st, f, i): f.ip = i.tgt

@op('JUMP_BACKWARD')
def _jb(m, st, f, i):
    f.ip = i.tgt
    if f.dec.ins[i.tgt].op == 'FOR_ITER':
        return
    # while loop: fixpoint test once the loop has forked since its last visit
    lv = st.flags.get(('wf', len(st.frames), f.code, i.tgt))
    if lv is not None and lv != st.forks:
        if not m.loop_check(st, 'while'): raise M.Dead()
    st.flags[('wf', len(st.frames), f.code, i.tgt)] = st.forks

def _pj(cond):
    def h(m, st, f, i):
        v = f.stack.pop()
        if v is True or v is False:
            if v is cond: f.ip = i.tgt
            return
        t = i.tgt
        def k(s, b):
            if b is cond: s.frames[-1].ip = t
        return m.truth(st, v, k)
    return h
OPS['POP_JUMP_IF_TRUE'] = _pj(True)
OPS['POP_JUMP_IF_FALSE'] = _pj(False)

def _pjn(cond):
    def h(m, st, f, i):
        v = f.stack.pop()
        r = m.is_(st, v, None)
        t = i.tgt
        if isinstance(r, bool):
            if r is cond: f.ip = t
            return
        def k(s, b):
            if b is cond: s.frames[-1].ip = t
        return m.truth(st, r, k)
    return h
OPS['POP_JUMP_IF_NONE'] = _pjn(True)
OPS['POP_JUMP_IF_NOT_NONE'] = _pjn(False)

# ------------------------------------------------------------------ iteration
@op('GET_ITER', 'GET_YIELD_FROM_ITER')
def _gi(m, st, f, i):
    v = f.stack.pop()
    if i.op == 'GET_YIELD_FROM_ITER' and isinstance(v, Ref) and st.rd(v).kind == 'gen':
        f.stack.append(v); return
    return m.iter_(st, v, m.k_push)

@op('FOR_ITER')
def _fi(m, st, f, i):
    it = f.stack[-1]
    t = i.tgt
    def stop(s):
        fr = s.frames[-1]
        fr.stack.pop()
        fr.ip = t + 1
    return m.iter_next(st, it, m.k_push, stop)

@op('RETURN_GENERATOR')
def _rg(m, st, f, i):
    st.frames.pop()
    k = f.kont
    f.kont = None
    g = GenO(m.types['coroutine' if f.code.co_flags & 0x80 else 'generator'], f)
    g.coro = bool(f.code.co_flags & 0x80)
    r = st.alloc(g)
    f.gen = r
    return k(st, r)

@op('YIELD_VALUE')
def _yv(m, st, f, i):
    v = f.stack.pop()
    st.frames.pop()
    kont = f.kont
    f.kont = None
    g = st.wr(f.gen)
    g.frame = f; g.state = 'susp'
    return kont[1](st, v)

@op('RETURN_VALUE')
def _rv(m, st, f, i): return m.ret(st, f.stack.pop())

@op('RETURN_CONST')
def _rc(m, st, f, i):
    v = i.val
    return m.ret(st, m.const(st, v) if type(v) in (tuple, frozenset) else v)

@op('SEND')
def _send(m, st, f, i):
    v = f.stack.pop()
    rcv = f.stack[-1]
    t = i.tgt
    def yielded(s, x): s.frames[-1].stack.append(x)
    def done(s, x):
        fr = s.frames[-1]
        fr.stack.append(x); fr.ip = t
    if isinstance(rcv, Ref) and st.rd(rcv).kind == 'gen':
        return m.gen_resume(st, rcv, v, yielded, done, is_send=True)
    return m.iter_next(st, rcv, yielded, lambda s: done(s, None))

@op('END_SEND')
def _es(m, st, f, i):
    v = f.stack.pop(); f.stack.pop(); f.stack.append(v)

@op('CLEANUP_THROW')
def _ct(m, st, f, i):
    exc = f.stack.pop(); f.stack.pop(); f.stack.pop()
    if m.exc_is(st, exc, 'StopIteration'):
        f.stack.append(None)
        a = st.rd(st.rd(exc).d['%args']).items
        f.stack.append(a[0] if a else None)
        return
    return m.raise_(st, exc)

@op('GET_AWAITABLE')
def _ga(m, st, f, i):
    v = f.stack.pop()
    if isinstance(v, Ref):
        o = st.rd(v)
        if o.kind == 'gen' and o.coro: f.stack.append(v); return
        g = m.mro_find(st, o.cls, '__await__') if o.cls is not None else None
        if g is not None:
            return m.call(st, m.bind_simple(st, g, v, o.cls), [], {}, m.k_push)
        return m.throw(st, 'TypeError', f"object {st.rd(o.cls).name if o.cls else o.kind} can't be used in 'await' expression")
    if isinstance(v, (Sym, Term, Unk)): raise Undecided('await of unknown')
    return m.throw(st, 'TypeError', "object can't be used in 'await' expression")

# ------------------------------------------------------------------ calls
@op('KW_NAMES')
def _kwn(m, st, f, i): f.cur = i.val if isinstance(i.val, tuple) else f.code.co_consts[i.arg]

@op('CALL')
def _call(m, st, f, i):
    n = i.arg
    kwn = f.cur; f.cur = None
    stk = f.stack
    args = stk[len(stk) - n:]; del stk[len(stk) - n:]
    b = stk.pop(); a = stk.pop()
    if a is NULL: fn = b
    else: fn = a; args = [b] + args
    kw = {}
    if kwn:
        kw = dict(zip(kwn, args[len(args) - len(kwn):])); args = args[:len(args) - len(kwn)]
    m.sites.add((f.code, f.ip - 1))
    return m.call(st, fn, args, kw, m.k_push)

@op('CALL_FUNCTION_EX')
def _cfe(m, st, f, i):
    kw = f.stack.pop() if i.arg & 1 else None
    args = f.stack.pop(); fn = f.stack.pop()
    if f.stack and f.stack[-1] is NULL: f.stack.pop()
    kws = {}
    if kw is not None:
        if isinstance(kw, Ref) and st.rd(kw).kind == 'dict':
            o = st.rd(kw)
            if o.stars: raise Undecided('** of summarised dict')
            for k, (kk, v) in o.e.items():
                if not isinstance(kk, str): return m.throw(st, 'TypeError', 'keywords must be strings')
                kws[kk] = v
        elif isinstance(kw, (Unk, Sym, Term)): raise Undecided('** of unknown mapping')
        else:
            def after(s, d):
                s.frames[-1].stack.extend([NULL, fn, args, d])
                return _cfe_go(m, s)
            return m.call(st, m.types['dict'], [kw], {}, after)
    def go(s, t):
        return m.call(s, fn, list(s.rd(t).items), kws, m.k_push)
    if isinstance(args, Ref) and st.rd(args).kind in ('tuple', 'list'): return go(st, args)
    return m.call(st, m.types['tuple'], [args], {}, go)

def _cfe_go(m, st):
    f = st.frames[-1]
    class I: arg = 1
    return _cfe(m, st, f, I)

@op('MAKE_FUNCTION')
def _mf(m, st, f, i):
    code = f.stack.pop()
    fo = FuncO(m.types['function'], code, f.globs)
    a = i.arg or 0
    if a & 8: fo.closure = tuple(st.rd(f.stack.pop()).items)
    if a & 4: fo.d['%ann'] = f.stack.pop()
    if a & 2: fo.kwdefaults = {k: v for k, v in st.rd(f.stack.pop()).e.values()}
    if a & 1: fo.defaults = tuple(st.rd(f.stack.pop()).items)
    f.stack.append(st.alloc(fo))

@op('CALL_INTRINSIC_1')
def _ci1(m, st, f, i):
    v = f.stack.pop()
    if i.arg == 2:      # import *
        d = st.rd(v).d
        names = st.rd(d['__all__']).items if isinstance(d.get('__all__'), Ref) else [n for n in d if not n.startswith('_')]
        w = st.wr(f.ns if f.ns is not None else f.globs).d
        for n in names: w[n] = d[n]
        f.stack.append(None); return
    if i.arg == 6: f.stack.append(m.mktuple(st, list(st.rd(v).items))); return
    if i.arg == 5: f.stack.append(v); return
    if i.arg == 3:
        # StopIteration escaping a generator body
        if m.exc_is(st, v, 'StopIteration', 'StopAsyncIteration'):
            f.stack.append(m.mkexc(st, 'RuntimeError', 'generator raised StopIteration'))
        else: f.stack.append(v)
        return
    raise Undecided(f'intrinsic {i.arg}')

# ------------------------------------------------------------------ imports
@op('IMPORT_NAME')
def _imp(m, st, f, i):
    fl = f.stack.pop(); level = f.stack.pop()
    name = i.val
    if level:
        pkg = st.rd(f.globs).d.get('__package__') or ''
        for _ in range(level - 1): pkg = pkg.rpartition('.')[0]
        name = f'{pkg}.{name}' if name else pkg
    def got(s, mod):
        if fl is None:
            s.push(s.mods[name.split('.')[0]]); return
        # from-imports of submodules
        todo = [x for x in s.rd(fl).items if isinstance(x, str) and x != '*' and x not in s.rd(mod).d]
        def load(s2, names):
            while names:
                n0 = names[0]; names = names[1:]
                src, pkg = m.find_source(f'{name}.{n0}')
                if src is not None:
                    rest = names
                    return m.import_module(s2, f'{name}.{n0}', lambda s3, _: load(s3, rest))
            s2.push(mod)
        return load(s, tuple(todo))
    return m.import_module(st, name, got)

@op('IMPORT_FROM')
def _impf(m, st, f, i):
    mod = f.stack[-1]
    o = st.rd(mod)
    if i.val in o.d: f.stack.append(o.d[i.val]); return
    sub = f'{o.name}.{i.val}'
    if sub in st.mods: f.stack.append(st.mods[sub]); return
    if m.stub_lacks(o, i.val): f.stack.append(Unk(f'{o.name}.{i.val}')); return
    return m.throw(st, 'ImportError', f"cannot import name '{i.val}' from '{o.name}'")

# ------------------------------------------------------------------ exceptions
@op('PUSH_EXC_INFO')
def _pei(m, st, f, i):
    e = f.stack.pop()
    f.stack.append(st.flags.get('exc'))
    f.stack.append(e)
    st.flags['exc'] = e

@op('POP_EXCEPT')
def _pe(m, st, f, i):
    st.flags['exc'] = f.stack.pop()

@op('CHECK_EXC_MATCH')
def _cem(m, st, f, i):
    t = f.stack.pop(); e = f.stack[-1]
    cls = st.rd(e).cls
    def match(t):
        if isinstance(t, Ref):
            o = st.rd(t)
            if o.kind == 'tuple': return any(match(x) for x in o.items)
            return t in st.rd(cls).mro
        raise Undecided('except clause type')
    f.stack.append(match(t))

@op('RERAISE')
def _rr(m, st, f, i):
    return m.raise_(st, f.stack.pop())

@op('RAISE_VARARGS')
def _raise(m, st, f, i):
    if i.arg == 0:
        e = st.flags.get('exc')
        if e is None: return m.throw(st, 'RuntimeError', 'No active exception to reraise')
        return m.raise_(st, e)
    cause = f.stack.pop() if i.arg == 2 else None
    e = f.stack.pop()
    if isinstance(e, Ref):
        o = st.rd(e)
        if o.kind == 'class' and m.types['BaseException'] in o.mro:
            def inst(s, r):
                if i.arg == 2 and isinstance(r, Ref): s.wr(r).d['__cause__'] = cause
                return m.raise_(s, r)
            return m.call(st, e, [], {}, inst)
        if i.arg == 2: st.wr(e).d['__cause__'] = cause
        if o.kind == 'inst' and m.isa(st, e, 'BaseException'):
            return m.raise_(st, e)
    if isinstance(e, Unk): raise Undecided('raise unknown')
    return m.throw(st, 'TypeError', 'exceptions must derive from BaseException')

@op('BEFORE_WITH')
def _bw(m, st, f, i):
    mgr = f.stack.pop()
    cls = m.typeof(st, mgr)
    ex = m.mro_find(st, cls, '__exit__') if cls is not None else None
    en = m.mro_find(st, cls, '__enter__') if cls is not None else None
    if en is None or ex is None:
        return m.throw(st, 'TypeError', f"'{st.rd(cls).name if cls else '?'}' object does not support the context manager protocol")
    f.stack.append(m.bind_simple(st, ex, mgr, cls))
    return m.call(st, m.bind_simple(st, en, mgr, cls), [], {}, m.k_push)

@op('BEFORE_ASYNC_WITH')
def _baw(m, st, f, i):
    mgr = f.stack.pop()
    cls = m.typeof(st, mgr)
    ex = m.mro_find(st, cls, '__aexit__') if cls is not None else None
    en = m.mro_find(st, cls, '__aenter__') if cls is not None else None
    if en is None or ex is None:
        return m.throw(st, 'TypeError', "object does not support the asynchronous context manager protocol")
    f.stack.append(m.bind_simple(st, ex, mgr, cls))
    return m.call(st, m.bind_simple(st, en, mgr, cls), [], {}, m.k_push)

@op('WITH_EXCEPT_START')
def _wes(m, st, f, i):
    exc = f.stack[-1]; ex = f.stack[-4]
    return m.call(st, ex, [st.rd(exc).cls, exc, None], {}, m.k_push)

# ------------------------------------------------------------------ match statement
@op('MATCH_SEQUENCE')
def _msq(m, st, f, i):
    v = f.stack[-1]
    f.stack.append(isinstance(v, Ref) and st.rd(v).kind in ('list', 'tuple'))

@op('MATCH_MAPPING')
def _mmp(m, st, f, i):
    v = f.stack[-1]
    f.stack.append(isinstance(v, Ref) and st.rd(v).kind == 'dict')
