"""Run-time side of the specification language: check / assume / fill / ... intrinsics."""
from .values import *


class Finding:
    def __init__(self, spec, label, msg, where, trace, stack, imp):
        self.spec, self.label, self.msg, self.where, self.trace, self.stack, self.imp = spec, label, msg, where, trace, stack, imp


class Record:
    """What one specification established."""
    def __init__(self):
        self.ok = {}; self.viol = []; self.und = []


def install(m, st, full, simple, B):
    from .machine import Dead, Undecided
    m.rec = Record()
    m.spec_name = ''

    def caller(st):
        for f in reversed(st.frames):
            fn = f.code.co_filename
            if fn.startswith(m.repo): return m.where(st)
        return ''

    def report(m, st, label, msg):
        f = Finding(m.spec_name, label, msg, m.where(st), st.trace, m.stackinfo(st), st.imp)
        (m.rec.und if st.imp else m.rec.viol).append(f)

    m.report = lambda st, label, msg: report(m, st, label, msg)

    def check_(m, st, a, kw, k):
        cond, label = a[0], a[1]
        extra = a[2:]
        def done(s, b):
            if b:
                m.rec.ok[label] = m.rec.ok.get(label, 0) + 1
                return k(s, None)
            report(m, s, label, ' '.join(m.show(s, x) for x in extra))
            raise Dead()
        return m.truth(st, cond, done)
    full('__check__')(check_)

    def assume_(m, st, a, kw, k):
        def done(s, b):
            if not b: raise Dead()
            return k(s, None)
        return m.truth(st, a[0], done)
    full('__assume__')(assume_)

    def reach(m, st, root):
        """refs reachable from root through data (not code)"""
        seen = []; todo = [root]; mark = set()
        while todo:
            v = todo.pop(0)
            if type(v) is tuple: todo.extend(v); continue
            if type(v) is Star: todo.extend(v.variants); continue
            if type(v) is Bound: todo.append(v.self); continue
            if not isinstance(v, Ref) or v in mark: continue
            mark.add(v); o = st.rd(v)
            seen.append(v)
            kd = o.kind
            if kd in ('class', 'func', 'mod'): continue
            if o.d: todo.extend(o.d.values())
            if kd in ('list', 'tuple'): todo.extend(o.items)
            elif kd == 'dict': todo.extend(x for p in o.e.values() for x in p); todo.extend(o.stars)
            elif kd == 'set': todo.extend(o.e.values())
            elif kd == 'tree': todo.extend(x[1] for x in o.e.values())
            elif kd == 'view': todo.append(o.src)
            elif kd == 'cell': todo.append(o.v)
        return seen
    m.reach = lambda st, r: reach(m, st, r)

    def fill_(m, st, a, kw):
        """every B-tree reachable from the object holds any number of further entries (other than `keys`)"""
        n = 0
        for r in reach(m, st, a[0]):
            o = st.rd(r)
            if o.kind != 'tree': continue
            w = st.wr(r)
            w.others = True
            s = sym(f'n({w.label})', 'int')
            w.size = s
            st.iv[s] = (len(w.e), None)
            for key in a[1:]:
                h = m.hkey(st, key)
                if h not in w.e: w.absent.add(h)
            n += 1
        if n == 0: raise Undecided('no storage tree found')
        return n
    simple('__fill__')(fill_)

    def trees_(m, st, a, kw):
        return m.mklist(st, [r for r in reach(m, st, a[0]) if st.rd(r).kind == 'tree'])
    simple('__trees__')(trees_)

    def int_(m, st, a, kw):
        s = sym(a[0], 'int')
        lo = a[1] if len(a) > 1 else None
        hi = a[2] if len(a) > 2 else None
        st.iv[s] = (lo, hi)
        return s
    simple('__int__')(int_)

    def instances_(m, st, a, kw):
        """all instances of class reachable from the object"""
        return m.mklist(st, [r for r in reach(m, st, a[0]) if st.rd(r).kind == 'inst' and st.rd(r).cls is not None and a[1] in st.rd(st.rd(r).cls).mro])
    simple('__instances__')(instances_)

    def events_(m, st, a, kw):
        """events so far with one of the given names, as a list of tuples"""
        return m.mklist(st, [m.mktuple(st, e) for e in st.events if e[0] in a])
    simple('__events__')(events_)

    def allow_(m, st, a, kw):
        """explore the environment choice `label`"""
        m.choices[a[0]] = a[1] if len(a) > 1 else 1
    simple('__allow__')(allow_)

    def runsource_(m, st, a, kw, k):
        return m.run_source(st, a[0], a[1], a[2], k)
    full('__run_source__')(runsource_)
    simple('__modnames__')(lambda m, st, a, kw: m.mklist(st, [n for n in st.rd(a[0]).d]))
    def modattr_(m, st, a, kw):
        return m.mod_attr(st, *a)
    simple('__modattr__')(modattr_)

    def allinst_(m, st, a, kw):
        """every live instance of the class anywhere in the (non-frozen) heap"""
        return m.mklist(st, [r for r, o in sorted(st.over.items(), key=lambda x: x[0].a) if o.kind == 'inst' and o.cls is not None and a[0] in st.rd(o.cls).mro])
    simple('__allinst__')(allinst_)

    def snapshot_(m, st, a, kw):
        """structural fingerprint (interned) of everything reachable from the object"""
        return m.fingerprint(st, a[0])
    simple('__fingerprint__')(snapshot_)

    def save_(m, st, a, kw):
        """remember everything reachable from the object (what a commit makes durable)"""
        refs = [r for r in m.reach(st, a[0]) if st.rd(r).kind not in ('iter', 'gen', 'view')]
        def freeze(x):
            if isinstance(x, dict): return tuple((k, freeze(v)) for k, v in x.items())
            if isinstance(x, (list, tuple)): return tuple(freeze(v) for v in x)
            if isinstance(x, set): return frozenset(x)
            return (type(x).__name__, x) if isinstance(x, (bool, int, float)) else x
        key = tuple((r, tuple(freeze(getattr(st.rd(r), n)) for n in st.rd(r)._slots() if n not in ('owner', 'star', 'site', 'ver'))) for r in refs)
        n = m.saved_ix.get(key)
        if n is None:
            n = m.saved_ix[key] = len(m.saved)
            m.saved.append([(r, st.rd(r).copy()) for r in refs])
        return n
    simple('__save__')(save_)

    def restore_(m, st, a, kw):
        """put back what was remembered (what an abort does)"""
        for r, o in m.saved[a[0]]:
            c = o.copy()
            w = st.wr(r)
            c.owner = w.owner
            st.over[r] = c
    simple('__restore__')(restore_)
    m.saved = []; m.saved_ix = {}

    def learn_(m, st, a, kw):
        """(fn, trees): fn(key) stores the key and returns the position of the tree it went to.  What the code
        decided about a key that went to tree i is an invariant of the entries of tree i."""
        fn, trees = a[0], st.rd(a[1]).items
        inv = dict(st.ghost.get('%geninv', {}))
        for i, t in enumerate(trees):
            key = m.tree_other(st.rd(t))[0]
            sub = m.call_outcomes(st.fork(), fn, [key])
            common = None
            for o in sub:
                if o.kind != 'ret' or o.val != i or type(o.val) is not int: continue
                got = set()
                def ment(x):
                    if x is key: return True
                    if isinstance(x, Term): return any(ment(y) for y in x.args)
                    if isinstance(x, Lin): return any(ment(n) for n, _ in x.k)
                    return False
                for q, b in o.st.facts.items():
                    if q not in st.facts and any(ment(y) for y in (q[1:] if isinstance(q, tuple) else (q,))): got.add(('f', q, b))
                for q, b in o.st.iv.items():
                    if st.iv.get(q) != b and (isinstance(q, (Sym, Term)) and ment(q) or isinstance(q, frozenset) and any(ment(n) for n, _ in q)): got.add(('i', q, b))
                common = got if common is None else common & got
            if common: inv[key] = frozenset(common)
        st.ghost = dict(st.ghost); st.ghost['%geninv'] = inv
        for key in inv: m.apply_inv(st, key)
    simple('__learn__')(learn_)
