"""Regular languages for opaque strings: what a path knows about the characters of an unknown string.

A language is a DFA over an alphabet of representatives: every ASCII character plus one representative of each
sort of other character that a pattern can tell apart.  Patterns of the code under analysis are translated with
the parser of the re module; a pattern that cannot be translated exactly is reported as such."""
import re, functools

OTHER = 'é٣Ⅷſ\u212a\u2028\xa0。😀ß\u0130\u200b'
ALPHA = [chr(i) for i in range(128)] + list(OTHER)
N = len(ALPHA)
FULL = (1 << N) - 1


class Unsupported(Exception):
    pass


def mask(pred):
    m = 0
    for i, c in enumerate(ALPHA):
        if pred(c): m |= 1 << i
    return m


class Nfa:
    def __init__(self):
        self.n = 0; self.edges = {}; self.eps = {}
    def new(self):
        self.n += 1
        return self.n - 1
    def edge(self, a, m, b): self.edges.setdefault(a, []).append((m, b))
    def e(self, a, b): self.eps.setdefault(a, []).append(b)


def charset(op, av, flags):
    """mask of a one-character node"""
    import re._constants as C
    ic = flags & re.I
    asc = re.A if flags & re.A else 0
    def single(o, a):
        if o is C.LITERAL:
            if ic: return mask(lambda ch: re.fullmatch(re.escape(chr(a)), ch, re.I | asc) is not None)
            return mask(lambda ch: ord(ch) == a)
        if o is C.NOT_LITERAL:
            return FULL & ~single(C.LITERAL, a)
        if o is C.ANY:
            return FULL if flags & re.S else mask(lambda ch: ch != '\n')
        if o is C.RANGE:
            if ic: return mask(lambda ch: re.fullmatch(f'[{re.escape(chr(a[0]))}-{re.escape(chr(a[1]))}]', ch, re.I | asc) is not None)
            return mask(lambda ch: a[0] <= ord(ch) <= a[1])
        if o is C.CATEGORY:
            t = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W', C.CATEGORY_SPACE: r'\s', C.CATEGORY_NOT_SPACE: r'\S'}.get(a)
            if t is None: raise Unsupported(str(a))
            return mask(lambda ch: re.fullmatch(t, ch, asc) is not None)
        raise Unsupported(str(o))
    if op is C.IN:
        neg = False; m = 0
        for o, a in av:
            if o is C.NEGATE: neg = True
            else: m |= single(o, a)
        return FULL & ~m if neg else m
    return single(op, av)


def build(seq, flags, nfa, a):
    """add the pattern to the automaton, starting at state a; -> end state"""
    import re._constants as C
    for op, av in seq:
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            b = nfa.new(); nfa.edge(a, charset(op, av, flags), b); a = b
        elif op is C.SUBPATTERN:
            _, add, dele, sub = av
            a = build(sub, (flags | add) & ~dele, nfa, a)
        elif op is C.BRANCH:
            end = nfa.new()
            for br in av[1]:
                s = nfa.new(); nfa.e(a, s)
                nfa.e(build(br, flags, nfa, s), end)
            a = end
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 40: raise Unsupported('repeat')
            for _ in range(lo): a = build(sub, flags, nfa, a)
            if hi is C.MAXREPEAT or hi > 40:
                if hi is not C.MAXREPEAT: raise Unsupported('repeat')
                s = nfa.new(); nfa.e(a, s)
                e = build(sub, flags, nfa, s)
                nfa.e(e, s); a = nfa.new(); nfa.e(s, a)
            else:
                end = nfa.new(); nfa.e(a, end)
                for _ in range(hi - lo):
                    a = build(sub, flags, nfa, a); nfa.e(a, end)
                a = end
        else:
            raise Unsupported(str(op))
    return a


def strip(seq):
    """leading ^ and trailing $ of a sequence"""
    import re._constants as C
    seq = list(seq); begin = False; end = None
    while seq and seq[0][0] is C.AT and seq[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        begin = True; seq.pop(0)
    while seq and seq[-1][0] is C.AT and seq[-1][1] in (C.AT_END, C.AT_END_STRING):
        end = 'strict' if seq[-1][1] is C.AT_END_STRING or end == 'strict' else 'line'; seq.pop()
    return begin, seq, end


def alternatives(p, flags):
    """top-level alternatives of a pattern, anchors taken off"""
    import re._constants as C
    seq = list(p)
    if len(seq) == 1 and seq[0][0] is C.BRANCH:
        for br in seq[0][1][1]: yield from alternatives(br, flags)
    elif len(seq) == 1 and seq[0][0] is C.SUBPATTERN and not seq[0][1][1] and not seq[0][1][2]:
        yield from alternatives(seq[0][1][3], flags)
    else:
        yield strip(seq)


def determinize(nfa, start, finals):
    def closure(ss):
        todo = list(ss); out = set(ss)
        while todo:
            for t in nfa.eps.get(todo.pop(), ()):
                if t not in out: out.add(t); todo.append(t)
        return frozenset(out)
    s0 = closure([start]); ids = {s0: 0}; todo = [s0]; trans = []; acc = []
    while todo:
        cur = todo.pop(0)
        acc.append(bool(cur & finals))
        row = [None] * N
        for i in range(N):
            bit = 1 << i
            nxt = frozenset(b for a in cur for m, b in nfa.edges.get(a, ()) if m & bit)
            nxt = closure(nxt)
            if nxt not in ids:
                ids[nxt] = len(ids); todo.append(nxt)
                if len(ids) > 400: raise Unsupported('too many states')
            row[i] = ids[nxt]
        trans.append(tuple(row))
    return minimise(tuple(trans), tuple(acc))


def minimise(trans, acc):
    n = len(trans)
    cls = [1 if a else 0 for a in acc]
    while True:
        sig = {}
        new = []
        for s in range(n):
            key = (cls[s],) + tuple(cls[t] for t in trans[s])
            new.append(sig.setdefault(key, len(sig)))
        if len(sig) == len(set(cls)): break
        cls = new
    # renumber in visiting order so that equal languages are equal values
    order = {}; todo = [0]; rep = {}
    for s in range(n): rep.setdefault(cls[s], s)
    order[cls[0]] = 0; rows = []; accs = []
    q = [cls[0]]
    while q:
        c = q.pop(0); s = rep[c]; row = []
        for t in trans[s]:
            d = cls[t]
            if d not in order: order[d] = len(order); q.append(d)
            row.append(order[d])
        rows.append(tuple(row)); accs.append(acc[s])
    return (tuple(rows), tuple(accs))


@functools.lru_cache(None)
def pattern(pat, flags, kind):
    """the strings for which re.<kind>(pat, s, flags) finds something"""
    import re._parser as P
    p = P.parse(pat, flags)
    flags = p.state.flags
    if flags & (re.M | re.L): raise Unsupported('flags')
    nfa = Nfa(); start = nfa.new(); finals = set()
    for begin, seq, end in alternatives(p, flags):
        a = nfa.new(); nfa.e(start, a)
        if kind == 'search' and not begin: nfa.edge(a, FULL, a); b = nfa.new(); nfa.e(a, b); a = b
        b = build(seq, flags, nfa, a)
        f = nfa.new(); nfa.e(b, f)
        if kind != 'fullmatch':
            if end is None: nfa.edge(f, FULL, f)
            elif end == 'line':
                g = nfa.new(); nfa.edge(f, mask(lambda c: c == '\n'), g); finals.add(g)
        finals.add(f)
    return determinize(nfa, start, frozenset(finals))


@functools.lru_cache(None)
def combine(a, b, op):
    ta, aa = a; tb, ab = b
    f = {'and': lambda x, y: x and y, 'minus': lambda x, y: x and not y, 'or': lambda x, y: x or y}[op]
    ids = {(0, 0): 0}; todo = [(0, 0)]; trans = []; acc = []
    while todo:
        x, y = todo.pop(0)
        acc.append(f(aa[x], ab[y])); row = []
        for i in range(N):
            t = (ta[x][i], tb[y][i])
            if t not in ids: ids[t] = len(ids); todo.append(t)
            row.append(ids[t])
        trans.append(tuple(row))
    return minimise(tuple(trans), tuple(acc))


IDS = []; IX = {}
def lid(lang):
    """short name of a language, for facts"""
    if lang not in IX: IX[lang] = len(IDS); IDS.append(lang)
    return IX[lang]


def empty(a): return not any(a[1])
def accepts(a, s):
    st = 0
    for c in s:
        i = ALPHA.index(c) if c in ALPHA else None
        if i is None: return None
        st = a[0][st][i]
    return a[1][st]


def refine(st, s, lang):
    d = st.langs(); d[s] = lid(lang)
    st.ghost = dict(st.ghost); st.ghost['%lang'] = tuple(d.items())


def member(m, st, s, lang, k, why):
    """split on whether the string is in the language"""
    cur = IDS[st.langs()[s]]
    yes, no = combine(cur, lang, 'and'), combine(cur, lang, 'minus')
    if empty(no): return k(st, True)
    if empty(yes): return k(st, False)
    def go(s2, b):
        refine(s2, s, yes if b else no)
        return k(s2, b)
    return m.fork_fact(st, ('lang', s, lid(lang)), go, why)


def test(m, st, kind, pat, flags, s, k):
    try: lang = pattern(pat, flags if isinstance(flags, int) else 0, kind)
    except (Unsupported, re.error) as e:
        from .values import term
        return m.truth(st, term('re_' + kind, (pat, flags, s), 'bool'), k)
    return member(m, st, s, lang, k, f're.{kind}({pat!r}, {s})')


def literal(s): return pattern(re.escape(s), re.S, 'fullmatch')
def has(s): return pattern('.*' + re.escape(s) + '.*', re.S, 'fullmatch')
NONEMPTY = pattern('.+', re.S, 'fullmatch')
CLASSES = ('isalnum', 'isalpha', 'isdigit', 'isascii', 'isdecimal', 'isnumeric', 'isspace', 'islower', 'isupper')


def question(st, v):
    """(string, language): the truth value v asks whether the string is in the language; None: it asks something else"""
    langs = st.langs()
    if not langs: return None
    if v in langs: return v, NONEMPTY
    if not hasattr(v, 'op') or any(type(a).__name__ == 'Ref' for a in v.args): return None
    try:
        if v.op == 'eq' and len(v.args) == 2:
            a, b = v.args
            if isinstance(a, str): a, b = b, a
            if isinstance(b, str) and a in langs: return a, literal(b)
        elif v.op == 'in' and isinstance(v.args[0], str) and v.args[1] in langs:
            return v.args[1], has(v.args[0])
        elif v.op in ('startswith', 'endswith') and len(v.args) == 2 and v.args[0] in langs and isinstance(v.args[1], str):
            e = re.escape(v.args[1])
            return v.args[0], pattern(e + '.*' if v.op == 'startswith' else '.*' + e, re.S, 'fullmatch')
        elif v.op in ('isalnum', 'isalpha', 'isdigit', 'isdecimal', 'isnumeric', 'isspace', 'isascii') and len(v.args) == 1 and v.args[0] in langs:
            nfa = Nfa(); a = nfa.new(); b = nfa.new(); m = mask(lambda c: getattr(c, v.op)())
            nfa.edge(a, m, b); nfa.edge(b, m, b)
            return v.args[0], determinize(nfa, a, frozenset({b} | ({a} if v.op == 'isascii' else set())))
    except (Unsupported, TypeError): pass
    return None
