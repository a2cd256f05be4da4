"""Which specifications, in which configurations, decide which property.

Each entry of OBL[property] is (tier, module, function, arguments); tier 'q' is analysed in both tiers,
tier 't' in the thorough tier only.  Keys, values, contents and capacities stay symbolic in every
configuration; only the number of groups / sub-collections and the mode of the operation are enumerated."""
from itertools import combinations, permutations, product

OBL = {}


def add(prop, mod, fn, args=((),), tier='q'):
    for a in args:
        OBL.setdefault(prop, []).append((tier, mod, fn, tuple(a)))


def subsets(n, lo=0):
    for k in range(lo, n + 1):
        yield from combinations(range(n), k)


SHAPES = [(1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1)]
SHAPES_T = [(3,), (2, 2), (3, 1), (1, 3), (2, 1, 1), (1, 2, 1), (1, 1, 2)]

# ---------------------------------------------------------------------------------------------- S01
add('S01', 's01', 'collection_get'); add('S01', 's01', 'collection_missing')
add('S01', 's01', 'group_get', [(1,), (2,), (3,)]); add('S01', 's01', 'group_missing', [(1,), (2,), (3,)])
for shapes, tier in ((SHAPES, 'q'), (SHAPES_T, 't')):
    for fn in ('container_read', 'connection_read'):
        add('S01', 's01', fn, [(s, i) for s in shapes for i in range(len(s))], tier)
    for fn in ('container_missing', 'connection_missing'):
        add('S01', 's01', fn, [(s,) for s in shapes], tier)

add('S01', 's01', 'connection_several', [((1, 1), at, ids, k) for at in ((), (('a', 0),), (('b', 1),), (('a', 0), ('b', 1)), (('a', 1), ('b', 0))) for ids in (('a', 'b'), ('b', 'a'), ('a', 'a'), ('a', 'b', 'a')) for k in ('list', 'tuple', 'iter')])
add('S01', 's01', 'connection_several', [((1, 1), at, ids, k) for at in ((('a', 0), ('b', 1), ('c', 0)), (('c', 1), ('a', 0))) for ids in (('a', 'b', 'c'), ('c', 'b', 'a'), ()) for k in ('list', 'keys')], 't')

# ---------------------------------------------------------------------------------------------- S02
add('S02', 's02', 'insert_then_all', product((1, 2, 3), (True, False), (True, False)))
add('S02', 's02', 'insert_then_all', product((4,), (True, False), (True, False)), 't')
for fn in ('update_then_all', 'setdefault_then_all'):
    add('S02', 's02', fn, product((1, 2, 3), (True, False)))
    add('S02', 's02', fn, product((4,), (True, False)), 't')
for fn in ('update_two', 'keywords', 'settings'):
    add('S02', 's02', fn, [(1,), (2,), (3,)])
    add('S02', 's02', fn, [(4,)], 't')

add('S02', 's02', 'settings_bulk', product((1, 2, 3), ('update', 'update more', 'setdefault'), (True, False)))

# ---------------------------------------------------------------------------------------------- S03
for shapes, tier in ((SHAPES, 'q'), (SHAPES_T, 't')):
    for s in shapes:
        add('S03', 's03', 'write', [(s, sub, f, c) for sub in subsets(len(s)) for f in (True, False) for c in (True, False)], tier)
        add('S03', 's03', 'write_other', [(s, i) for i in range(len(s))], tier)
        add('S03', 's03', 'write_twice', [(s,)], tier)
for s in ((1, 1), (1, 1, 1)):
    n = len(s)
    orders = [p for k in range(1, n + 1) for p in permutations(range(n), k)]
    add('S03', 's03', 'shadow', [(s, sub, o) for sub in subsets(n, 1) for o in permutations(range(n))])
    add('S03', 's03', 'shadow', [(s, sub, o) for sub in subsets(n, 1) for o in permutations(range(1, n))])
add('S03', 's03', 'shadow', [((1, 1, 1, 1), sub, tuple(range(4))) for sub in subsets(4, 2)])

# ---------------------------------------------------------------------------------------------- S04
for shapes, tier in ((SHAPES, 'q'), (SHAPES_T, 't')):
    for s in shapes:
        add('S04', 's04', 'delete', [(s, sub, f, h) for sub in subsets(len(s)) for f in (True, False) for h in ('container', 'connection')], tier)
add('S04', 's04', 'group_pop', [(1,), (2,), (3,)])
add('S04', 's04', 'collection_pop')
add('S04', 's04', 'emptied', [(w, n, ks) for w, n in (('group', 1), ('group', 2), ('group', 3), ('collection', 1)) for ks in (None, (), ('b',), ('c', 'a', 'b', 'd'))])

# ---------------------------------------------------------------------------------------------- S05
for shapes, tier in ((SHAPES, 'q'), (SHAPES_T, 't')):
    for s in shapes:
        for fn in ('create', 'update'):
            add('S05', 's05', fn, [(s, sub, m) for sub in subsets(len(s)) for m in ('auto', 'manual')], tier)
        add('S05', 's05', 'create_in_block', [(s, sub) for sub in subsets(len(s))], tier)

# ---------------------------------------------------------------------------------------------- S06
for fn in ('new_id', 'known_id'):
    for st in (True, False):
        add('S06', 's06', fn, [('collection', op, 1, st) for op in ('insert', 'update', 'update2', 'setdefault')])
        add('S06', 's06', fn, [('group', op, n, st) for op in ('insert', 'update', 'update2', 'setdefault') for n in (1, 2)])
        add('S06', 's06', fn, [('group', op, 3, st) for op in ('insert', 'update', 'setdefault')])
        add('S06', 's06', fn, [('container', 'write', n, st) for n in (1, 2, 3)])
for fn in ('overfull', 'overfull_new'):
    add('S06', 's06', fn, [('collection', op, 1) for op in ('insert', 'update', 'setdefault')] + [('group', op, n) for op in ('insert', 'update', 'setdefault') for n in (1, 2, 3)] + [('container', 'write', n) for n in (1, 2, 3)])
add('S06', 's06', 'switched', [('group', op, n) for op in ('insert', 'update', 'setdefault') for n in (1, 2)] + [('container', 'write', n) for n in (1, 2)])

# ---------------------------------------------------------------------------------------------- S07
for st in (True, False):
    for known in (True, False):
        add('S07', 's07', 'rejected', [('collection', op, 1, st, known) for op in ('insert', 'update', 'update3', 'setdefault', 'pop')])
        add('S07', 's07', 'rejected', [('group', op, n, st, known) for op in ('insert', 'update', 'setdefault', 'pop') for n in (1, 2)])
        add('S07', 's07', 'rejected', [('container', op, n, st, known) for op in ('write', 'delete', 'resize') for n in (1, 2)])
        add('S07', 's07', 'rejected', [(lv, op, n, st, known, True) for lv, n in (('group', 1), ('group', 2)) for op in ('insert', 'update', 'setdefault')] + [('collection', op, 1, st, known, True) for op in ('insert', 'update', 'setdefault')] + [('container', 'write', n, st, known, True) for n in (1, 2)])
        add('S07', 's07', 'rejected', [('group', 'update', 3, st, known), ('group', 'update3', 2, st, known)], 't')
add('S07', 's07', 'too_small', [((1, 1), at, cap, cond, tm) for at in ((0, 0, 0), (0, 0, 1), (0, 1, 1), (1, 1, 1)) for cap in (1, 2, 3) for cond in (True, False) for tm in (True, False)])
add('S07', 's07', 'setter', product(('group', 'container'), (1, 2)))

# ---------------------------------------------------------------------------------------------- S08
B = (True, False)
add('S08', 's08', 'group_ctor', product((1, 2, 3), B, B))
add('S08', 's08', 'group_new', product((1, 2, 3), B))
add('S08', 's08', 'group_custom', [(b,) for b in B]); add('S08', 's08', 'default_group')
add('S08', 's08', 'container_ctor', product((1, 2, 3), B, B))
add('S08', 's08', 'container_new', product((1, 6, 30), (1, 3, 10), B))
add('S08', 's08', 'container_resize', product((1, 2), B, B, B)); add('S08', 's08', 'container_resize', product((1, 2), B, B, B, B))
add('S08', 's08', 'filled_resize', product(((1,), (2,), (1, 1)), B, B, B, (-1, 0, 1, 5), B))
add('S08', 's08', 'assign', product(('group', 'container', 'connection'), (1, 2, 3), B, B))
add('S08', 's08', 'db_create', product(B, ('create', 'new')))
add('S08', 's08', 'initialised', product(B, ('connect', 'connect-default', 'load-default')))

# ---------------------------------------------------------------------------------------------- S09
def s09(shapes, tier, caps=((1, 1),)):
    for s in shapes:
        for sub in subsets(len(s), 1):
            for strict in B:
                for tm in (None, 'plain', 'thread'):
                    if len(s) > 1:
                        add('S09', 's09', 'run', [('condense', s, sub, strict, tm, False, None, tr) for tr in B], tier)
                    add('S09', 's09', 'run', [('resize', s, sub, strict, tm, False, cond, tr, cap) for cond in B for tr in B for cap in caps], tier)
                    if tm == 'plain':
                        if len(s) > 1:
                            add('S09', 's09', 'run', [('condense', s, sub, strict, tm, True, None, tr) for tr in B], tier)
                        add('S09', 's09', 'run', [('resize', s, sub, strict, tm, True, cond, tr, cap) for cond in B for tr in B for cap in caps], tier)
s09([(1,), (1, 1)], 'q'); s09([(1,), (1, 1)], 't', ((3, 2),)); s09([(2, 1), (1, 2), (1, 1, 1)], 't', ((1, 1),))
for sub in ((0,), (1,)):
    add('S09', 's09', 'run', [('resize', (1, 1), sub, False, 'plain', False, cond, True, (3, 2)) for cond in B])
    add('S09', 's09', 'run', [('resize', (1, 1), sub, True, None, False, cond, True, (3, 2)) for cond in B])
add('S09', 's09', 'run', [('condense', (1, 2), (1,), False, 'plain', False, None, True), ('resize', (1,), (0,), False, 'plain', False, True, True, (3, 2)),
                          ('condense', (1, 1, 1), (2,), False, None, False, None, True), ('resize', (1, 1, 1), (2,), False, None, False, True, True, (1, 1)),
                          ('resize', (1, 1, 1), (0, 2), False, None, False, False, True, (1, 1))])

# ---------------------------------------------------------------------------------------------- S10
for tm in B:
    add('S10', 's10', 'keeps_newest', [('condense', (1, 1), None, tr, tm) for tr in B] + [('resize', (1, 1), c, tr, tm) for c in B for tr in B])
    add('S10', 's10', 'keeps_newest', [('condense', (2, 1), None, tr, tm) for tr in B] + [('resize', (1, 2), c, tr, tm) for c in B for tr in B], 't')
add('S10', 's10', 'order', [(op, (1, 1, 1), tr, m) for op in ('condense', 'resize') for tr in B for m in (None, 'plain', 'thread')])
add('S10', 's10', 'order', [('condense', (1, 1, 1, 1), tr, m) for tr in B for m in (None, 'plain')], 't')
for fail in B:
    for st in B:
        add('S10', 's10', 'atomic', [('condense', (1, 1), None, st, fail), ('resize', (1, 1), True, st, fail), ('resize', (1, 1), False, st, fail)])

# ---------------------------------------------------------------------------------------------- S11
ats = [(n, at) for n in (1, 2, 3) for k in (0, 1, 2) for at in product(range(n), repeat=k)]
add('S11', 's11', 'views', ats)
add('S11', 's11', 'views', [(n, at) for n in (2, 3) for at in product(range(n), repeat=3)], 't')
add('S11', 's11', 'ranged', [x for x in ats])
add('S11', 's11', 'ranged', [(n, at) for n in (2, 3) for at in product(range(n), repeat=3)], 't')
add('S11', 's11', 'empty_key', [(n, at) for n in (1, 2, 3) for at in product(range(n), repeat=2)])
MIX = [(None, 0, False), ('', 'x', 3), (1, 'x', None), (True, 2.5, 'q')]
add('S11', 's11', 'values_any', [(n, at, v) for n in (1, 2) for at in product(range(n), repeat=3) for v in MIX])
BND = [(None, None), ('b', None), (None, 'd'), ('c', 'c'), ('b', 'f'), ('h', None), (None, ''), ('', None)]
add('S11', 's11', 'bounds', [(n, at, lo, hi) for n, at in ((1, (0, 0, 0)), (2, (0, 1, 0, 1)), (2, (1, 1, 0)), (3, (2, 0, 1, 1))) for lo, hi in BND])
add('S11', 's11', 'complete', [(n, nm) for n in (1, 2, 3) for nm in ('keys', 'items')])
add('S11', 's11', 'collection', [(nm, k) for nm in ('keys', 'values', 'items', 'iterkeys', 'itervalues', 'iteritems') for k in ('', 'a')])
add('S11', 's11', 'collection_bounds', BND)

# ---------------------------------------------------------------------------------------------- S12
A3 = [(n, at) for n in (1, 2, 3) for k in (0, 1, 2, 3) for at in product(range(n), repeat=k)]
add('S12', 's12', 'extremes', [(n, at, b) for n, at in A3 for b in (None, 'c', 'd', 'a', 'z', '')])
add('S12', 's12', 'extremes', [(n, at, b, True) for n, at in A3 for b in (None, 'c', '')])
add('S12', 's12', 'keyword', [(n, at, b) for n, at in A3 for b in ('c', 'd', '')])
add('S12', 's12', 'keyword', [(n, at, b, True) for n, at in A3 for b in ('c', '')])
add('S12', 's12', 'symbolic', [(n, at) for n in (1, 2, 3) for k in (1, 2) for at in product(range(n), repeat=k)])
add('S12', 's12', 'collection', [(ks, b, v) for ks in ((), ('a',), ('b', 'a'), ('c', 'a', 'b'), ('', 'd')) for b in (None, '', 'b', 'z') for v in (1, None)])
add('S12', 's12', 'popitem', [(n, ks, v) for n in (1, 2, 3) for ks in ((), ('a',), ('b', 'a'), ('c', 'a', 'b')) for v in (1, None)])

# ---------------------------------------------------------------------------------------------- S13
for shapes, tier in ((SHAPES, 'q'), (SHAPES_T, 't')):
    for s in shapes:
        add('S13', 's13', 'membership', [(s, sub, f) for sub in subsets(len(s)) for f in B], tier)
        add('S13', 's13', 'iteration_any', [(s, i) for i in range(len(s))], tier)
        n = len(s)
        ents = [(p, kn) for p in range(n) for kn in (0, 1)]
        add('S13', 's13', 'iteration', [(s, at) for k in (0, 1, 2) for at in combinations(ents, k)], tier)

# ---------------------------------------------------------------------------------------------- T01
CK = [('container', 'plain'), ('container', 'thread'), ('container', None), ('legacy', 'legacy'), ('legacy', 'legacy-thread'), ('legacy', None), ('managed', None)]
OPS = ('create', 'update', 'delete')
ERRS = ('boom', 'falsy', 'exit', 'key', 'value', 'type', 'attr', 'index', 'os', 'runtime', 'interrupt', 'sysexit', 'conflict', 'poskey', 'tx', 'overwrite', 'incompatible', 'assert', 'memory', 'import', 'generator', 'stop', 'lookup')
add('T01', 't01', 'ok', [(k, t, op, b) for k, t in CK for op in OPS for b in ((False,) if op == 'create' else B)])
add('T01', 't01', 'fails', [(k, t, op, at, e) for k, t in CK for op in OPS for at in (('delete',) if op == 'delete' else ('write',)) for e in ERRS])
add('T01', 't01', 'fails', [('container', t, 'create', 'has', e) for t in ('plain', 'thread', None) for e in ERRS])
add('T01', 't01', 'fails', [('container', t, 'update', 'read', e) for t in ('plain', 'thread', None) for e in ERRS])
add('T01', 't01', 'overwrite', [('plain',), ('thread',), (None,)])
add('T01', 't01', 'commit_fails', [(k, t, op) for k, t in CK for op in OPS])
add('T01', 't01', 'decorated', [(w, t, n, f) for w, t in (('new', 'plain'), ('new', 'thread'), ('legacy', 'legacy'), ('legacy', 'legacy-thread')) for n in range(4) for f in B])
add('T01', 't01', 'twice', [(k, t, op) for k, t in CK for op in OPS])
for shapes, tier in ((SHAPES, 'q'), (SHAPES_T, 't')):
    add('T01', 't01', 'real', [(s, t, op, h) for s in shapes for t in ('plain', 'thread') for op in OPS for h in (None,) + tuple(range(len(s)))], tier)

# ---------------------------------------------------------------------------------------------- T02
VIA = ('connection', 'manager')
add('T02', 't02', 'block', [(k, t, v, ops) for k, t in CK for v in VIA for ops in ((), ('create',), ('create', 'update', 'delete'))])
add('T02', 't02', 'failing', [(k, t, v, ops, e) for k, t in CK for v in VIA for ops in ((), ('create', 'delete')) for e in ERRS])
add('T02', 't02', 'op_fails', [(k, t, v, op, c) for k, t in CK for v in VIA for op in OPS for c in B])
add('T02', 't02', 'after', [(k, t, v, e) for k, t in CK for v in VIA for e in B])
add('T02', 't02', 'legacy_expand', [(1,), (2,), (4,)])
STEPS = ('operation', 'failing operation', 'by hand', 'block', 'failing block', 'caught block')
def vias(h): return [v for v in product(VIA, repeat=len(h))]
add('T02', 't02', 'history', [('container', t, h, v) for t in ('plain', 'thread') for h in product(STEPS, repeat=2) for v in vias(h)])
add('T02', 't02', 'history', [('legacy', t, h, v) for t in ('legacy', 'legacy-thread') for h in product([s for s in STEPS if s != 'by hand'], repeat=2) for v in vias(h)])
add('T02', 't02', 'history', [('container', t, h, v) for t in ('plain', 'thread') for h in product(STEPS, repeat=3) for v in vias(h)], 't')
add('T02', 't02', 'reused', [('container', t, h) for t in ('plain', 'thread') for h in product(STEPS, repeat=2)])

# ---------------------------------------------------------------------------------------------- T03
add('T03', 't03', 'block', [(k, t, v, e, c, a) for k, t in CK for v in VIA for e in (None, 'boom', 'falsy', 'exit') for c in B for a in B])
add('T03', 't03', 'single', [(k, t, op, at, c, a) for k, t in CK for op in OPS for at in (None, 'delete' if op == 'delete' else 'write') for c in B for a in B])
add('T03', 't03', 'block', [(k, t, v, e, False, False) for k, t in CK for v in VIA for e in ERRS if e not in ('boom', 'falsy', 'exit')])
add('T03', 't03', 'single', [(k, t, op, 'delete' if op == 'delete' else 'write', False, False, e) for k, t in CK for op in OPS for e in ERRS if e != 'boom'])
add('T03', 't03', 'begin_fails', [(k, t, v) for k, t in CK for v in VIA])
add('T03', 't03', 'single_begin_fails', [(k, t, op) for k, t in CK for op in OPS])
WAYS = ('operation', 'failing operation', 'block', 'failing block', 'manager block', 'failing manager block')
add('T03', 't03', 'history', [(k, t, h) for k, t in CK for h in product(WAYS, repeat=2)])
add('T03', 't03', 'history', [(k, t, h) for k, t in CK for h in product(WAYS, repeat=3)], 't')
add('T03', 't03', 'explicit', [(k, t) for k, t in CK if t])
add('T03', 't03', 'shared_manager', [(k, t, v) for k, t in CK if t for v in VIA])
add('T03', 't03', 'two_connections', [('plain',), ('thread',), (None,)])

# ---------------------------------------------------------------------------------------------- T04
TMK = [('plain',), ('thread',), (None,)]
for fn in ('default', 'later', 'block'):
    add('T04', 't04', fn, TMK)
SWS = ('on', 'off', 'manager on', 'manager off', 'operation', 'commit', 'refused', 'block', 'failing block', 'manager block', 'failing manager block')
add('T04', 't04', 'history', [(t, b, h) for t, in TMK for b in B for h in product(SWS, repeat=2)])
add('T04', 't04', 'history', [(t, b, h) for t in ('plain', 'thread') for b in B for h in product(SWS, repeat=3)], 't')
add('T04', 't04', 'reopened', [('plain',), ('thread',)])
add('T04', 't04', 'shared_manager', [('plain',), ('thread',)])
for fn in ('at_creation', 'via_manager', 'rejected'):
    add('T04', 't04', fn, [(t, b) for t, in TMK for b in B])
add('T04', 't04', 'failing_op', [(t, op) for t, in TMK for op in OPS])

# ---------------------------------------------------------------------------------------------- T05
add('T05', 't05', 'incompatible', [(w, t) for w in ('none', 'other', 'null') for t, in TMK])
add('T05', 't05', 'db_incompatible', [('none',), ('null',)])
add('T05', 't05', 'opened', TMK)
add('T05', 't05', 'context', [(e, d, i) for e in (None,) + ERRS for d in (1, 2, 3) for i in (B if d == 2 else (False,))])
add('T05', 't05', 'two_dbs')
add('T05', 't05', 'internal', [(h, c) for h in ('create', 'new', 'path', 'storage', 'store', 'connect') for c in B])
add('T05', 't05', 'failing', [(h, 'commit') for h in ('create', 'new', 'path', 'ctor', 'none', 'connect', 'filestorage', 'store')])
add('T05', 't05', 'failing', [(h, 'name') for h in ('new', 'path', 'ctor', 'none', 'connect', 'filestorage', 'store')])
add('T05', 't05', 'failing', [(h, 'incompatible') for h in ('path', 'connect', 'filestorage', 'store')])
add('T05', 't05', 'failing', [(h, 'interrupt') for h in ('create', 'new', 'path', 'ctor', 'none', 'connect', 'filestorage', 'store')])
I1, I2, O1, O2 = (1, 'in'), (2, 'in'), (1, 'out'), (2, 'out')
THR = [(I1, I2, O1, O2), (I1, I2, O2, O1), (I1, I1, I2, O1, O2, O1), (I1, I2, I1, I2, O1, O2, O1, O2), (I1, O1, I2, I1, O2, I2, O1, O2)]
add('T05', 't05', 'threads', [(s,) for s in THR] + [((I1, I2, (1, 'error'), (2, 'error')),)]); add('T05', 't05', 'close_fails', [(1,), (2,)])
add('T05', 't05', 'closing', [('new',), ('path',), ('storage',)])

# ---------------------------------------------------------------------------------------------- M01
add('M01', 'm01', 'fresh', [('none',), ('path',), ('named',), ('store',)])
add('M01', 'm01', 'existing', [(w, h, c) for w in ('both', 'container', 'meta', 'neither') for h in ('new', 'open') for c in ('empty', 'any')])
add('M01', 'm01', 'context', [(e, d, i) for e in (None,) + ERRS for d in (1, 2, 3) for i in B if d > 1 or not i])
add('M01', 'm01', 'subscript', [(w, k) for w in ('alone', 'block') for k in ('one', 'missing', 'many', 'slice')])
add('M01', 'm01', 'two')
add('M01', 'm01', 'setup_fails', [('conflict',), ('interrupt',)])
add('M01', 'm01', 'threads', [(s,) for s in THR] + [((I1, I2, (2, 'read'), (1, 'read'), O1, (2, 'read'), O2),)])
MOPT = ('pool_size', 'pool_timeout', 'cache_size', 'cache_size_bytes', 'historical_pool_size', 'historical_cache_size', 'historical_cache_size_bytes', 'historical_timeout', 'database_name', 'databases', 'xrefs', 'large_record_size')
add('M01', 'm01', 'options', [(h, n) for h in ('ctor', 'new') for n in [(x,) for x in MOPT] + [MOPT]])
add('M01', 'm01', 'path_args', [(h, n) for h in ('ctor', 'new') for n in [(x,) for x in ('create', 'read_only', 'stop', 'quota', 'pack_gc', 'pack_keep_old', 'packer', 'blob_dir')]])
add('M01', 'm01', 'open_args', [(t, k) for t in ('plain', 'legacy', None) for k in ('none', 'at', 'before', 'positional', 'keyword')])
add('M01', 'm01', 'refused', [((),), ((1,),), (('a', 'b'),)])

# ---------------------------------------------------------------------------------------------- T06
add('T06', 't06', 'existing', [(h, c, s) for h in ('load', 'path', 'filestorage', 'connect', 'connection', 'once unreadable') for c in ('empty', 'one', 'any', 'no groups') for s in B])
add('T06', 't06', 'fresh', [(h,) for h in ('path', 'filestorage', 'create', 'new', 'connect', 'none', 'ctor', 'store', 'registered')])
add('T06', 't06', 'fresh_fails', [('path',), ('new',)])
add('T06', 't06', 'legacy_setup', [(k, c, m, e) for k in ('legacy', 'managed') for c in B for m in B for e in B])

# ---------------------------------------------------------------------------------------------- R01, R02
N3 = (0, 1, 2, 3)
add('R01', 'r01', 'read', [(n, sub, kind, mult, t) for n in N3 for sub in subsets(n) for kind in ('sym', 'falsy', 'same') for mult in (None, False, True) for t in B])
add('R01', 'r01', 'read', [(4, sub, kind, mult, t) for sub in ((), (3,), (0, 3), (1, 2), (0, 1, 2)) for kind in ('sym',) for mult in (False, True) for t in B], 't')
add('R01', 'r01', 'unreadable', [(n, b, sub, m, k) for n in (1, 2, 3) for b in range(n) for sub in [()] + [(i,) for i in range(n) if i != b] for m in B for k in ('key', 'value', 'os')])
add('R01', 'r01', 'positional', [(n, sub) for n in N3 for sub in subsets(n)])
DUR = [({'seconds': 5}, 5), ({'milliseconds': 250}, 0.25), ({'days': 2}, 172800), ({'days': 1, 'seconds': 3, 'microseconds': 500000}, 86403.5),
       ({'hours': 25, 'milliseconds': 125}, 90000.125), ({'seconds': 0}, 0)]
add('R02', 'r02', 'timed', [(n, kw, w, mult) for n in (0, 1, 2) for kw, w in DUR for mult in B])
add('R02', 'r02', 'untimed', [(n, mult) for n in N3 for mult in B])
add('R02', 'r02', 'args', [(n, tm, sp) for n in (1, 2, 3) for tm in B for sp in [None] + [(i, w) for i in range(n) for w in ('tm', 'before', 'both', 'none', 'no tm')]])
add('R02', 'r02', 'args', [(n, tm, sp, 'odd') for n in (2, 3) for tm in B for sp in [(i, w) for i in range(n) for w in ('tm', 'before')]])

# ---------------------------------------------------------------------------------------------- L01, L02
add('L01', 'l01', 'expand', [(n, m, p) for n in (0, 1, 2) for m in (2, 3, 4) if m > max(n, 1) for p in (B if n else (False,))])
add('L01', 'l01', 'expand', [(n, m, p) for n, m in ((2, 5), (3, 4), (3, 7)) for p in B], 't')
add('L01', 'l01', 'twice', [(1, 2, 3), (2, 3, 4)])
add('L01', 'l01', 'refused', [(n, m) for n in (1, 2, 3) for m in range(-1, n + 1)])
add('L01', 'l01', 'falsy', [(n, n + 1, v) for n in (1, 2) for v in (None, 0, '', False)])
KN = [('container', n) for n in (0, 1, 2, 3)] + [('registry', 0)]
for fn in ('absent', 'roundtrip', 'overwrite'):
    add('L02', 'l02', fn, KN)
    add('L02', 'l02', fn, [('container', n, i) for n in (1, 2, 3, 5) for i in ((0, 1), (-1, -2), (7, 12), (2**61 - 1, 2**61), (True, 'x'))])
add('L01', 'l01', 'any_ids', [(n, m, k) for n, m in ((0, 2), (1, 3), (2, 3), (2, 5), (3, 8)) for k in ('numbers', 'number and text', 'tuples', 'none', 'texts')])
add('L02', 'l02', 'crowded', [(n, k) for n in (0, 1, 2, 3) for k in (1, 4, 6)])
add('L02', 'l02', 'through', [('legacy', ids, n) for ids in ((7, 'seven', -7), (('a', 1), 'b', ('a', 2)), ('', 'x', 'absent'), ('a', 'b', 'c')) for n in (0, 1, 3)] + [('managed', ids, n) for ids in (('', 'x', 'absent'), ('a', 'b', 'c')) for n in (1, 3)])
add('L02', 'l02', 'single_place', [(1,), (2,), (3,)] + [(n, i) for n in (2, 3, 5) for i in ((0, 1), (-1, -2), (7, 12))])

# ---------------------------------------------------------------------------------------------- T07
DBO = ('pool_size', 'pool_timeout', 'cache_size', 'cache_size_bytes', 'historical_pool_size', 'historical_cache_size',
       'historical_cache_size_bytes', 'historical_timeout', 'database_name', 'databases', 'xrefs', 'large_record_size')
FSO = ('create', 'read_only', 'stop', 'quota', 'pack_gc', 'pack_keep_old', 'packer', 'blob_dir')
CLO = ('name', 'wait_timeout', 'disconnect_poll', 'read_only', 'read_only_fallback', 'blob_dir', 'shared_blob_dir', 'blob_cache_size',
       'blob_cache_size_check', 'client_label', 'ssl', 'ssl_server_hostname', 'client', 'var', 'min_disconnect_poll', 'max_disconnect_poll',
       'wait', 'drop_cache_rather_verify', 'credentials', 'server_sync', 'username', 'password', 'realm', '_client_factory')
ones = lambda names: [(names,)] + [((n,),) for n in names]
add('T07', 't07', 'cache_sizes', [(k, b) for k in ('container', 'legacy', 'managed') for b in B])
add('T07', 't07', 'load', [(h,) + x for h in ('load', 'ctor', 'fresh') for x in ones(DBO)])
add('T07', 't07', 'path_args', ones(FSO))
add('T07', 't07', 'create', [(h,) + x for h in ('create', 'new') for x in ones(FSO)])
add('T07', 't07', 'capacity', [(h, c) for h in ('create', 'new') for c in (1, 5, 300)])
add('T07', 't07', 'new', ones(DBO))
add('T07', 't07', 'connect', [x + ((), None) for x in ones(DBO)] + [((),) + x + (None,) for x in ones(CLO)] + [((), (), c) for c in ('path', 'cache', 'rest')])
add('T07', 't07', 'open_args', [(t, k) for t in ('plain', 'thread', None) for k in (None, 'at', 'before', 'positional')])
add('T07', 't07', 'own_manager'); add('T07', 't07', 'no_client_create')

# ---------------------------------------------------------------------------------------------- K01, K02, K03
LAYERS = ('function', 'module', 'group')
ROOTS = ('/root', '/root/', 'rel', '.', './rel/', '/a/b/../c')
for ly in LAYERS:
    KW = [{}, {'overwrite': False}] + ([{'discoverable': d} for d in B] if ly == 'function' else [])
    KO = [{'overwrite': True}] + ([{'overwrite': True, 'discoverable': d} for d in B] if ly == 'function' else [])
    for rt in ROOTS:
        tier = 'q' if rt in ('/root', '.', 'rel') else 't'
        add('K01', 'k01', 'refused', [(ly, rt, nm, kw, kind) for nm in ('mod', '*1') for kw in KW for kind in ('dir', 'file')], tier)
        add('K01', 'k01', 'fresh', [(ly, rt, nm, kw) for nm in (('mod', '*1') if ly == 'function' else ('mod', '*1')) for kw in KW + KO], tier)
        add('K01', 'k01', 'unknown', [(ly, rt, nm, kw) for nm in ('mod', '*1') for kw in KW + KO], tier)
        add('K01', 'k01', 'overwrite', [(ly, rt, 'mod', kw, l) for kw in KO for l in ((), ('__init__.py',), ('__init__.py', 'mod', '*1'), ('*1', '*2'))], tier)
    add('K01', 'k01', 'anonymous', [(ly, n, kw) for n in (None, '') for kw in KW + KO])
PATHS = (('/root/mod', '/root/mod'), ('/root/mod/', '/root/mod'), ('mod', '/cwd/mod'), ('./mod/', '/cwd/mod'), ('.', '/cwd'), ('/root/x/../mod', '/root/mod'))
LISTS = ((), ('__init__.py',), ('*1',), ('__init__.py', 'mod', 'mod.index'), ('__init__.py', '*1'), ('*1', '*2'), ('other', '__init__.py'))
for ly in ('function', 'module'):
    for i, pr in enumerate(PATHS):
        tier = 'q' if i < 3 else 't'
        add('K02', 'k02', 'files', [(ly,) + pr + (kw, l) for kw in ({}, {'remove_empty': False}, {'remove_empty': True}, {'remove_all': False}) for l in LISTS], tier)
        add('K02', 'k02', 'files', [(ly,) + pr + (kw, ('*1', '__init__.py', '*2', '*3')) for kw in ({}, {'remove_empty': False})], 't')
        add('K02', 'k02', 'subdirs', [(ly,) + pr + (kw,) for kw in ({}, {'remove_empty': False})], tier)
        add('K02', 'k02', 'everything', [(ly,) + pr + (kw, l) for kw in ({'remove_all': True}, {'remove_all': True, 'remove_empty': False}, {'remove_all': True, 'remove_empty': True}) for l in LISTS[:3]], tier)
add('K02', 'k02', 'group', [(r, n, l) for r in ('/root', 'rel', '.') for n in ('mod', '*3') for l in LISTS[:6]])
for rt in ('/root', '.'):
    NS = ((), ('a',), ('a', 'b'), ('a', 'b', 'c'), ('*1',), ('*1', '*2'))
    add('K01', 'k01', 'listed', [(rt, nm, x) for nm in ('mod', '*1') for x in B])
    add('K03', 'k03', 'failing', [(rt, n, i) for n in NS[:4] for i in range(len(n))])
    add('K03', 'k03', 'own_name', [(rt, ('a',), ('z',)), (rt, ('a',), ('*1',)), (rt, ('a', 'b'), ('b', 'a')), (rt, ('a', 'b'), ('x', 'y')), (rt, ('a', '*1'), ('y', 'a'))])
    add('K03', 'k03', 'discovered', [(rt, n, x, None) for n in NS for x in ((),) + ((n[:1],) if n else ()) + ((n[1:],) if len(n) > 1 else ())])
    add('K03', 'k03', 'discovered', [(rt, ('a', 'b', 'c'), ('b', 'a'), None), (rt, ('a', 'b', 'c'), (), ('b',)), (rt, ('a', 'b', 'c'), ('c',), ('b', 'c'))])
    add('K03', 'k03', 'supplied', [(rt, n, o) for n in NS[:4] for o in ((), ('a',), ('z',), ('a', 'z'))])
    add('K03', 'k03', 'created', [(rt, n, x, d) for n in NS for x in ('new', '*3') for d in B])
    add('K03', 'k03', 'destroyed', [(rt, n, i) for n in NS for i in range(len(n))])
    add('K03', 'k03', 'databases', [(rt, n) for n in NS])
    add('K03', 'k03', 'unlisted', [(rt, 'x'), (rt, '*1')]); add('K03', 'k03', 'opening', [(rt, 'x'), (rt, '*1')]); add('K03', 'k03', 'missing', [(rt, 'x'), (rt, '*1')])

WHERES = (((), (), ()), ((0,), (), ()), ((0,), (0,), (0,)))
add('K04', 'k04', 'module', [(sh, w, o) for sh in ((1,), (2,), (3,)) for w in WHERES for o in B])
add('K04', 'k04', 'module', [(sh, w, o) for sh in ((1, 1), (2, 1), (1, 2)) for w in WHERES + (((1,), (), ()), ((0, 1), (1,), ()), ((0,), (1,), (0, 1))) for o in B])
add('K04', 'k04', 'group', [(sh, w, o) for sh in ((), ((1,),), ((1,), (1,)), ((2,), (1,)), ((1, 1), (1,))) for w in WHERES + (((0, 1), (1,), ()),) for o in B])
add('K04', 'k04', 'group', [(sh, w, False) for sh in (((1,), (1,), (1,)), ((1, 1), (2,), (1,))) for w in WHERES])
add('K03', 'k03', 'anonymous', [((), False)])
add('K04', 'k04', 'chosen', [(((1,), (1,)), l, c) for l in ((), (0,), (1,), (0, 1)) for c in (('a', 'b'), ('x', 'a'))] + [(((1,), (2,), (1, 1)), l, ('a', 'b', 'c')) for l in ((2,), (0, 2), (2, 1), (0, 1, 2))])
add('K04', 'k04', 'fails', [(e,) for e in ERRS])
add('K04', 'k04', 'entry', [((1,), w) for w in WHERES] + [((1, 1), w) for w in WHERES + (((0, 1), (1,), ()),)])
add('K04', 'k04', 'cluster_entry', [('plain',), ('full',), ('registered',)])
# ---------------------------------------------------------------------------------------------- J05
AK = ('get', 'set', 'del')
REGS = ((), (('get', 'A'),), (('set', 'A'),), (('del', 'A'),), (('get', 'A'), ('set', 'A'), ('del', 'A')), (('get', 'A'), ('set', 'B')), (('get', 'B'), ('get', 'A')), (('set', 'A'), ('set', 'B'), ('del', 'B')))
HOW = ('init', 'keyword', 'decorator')
add('J05', 'j05', 'plain', product(HOW, REGS))
add('J05', 'j05', 'switched', product(HOW, REGS, ('A', 'B', 'Z', None)))
add('J05', 'j05', 'nested', product(('decorator',), REGS, ('A', 'B', 'Z'), ('A', 'B', None)))
add('J05', 'j05', 'unknown_context', product(HOW, REGS))
add('J05', 'j05', 'derived', product(('init', 'decorator'), REGS, AK, (None, 'A', 'B')))
add('J05', 'j05', 'missing', product(((), ('get',), ('set',), ('del',), ('get', 'set')), (None, 'p'), REGS, (None, 'A')))
add('J05', 'j05', 'in_class', [('A',), ('B',), (None,)])

# ---------------------------------------------------------------------------------------------- J04
JOPS = ('data', 'all', 'include', 'exclude', 'mine', 'plain', 'json', 'min', 'str', 'transform')
START = ('never', None, 'MINE', '_JSONLD_OUTPUT_CONTEXT_', 'other')
add('J04', 'j04', 'ok', product(JOPS, START))
add('J04', 'j04', 'fails', product(JOPS, START, ('a', 'b', 'c'), ('exception', 'exit')))
add('J04', 'j04', 'fails', product(('data', 'json', 'str', 'transform'), START[:2], ('a', 'c'), ('key', 'value', 'type', 'attr', 'index', 'os', 'runtime', 'stop', 'interrupt', 'recursion', 'notimpl', 'genexit')))
add('J04', 'j04', 'inside', product(('data', 'json', 'str', 'plain'), ('value', 'list', 'dict', 'deep'), (None, 'a', 'b', 'c'), ('exception', 'exit')))
add('J04', 'j04', 'itself', [('fine',), ('raise',)])
for n in (1, 2, 3):
    add('J04', 'j04', 'switches', product(product(START[1:], repeat=n), (True, False)))
add('J04', 'j04', 'switches', product(product(('MINE', None, '_JSONLD_OUTPUT_CONTEXT_'), repeat=4), (True, False)), 't')
add('J04', 'j04', 'changing', product(('method', 'write', 'read', 'self'), START, (None,), ('read',)))
add('J04', 'j04', 'changing', product(('method', 'write', 'read'), START, ('exception', 'exit', 'value', 'key', 'type'), ('read', 'write')))
add('J04', 'j04', 'two', [('data',), ('none',)])

# ---------------------------------------------------------------------------------------------- J06
VK = ('str', 'empty', 'int', 'zero', 'float', 'true', 'false', 'bool', 'list', 'nulls', 'nothing', 'tuple', 'set', 'dict', 'nodict', 'node', 'nodes', 'nodedict', 'deep', 'map', 'odd', 'unset', 'unsets', 'notuple', 'noset', 'frozen', 'ring', 'views', 'whole', 'keys', 'typed', 'typeds', 'none')
add('J06', 'j06', 'values', [(k,) for k in VK]); add('J06', 'j06', 'nested', [(k,) for k in VK]); add('J06', 'j06', 'untouched', [(k,) for k in VK])
NS = ('a', 'b', 'acontext')
FN = [()] + [(n,) for n in NS + ('c', '*1', 'zz')] + [('a', 'b'), ('b', 'acontext'), ('*1', 'a'), ('*1', '*2'), ('c', 'zz')]
for have in ('xabc', 'ac', 'b', ''):
    tier = 'q' if have in ('xabc', 'ac') else 't'
    add('J06', 'j06', 'filters', product((have,), FN, FN, (False, True), ('tuple',)), tier)
    add('J06', 'j06', 'filters', product((have,), FN, FN, (None,), ('list', 'set', 'iter')), 't')
    add('J06', 'j06', 'filters', [(have, i, e, None, 'name') for i in FN[:6] for e in FN[:6] if i or e], tier)
    add('J06', 'j06', 'filters', product((have,), FN[1:8], FN[1:8], (None,), ('iter',)), tier)
add('J06', 'j06', 'partial', product(('ab', 'bc', 'abc', 'aa', '', 'context', '@context', 'A', 'a '), ('exclude', 'include')))
add('J06', 'j06', 'rejected', product((('1', '2', '3'), ('1', '1', None), (0, 1, 2), ('', 'x', 'y')), ((), ('1',), ('3', '2'), (1,), ('x', 0))))
add('J06', 'j06', 'rejected_with', product((('1', '2', '3'), ('1', None, None), (1, 'x', None)), (('1',), (None,), ('x', 1)), ((), ('a',), ('b', 'c')), ((), ('a',), ('b',)), (False, True)))
add('J06', 'j06', 'translated', product(((), ('atype',), ('a', 'aid'), ('acontext',), ('atype', 'aid', 'a')), ((), (('a', 'zz'),), (('atype', 'type'), ('a', 'b')))))
add('J06', 'j06', 'renamed', [(w,) for w in ((), ('a',), ('a', 'b'), ('acontext',), ('c', 'acontext'), ('zz',))])
add('J06', 'j06', 'transformed', product((('a',), ('b',), ('a', 'b'), ('zz',), ('a', 'zz')), ('tuple', 'none'), (True, False)))
add('J06', 'j06', 'override', [(w,) for w in ((), ('a',), ('b',), ('a', 'b'), ('c',))])
add('J06', 'j06', 'text', [(w,) for w in ((), (('minified', True),), (('indent', 2),), (('include', ('a',)),), (('exclude', ('a',)),), (('include_none', True),), (('rename', {'a': 'z'}),), (('exclude', ('b', 'acontext')), ('minified', True), ('indent', 4)))])
add('J06', 'j06', 'unknown', [('list',), ('tuple',)])

# ---------------------------------------------------------------------------------------------- J16
IMPLS = [('tools', s) for s in B] + [('engine', s) for s in B] + [('package', s) for s in B] + [('models', s) for s in B] + [('default', False), ('engine default', False)] + [(i, s) for i in ('loader get', 'loader call', 'cached get', 'cached call') for s in B]
SCHEMES = ('http', 'https', 'ftp', '', 'httpss', 'http+x', 'file', 'javascript', 'acct')
for fn in ('good', 'bad', 'nohost'):
    add('J16', 'j16', fn, [x + (s,) for x in IMPLS for s in SCHEMES])
for fn in ('any_scheme', 'broken'):
    add('J16', 'j16', fn, IMPLS)
add('J16', 'j16', 'const', [x + (i,) for x in IMPLS for i in range(30)])

# ---------------------------------------------------------------------------------------------- J10, J11
LD = ('plain', 'cached')
add('J10', 'j10', 'policy', product(LD, (None, True, False, 1), B, ('call', 'get')))
add('J10', 'j10', 'moved', product(LD, B, ('call', 'get'), ('moved', 'http error')))
add('J10', 'j10', 'refused', product(LD, (None, True, False), ('call', 'get'), range(7)))
add('J10', 'j10', 'repeated', product(LD, (True, False))); add('J10', 'j10', 'installed'); add('J10', 'j10', 'two', [(x,) for x in LD])
LK = ('request fails', 'body is not JSON', 'link context', 'link list context', 'link alternate', 'header link', 'header content-type', 'address cannot be parsed')
COMBOS = [(), LK[:1], LK[1:2], ('header link', 'link context'), ('header link', 'link context', 'link list context'), ('header link', 'link alternate'), ('header link', 'header content-type', 'link context', 'link list context', 'link alternate'), LK[7:], LK[:2] + ('header link', 'link context', 'link list context'), LK, ('http error',), ('http error', 'body is not JSON'), ('moved', 'request fails', 'body is not JSON')]
add('J11', 'j11', 'failing', [(l, c, True) for l in LD for c in COMBOS]); add('J11', 'j11', 'failures', product(LD, COMBOS))
add('J11', 'j11', 'cached', [(n, o) for n in (1, 2) for k in (1, 2, 3, 4) for o in product(range(n), repeat=k)])
add('J11', 'j11', 'cached', [(3, o) for k in (3, 4, 5) for o in product(range(3), repeat=k)], 't')
add('J11', 'j11', 'wrong', product(LD, ('request', 'body'), ('key', 'value', 'type', 'attr', 'index', 'os', 'runtime', 'stop', 'recursion', 'notimpl', 'assertion', 'timeout', 'http')))
add('J11', 'j11', 'shared', [(2,)]); add('J11', 'j11', 'after_failure', product(LK, LD)); add('J11', 'j11', 'refused', product(LD, range(4)))

# ---------------------------------------------------------------------------------------------- the vocabulary
import ast, os
def table(mod, name):
    """a table written as a literal in a specification"""
    src = open(os.path.join(os.path.dirname(__file__), '..', 'specs', mod + '.pys')).read()
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and node.targets[0].id == name: return ast.literal_eval(node.value)
PARENTS, DOMAIN, RANGE = (table('as_env', n) for n in ('PARENTS', 'DOMAIN', 'RANGE'))
for p in table('as_env', 'ALL'): RANGE[p] = ('OL', True)
def kinds_of(n):
    out = [n]
    for q in PARENTS[n]: out += [r for r in kinds_of(q) if r not in out]
    return out
def props_of(n):
    out = []
    for k in kinds_of(n): out += [p for p in DOMAIN.get(k, ()) if p not in out]
    return out
PAIRS = [(n, p) for n in PARENTS for p in props_of(n)]
DEFINERS = [(n, p) for n in DOMAIN for p in props_of(n)]
OWN = [(n, p) for n in DOMAIN for p in DOMAIN[n]]
add('J01', 'j01', 'sets', OWN); add('J01', 'j01', 'sets', [x for x in DEFINERS if x not in OWN], 't'); add('J01', 'j01', 'each', [(n,) for n in PARENTS])
add('J01', 'j01', 'lists', [x for x in OWN if RANGE[x[1]][1]])
add('J01', 'j01', 'never_set', [(n,) for n in PARENTS]); add('J01', 'j01', 'alone', [(p,) for p in sorted(RANGE)])
NAMED = [(n, p) for n in PARENTS for p in props_of(n) if p != 'type' and (n, p) not in OWN]
add('J02', 'j02', 'rejected', [x + (b,) for x in OWN for b in B]); add('J02', 'j02', 'rejected', [x + (True,) for x in NAMED], 't')
add('J02', 'j02', 'in_list', [x + (w,) for x in OWN if RANGE[x[1]][1] for w in (0, 1, 2)]); add('J02', 'j02', 'in_list', [x + (1,) for x in NAMED if RANGE[x[1]][1]], 't')
add('J02', 'j02', 'validator', product(B, B, (0, 1, 2, 3), ('tuple', 'list', 'set', 'iter', 'gen'))); add('J02', 'j02', 'listing', [(b,) for b in B])
add('J02', 'j02', 'functional', [x + (b,) for x in OWN if not RANGE[x[1]][1] for b in B]); add('J02', 'j02', 'functional', [x + (True,) for x in NAMED if not RANGE[x[1]][1]], 't')

# ---------------------------------------------------------------------------------------------- J17
INTS = ('int', 0, 1, -1, 'negative', 'big', -2 ** 40)
FLOATS = ('float', 0.0, -0.5, 1e-9, -1e-9, 3.5)
LIMITED = [('Link', 'height', INTS), ('Link', 'width', INTS), ('Mention', 'height', INTS), ('Mention', 'width', INTS), ('OrderedCollectionPage', 'startIndex', INTS), ('Place', 'radius', INTS + FLOATS)] + \
    [(n, 'totalItems', INTS) for n in ('Collection', 'OrderedCollection', 'CollectionPage', 'OrderedCollectionPage')]
for n, p, ks in LIMITED:
    add('J17', 'j17', 'limit', product((n,), (p,), ks, B)); add('J17', 'j17', 'constructed', product((n,), (p,), ks))
add('J17', 'j17', 'free', product(('Place',), ('altitude', 'latitude', 'longitude'), INTS + FLOATS)); add('J17', 'j17', 'tool', [(k,) for k in INTS + FLOATS])

# ---------------------------------------------------------------------------------------------- J15
add('J15', 'j15', 'text', [(w,) for w in ('tools', 'engine', 'stringify', 'list', 'tuple', 'dict')])
def instant(whole, part=''):
    p = (part + '000000')[:6]
    return tuple(whole + f + d for f in (['.' + p] if part else ['', '.000000']) for d in ('Z', '+00:00', '+0000'))
TEXTS = (('2014-12-31T23:00:00Z', instant('2014-12-31T23:00:00')), ('2014-12-31T23:00:00.123Z', instant('2014-12-31T23:00:00', '123')), ('2014-12-31T23:04Z', instant('2014-12-31T23:04:00')),
         ('2014-12-31T23:00:05-08:00', instant('2015-01-01T07:00:05')), ('2014-12-31T23:00:00.5+05:30', instant('2014-12-31T17:30:00', '5')), ('2014-12-31T23:01-08:00', instant('2015-01-01T07:01:00')),
         ('2014-02-28T23:59:59Z+00:00', instant('2014-02-28T23:59:59')), ('2014-02-28T23:59:59.000001Z-01:30', instant('2014-03-01T01:29:59', '000001')), ('2014-01-01T00:00:00+14:00', instant('2013-12-31T10:00:00')))
TIMED = ('endTime', 'startTime', 'published', 'updated')
for n, p in [(n, p) for n in ('Object', 'Note', 'Activity', 'Question', 'Collection', 'Event', 'Person') for p in TIMED] + [('Tombstone', 'deleted'), ('Question', 'closed')]:
    add('J15', 'j15', 'property_text', product((n,), (p,), ('context', 'data', 'only', 'nested', 'nested list', 'json'))); add('J15', 'j15', 'as_text', [(n, p) + t for t in TEXTS] if n in ('Object', 'Tombstone', 'Question') else [(n, p) + TEXTS[3]])
add('J15', 'j15', 'many', product(('Question',), ('closed',), ('data', 'context', 'json'))); add('J15', 'j15', 'duration', [(h,) for h in ('data', 'nested', 'context', 'json')])

# ---------------------------------------------------------------------------------------------- J08
add('J08', 'j08', 'one', [x + (False,) for x in OWN])
add('J08', 'j08', 'one', [x + (True,) for x in OWN]); add('J08', 'j08', 'one', [(n, p, b) for n, p in PAIRS for b in B], 't')
for fn in ('every', 'typed', 'context', 'first'): add('J08', 'j08', fn, [(n, b) for n in PARENTS for b in B])
COLL = ('Collection', 'OrderedCollection', 'CollectionPage', 'OrderedCollectionPage')
add('J08', 'j08', 'counted', product(COLL, (0, 1, 2, 3), ('none', None, 0, 1, 7, 'any'), B)); add('J08', 'j08', 'counted_one', product(COLL, ('address', 'map', 'object', 'link', 'nothing'), B)); add('J08', 'j08', 'specific', product(COLL, (None, 0, 5)))

add('J06', 'j06v', 'vocabulary', [x + ('data',) for x in OWN] + [x + (h,) for x in (('Question', 'closed'), ('Object', 'attachment'), ('Collection', 'items'), ('Object', 'name')) for h in ('only', 'nested', 'all')]); add('J06', 'j06v', 'vocabulary', [x + (h,) for x in OWN for h in ('only', 'nested', 'all')], 't'); add('J06', 'j06v', 'filled', [(n,) for n in PARENTS])

# ---------------------------------------------------------------------------------------------- J07
for fn in ('registered', 'parents', 'domain'): add('J07', 'j07', fn, [(n,) for n in PARENTS])
add('J07', 'j07', 'extension', [(n, b) for n in PARENTS for b in B])
add('J07', 'j07', 'nothing_else'); add('J07', 'j07', 'engine'); add('J07', 'j07', 'prop_class', [(p,) for p in sorted(RANGE)])
add('J07', 'j07', 'history', [(n, 'attachment') for n in PARENTS]); add('J07', 'j07', 'history', [(n, p) for n in PARENTS for p in ('tag', 'context', 'preview')], 't')

# ---------------------------------------------------------------------------------------------- J09
FEED = ('dict', 'text', 'item', 'items')
add('J09', 'j09', 'one', [x + ('dict',) for x in OWN if x[1] != 'type']); add('J09', 'j09', 'one', [x + ('dict',) for x in PAIRS if x[1] != 'type'], 't')
add('J09', 'j09', 'every', [(n, 'dict') for n in PARENTS] + [('Note', h) for h in FEED]); add('J09', 'j09', 'extra', [(n, 'dict') for n in PARENTS])
add('J09', 'j09', 'unknown', product(FEED, ('missing', 'unheard', 'foreign', 'empty', 'only id', 'no types', 'any'))); add('J09', 'j09', 'not_object', product(FEED, ('list', 'objects', 'number', 'null', 'broken')))
add('J09', 'j09', 'several', [(h,) for h in FEED]); add('J09', 'j09', 'context', product(('missing', 'text', 'list', 'map', 'null', 'empty', 'no list'), FEED)); add('J09', 'j09', 'deep', product((1, 2, 3), FEED[:2]))
add('J09', 'j09', 'maps', [(h,) for h in FEED]); add('J09', 'j09', 'texts', [(k,) for k in (None, 'number', 'none', 'dict', 'mixed', 'nested', 'set')])

# ---------------------------------------------------------------------------------------------- J23
JH = ('data', 'text', 'item', 'items')
add('J23', 'j23', 'one', [x + ('data',) for x in OWN if x[1] != 'type']); add('J23', 'j23', 'one', [x + ('text',) for x in PAIRS if x[1] != 'type' and (x in OWN or x[0] in ('OrderedCollectionPage', 'Question', 'Travel', 'Mention', 'Invite', 'Image'))], 't')
add('J23', 'j23', 'every', [(n, 'data', 0) for n in DOMAIN] + [(n, h, 1) for n, h in zip(('Question', 'Place', 'OrderedCollectionPage', 'Link'), JH)]); add('J23', 'j23', 'every', [(n, 'data', i) for n in PARENTS for i in (0, 1)], 't'); add('J23', 'j23', 'every', [(n, h, i) for n in DOMAIN if n != 'Question' for h in JH[:2] for i in range(2, 5)], 't')
add('J23', 'j23', 'bare', product(list(PARENTS), ('text',))); add('J23', 'j23', 'nested', product((1, 2, 3), JH[:2])); add('J23', 'j23', 'types', product(JH, ('Note', ['Note'], ['Note', 'Unheard'])))
add('J23', 'j23', 'context', product(JH[:2], ('https://example.org/ctx', ['https://www.w3.org/ns/activitystreams', {'x': 'https://example.org/x'}], {'@vocab': 'https://www.w3.org/ns/activitystreams#'})))

# ---------------------------------------------------------------------------------------------- J03
LINKED = [(n, p) for n, p in PAIRS if 'L' in RANGE[p][0]]
OWNL = [x for x in OWN if x in LINKED]
FORMS = ('data', 'include', 'exclude', 'nulls', 'reject', 'rename', 'transform', 'json', 'min', 'str', 'switched')
add('J03', 'j03', 'single', [x + (FORMS,) for x in OWNL]); add('J03', 'j03', 'single', [x + (('data', 'json'),) for x in LINKED if x not in OWNL], 't')
add('J03', 'j03', 'every', [(n, 'data', (0,)) for n in PARENTS] + [(n, h, (i,)) for n in DOMAIN if n != 'Link' for h in ('data', 'json') for i in (1, 2, 3)])
add('J03', 'j03', 'every', [(n, h, (0, 2)) for n in PARENTS if n not in ('Link', 'Mention') for h in ('data', 'json', 'str', 'nulls', 'switched')], 't')
add('J03', 'j03', 'mine', [(p, h) for p in sorted(RANGE) if 'L' in RANGE[p][0] for h in ('data', 'json')]); add('J03', 'j03', 'around', [x + (h,) for x in OWNL for h in ('data', 'json')])
add('J03', 'j03', 'setting', OWNL); add('J03', 'j03', 'making', OWNL); add('J03', 'j03', 'making', [x for x in LINKED if x not in OWNL], 't')

# ---------------------------------------------------------------------------------------------- J12
FAULTS = ('not JSON', 'decoding', 'cut off', 'no type', 'empty', 'unknown type', 'list', 'number', 'null', 'true', 'wrong value', 'wrong nested', 'bad number', 'expand fails', 'expand breaks', 'request fails')
FOLLOWED = [x for x in OWNL if x[1] != 'url']
add('J12', 'j12', 'fails', [x + (f,) for x in FOLLOWED for f in FAULTS]); add('J12', 'j12', 'fails', [x + (f,) for x in LINKED if x[1] != 'url' and x not in OWNL for f in ('not JSON', 'unknown type', 'request fails')], 't')
add('J12', 'j12', 'follows', [x + ('Note',) for x in FOLLOWED] + [x + (k,) for x in FOLLOWED[:3] for k in PARENTS if k != 'Note']); add('J12', 'j12', 'follows', [x + (k,) for x in FOLLOWED for k in PARENTS if k != 'Note'], 't')
WRONG = ('key', 'value', 'type', 'attr', 'index', 'os', 'runtime', 'stop', 'recursion', 'notimpl', 'assertion', 'timeout', 'http')
add('J12', 'j12', 'wrong', [x + (w, k) for i, x in enumerate(FOLLOWED) for w in ('request', 'body', 'expand') for k in (WRONG if i < 2 else WRONG[i % len(WRONG):][:1])]); add('J12', 'j12', 'wrong', [x + (w, k) for x in FOLLOWED[2:] for w in ('request', 'body', 'expand') for k in WRONG], 't')
for fn in ('by_text', 'no_address', 'outside'): add('J12', 'j12', fn, FOLLOWED)
add('J12', 'j12', 'itself', [x + (k,) for x in FOLLOWED[:6] for k in ('Note', x[0])]); add('J12', 'j12', 'without_link', [(p, b) for p in ('attachment', 'to', 'icon', 'url') for b in B])
add('J12', 'j12', 'direct', OWNL); add('J12', 'j12', 'listed', [x for x in FOLLOWED if RANGE[x[1]][1]]); add('J12', 'j12', 'plain_link', [x + (b,) for x in FOLLOWED for b in B])

# ---------------------------------------------------------------------------------------------- J13
SHAPES = ('one', 'chain', 'reversed', 'child only', 'diamond', 'mixed', 'ends')
MAPS = ('none', 'first', 'second', 'all')
add('J13', 'j13', 'sources', product(SHAPES, MAPS, B)); add('J13', 'j13', 'distinct', product(SHAPES, MAPS, MAPS)); add('J13', 'j13', 'works', product(SHAPES, MAPS))
add('J13', 'j13', 'converted', [x for x in product(SHAPES, ('none', 'all'), ('method', 'own')) if x[0] != 'child only' or x[2] != 'method']); add('J13', 'j13', 'converted', [(s, 'all', 'p', b) for s in SHAPES for b in B])
add('J13', 'j13', 'deletable', product(SHAPES, ('none', 'all'), ('own', 'linked'))); add('J13', 'j13', 'one_each', product(SHAPES, MAPS))
add('J13', 'j13', 'frozen', product(('one', 'chain'), ('namespace', 'objects', 'properties'), B)); add('J13', 'j13', 'named', [(k,) for k in ('none', 'number', 'bytes', 'list', 'class', 'true')]); add('J13', 'j13', 'unmapped', [(k,) for k in ('object', 'property', 'second')])

# ---------------------------------------------------------------------------------------------- J18
USES = ('made', 'listed', 'refreshed', 'written', 'packaged')
BEFORE = [()] + [((n, h),) for n in 'ABCDE' for h in USES] + [((a, 'made'), (b, 'made')) for a in 'ABCDE' for b in 'ABCDE'] + [tuple((n, 'made') for n in 'ABCDE'), tuple((n, 'listed') for n in 'EDCBA')]
add('J18', 'j18', 'listing', [(o,) for o in BEFORE]); add('J18', 'j18', 'values', product('ABCDE', BEFORE[:6] + BEFORE[26:31] + BEFORE[-2:]))
KEYS = ('x', 'y', 'w', 'zz', 'plain', 'method', '', ('x', 'y'), ('x', 'zz'), ['y', 'x', 'z'], (), ('x', 'x'))
add('J18', 'j18', 'indexing', product('ABCDE', KEYS, ((), (('A', 'made'),), (('E', 'listed'),))))
PUSE = [()] + [((n, h),) for n in ('P', 'Q', 'P2', 'Same', 'Two', 'None') for h in ('made', 'named', 'registered')] + [(('P', 'made'), ('Q', 'made')), (('Q', 'named'), ('P', 'registered')), (('P', 'named'), ('P2', 'registered'), ('Same', 'made'))]
add('J18', 'j18', 'unset', product('ABCDE', ((), (('A', 'made'),))))
add('J18', 'j18', 'gone_through', product('ABCDE', (('x',), ('x', 'y'), ('z',), ('x', 'zz'), (), ('w', 'v', 'items'))))
add('J18', 'j18', 'accessors', [('plain',), ('contextual',)])
add('J18', 'j18', 'named', [(o,) for o in PUSE]); add('J18', 'j18', 'linked', product(PUSE, ('P', 'Q', 'P2', 'Same')))

# ---------------------------------------------------------------------------------------------- J14
SIDES = ('A', 'other', 'same object', 'same property', 'all the same', 'objects only', 'properties only', 'nothing', 'similar')
add('J14', 'j14', 'added', [x for x in product(SIDES, SIDES, ('package', 'engines', 'engine', 'list', 'tuple', 'iter'))]); add('J14', 'j14', 'subtracted', product(SIDES, SIDES, ('package', 'engines', 'engine')))
add('J14', 'j14', 'three', [(v,) for v in ('package', 'nested', 'list', 'engines')]); add('J14', 'j14', 'related', [(v,) for v in ('new', 'root', 'leaf')])
add('J14', 'j14', 'again', product(SIDES, SIDES, ('package', 'engine', 'list', 'both')))
add('J14', 'j14', 'engine', [(k,) for k in ('one', 'two', 'sum', 'difference', 'sum of sums')]); add('J14', 'j14', 'wrong', product(('package', 'engine'), '+-', ('none', 'text', 'number', 'list', 'class', 'dict')))
add('J14', 'j14', 'wrong_start', [(k,) for k in ('none', 'number', 'list', 'class', 'empty', 'no iter', 'second', 'third', 'engine')]); add('J14', 'j14', 'package_minus_engine')

# ---------------------------------------------------------------------------------------------- N03
NB = [(None, None), ('c', None), ('d', None), (None, 'f'), (None, 'g'), ('d', 'h'), ('c', 'e'), ('f', 'f'), ('g', 'c'), ('z', None), (None, 'a')]
add('N03', 'n03', 'ranged', [(n, k, o, lo, hi) for n, k in ((1, 3), (2, 2), (2, 3), (2, 4), (3, 3)) for o in ('up', 'mixed') for lo, hi in NB])
add('N03', 'n03', 'ranged', [(n, k, o, lo, hi) for n, k in ((3, 0), (3, 1), (2, 5), (3, 4)) for o in ('up', 'down', 'mixed') for lo, hi in NB], 't')
add('N03', 'n03', 'endless', [(n, k) for n in (1, 2, 3) for k in (0, 1, 2, 3)])
add('N03', 'n03', 'popping', [(n, k, o) for n in (1, 2, 3) for k in (1, 2, 3, 5) for o in ('up', 'down', 'mixed')])
NV = [(1, 2, 3, 4, 5), (5, 4, 3, 2, 1), (2, 1, 3, 2, 1), (3, 1, 3, 1, 3), (1, 1, 1, 1, 1), ('p', 'q', 'o', 'r', 'n'), (0, -1, 2.5, 1, 0), (9, 10, 100, 2, -30), ('p', 'pp', 'Z', 'aaaa', 'o')]
add('N03', 'n03', 'ranged_other', [(n, k, o, kind, lo, hi) for n, k in ((1, 5), (2, 4), (3, 3)) for o in ('up', 'mixed') for kind in ('numbers', 'texts') for lo, hi in ((None, None), (1, None), (None, 2), (0, 2))])
add('N03', 'n03', 'by_value', [(n, k, v, lo) for n, k in ((1, 3), (2, 3), (3, 3), (2, 4)) for v in NV for lo in (('n', 'p', 'z') if isinstance(v[0], str) else (-9, 1, 2, 9))])
add('N03', 'n03', 'by_value', [(n, k, v, lo) for n, k in ((3, 4), (2, 5)) for v in NV for lo in (('n', 'p', 'z') if isinstance(v[0], str) else (-9, 1, 2, 9))], 't')
NL = [([1], [2], [3], [1, 2], [0]), ([2], [2], [0], [2], [1])]
add('N03', 'n03', 'by_value', [(n, k, v, lo) for n, k in ((1, 3), (2, 3), (3, 3)) for v in NL for lo in ([-1], [1, 1])])
add('N03', 'n03', 'collection', [(k, o, lo, hi) for k in (0, 1, 4) for o in ('up', 'down', 'mixed') for lo, hi in NB])
add('N03', 'n03', 'collection_by_value', [(k, v, lo) for k in (0, 1, 4) for v in NV for lo in (('n', 'p', 'z') if isinstance(v[0], str) else (-9, 1, 2, 9))])

# ---------------------------------------------------------------------------------------------- S14
add('S14', 's14', 'a_collection', [(c,) for c in (1, 2, 3, 5, 7, 10, 11)])
add('S14', 's14', 'any_size')
add('S14', 's14', 'around', [(c, l) for c in (32, 37, 99, 101, 167, 1000) for l in (60, 70, 80, 90, 100)])
GP = [((5, 0),), ((5, 3), (5, 5)), ((2, 2), (8, 0), (5, 4)), ((3, 4), (6, 3)), ((10, 6), (10, 7), (10, 8)), ((4, 1), (4, 1)), ((1, 0), (9, 8))]
add('S14', 's14', 'a_group', [(p,) for p in GP])
add('S14', 's14', 'a_container', [(a, b, l) for a in GP[:5] for b in GP[1:4] for l in ((), (0,), (1,), (0, 1), (1, 0))])
add('S14', 's14', 'connection', [(a, b, 'write') for a in (GP[0], ((2, 1), (3, 3)), ((2, 2), (1, 0))) for b in (GP[0], ((1, 1), (2, 1)))] + [(a, b, 'strict') for a in GP[:5] for b in GP[1:3]])
add('S14', 's14', 'live', [(o,) for o in ('write', 'group', 'secondary')])
CUS = [None, (), ((0, 3),), ((1, 3),), ((0, 2), (1, 4)), ((2, 7), (0, 5)), ((0, 5), (3, 1)), ((0, 0),), ((1, -2),), ((4, 9), (2, 3))]
add('S14', 's14', 'built', [(z, e, c, st) for z in (None, 0, 1, 2, 3, 5) for e in (1, 6, 0, -1) for c in CUS for st in B if not (c is None and z is None and st)])
add('S14', 's14', 'twins')
add('S14', 's14', 'again', [(c, z) for c in (((1, 3),), ((2, 7), (0, 5)), ((3, 1),)) for z in (None, 4, 6)])
add('S14', 's14', 'defaults', [(u, c) for u in (None, '', 'u') for c in (None, 1, 7)])
add('S14', 's14', 'planned', [(c, e) for c in (1, 2, 3, 4, 7, 8, 9, 10, 25, 26, 48, 49, 50, 120, 121) for e in (1, 2, 3, 5, 10, 5000)])

# ---------------------------------------------------------------------------------------------- N01
for f in ('composite', 'prime', 'small'): add('N01', 'n01', f)
ND = ('tools', 'engine', 'stringify', 'list', 'dict', 'property data', 'property nested', 'property context', 'property json')
add('N02', 'n02', 'named', [(w,) for w in ND])
add('N02', 'n02', 'every', [(w, k) for w in ND for k in ('positive', 'negative', 'seconds', 'days', 'negative days', 'negative seconds', 'short')])
add('N01', 'n01', 'planned', [(w, 5000 if w == 'default' else e, n) for w in ('first', 'named', 'default', 'next') for e in (1, 2, 3, 7, 100, 5000) for n in (0, 1, 2)])
add('N01', 'n01', 'container', [(c, e) for c in (1, 2, 4, 7, 8, 9, 10, 25, 26, 48, 49, 50, 100, 120, 121) for e in (1, 2, 3, 5, 10, 5000) if c // e < 121])

# ---------------------------------------------------------------------------------------------- J19
LK = [(w, p, o) for w in ('link', 'list', 'update', 'replace', 'foreign', 'remove') for p in ('p', 'q', 's') for o in ('Alpha', 'Beta', 'Delta')]
for u in B:
    add('J19', 'j19', 'changed', [((a,), u) for a in LK])
    for tier, pairs in (('q', [(a, b) for a in LK[::4] for b in LK[1::5]]), ('t', [(a, b) for a in LK for b in LK if a[1] == b[1]])):
        add('J19', 'j19', 'changed', [(ab, u) for ab in pairs], tier)
add('J19', 'j19', 'renewed', product(('Alpha', 'Beta', 'Gamma', 'Delta'), ('link', 'update')))
add('J19', 'j19', 'unknown', [(o, ps) for o in ('Alpha', 'Delta', 'Omega', '') for ps in ((), ('p',), ('s', 'z'), ('z',))])

# ---------------------------------------------------------------------------------------------- J20
COLS = ('Collection', 'OrderedCollection', 'CollectionPage', 'OrderedCollectionPage')
HOW = ('package', 'engine', 'plain')
add('J20', 'j20', 'listed', [(c, h, n, o, g) for c in COLS for h in HOW for n in (0, 1, 2, 5) for o in B for g in ('made', 'later', 'replaced')])
add('J20', 'j20', 'bare', [(c, h, g) for c in COLS for h in HOW for g in ('nothing', 'none', 'empty', 'removed')])
add('J20', 'j20', 'single', [(c, h, i) for c in COLS for h in HOW for i in range(4)])
add('J20', 'j20', 'linked', [(c, 'engine', t) for c in COLS for t in B])
add('J20', 'j20', 'nested', [(c, h) for c in COLS for h in HOW])

# ---------------------------------------------------------------------------------------------- J22
CT = ('ld', 'activity', 'json', 'html', 'none')
LH = ('context', 'context bare', 'contexts', 'same context twice', 'alternate', 'alternate html', 'alternate untyped', 'both', 'contexts and alternate', 'other', 'unreadable', 'none')
add('J22', 'j22', 'described', product(LD, ('call', 'get'), CT, LH))
SAID = (('html', 'both'), ('activity', 'context'), ('ld', 'none'), ('none', 'none'), ('json', 'contexts'))
add('J22', 'j22', 'in_turn', product(LD, ('call', 'get'), SAID, SAID))

# ---------------------------------------------------------------------------------------------- J21
SD = ('A', 'other', 'same object', 'same property', 'all the same', 'objects only', 'properties only', 'nothing', 'similar')
add('J21', 'j21', 'one', [(n,) for n in SD])
add('J21', 'j21', 'several', product(SD, ((), (0,), (0, 1), (1, 0), (0, 0), (0, 5), (5, 0, 6), (9, 8), (2, 1, 0, 1, 7)), ('list', 'tuple', 'iter', 'gen', 'keys')))
add('J21', 'j21', 'bad', product(('A', 'nothing'), ('number', 'none', 'object', 'class', 'bytes in list', 'number second', 'none in tuple', 'nested', 'number first')))
add('J21', 'j21', 'text', [('A', n) for n in ('', 'pk', 'https://example.org/ns#')])
add('J21', 'j21', 'registered', [(m,) for m in ('one', 'two', 'sum', 'twice')])
add('J21', 'j21', 'register', product(('https://example.org/ns#Alpha', 'https://example.org/ns#Beta', 'https://example.org/ns#Gamma', 'default', ''), ('Alpha', 'Extra')))
add('J21', 'j21', 'read', [(ns, h) for h in ('list', 'tuple') for ns in ((), ('Alpha',), ('Alpha', 'Beta'), ('Beta', 'Alpha', 'Beta'), ('Gamma', 'Gamma'), ('Gamma', 'Alpha', 'Beta', 'Gamma'))])
