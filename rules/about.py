"""Texts for the manifest, the evidence files and DESIGN.md (composed by tools/gen_design.py)."""
DEFAULT_TECHNIQUE = 'static: path-sensitive abstract interpretation of byte code against specifications'
DEFAULT_NOTE = ('Library behaviour is as modelled in sa/stubs and sa/builtins_model.py. Paths that the analyser cannot follow are reported as UNDECIDED, '
                'never as violations.')
TECHNIQUE = {}
NOTE = {}
NA = {'N04': 'Which of two concurrent connections sees or loses what is decided by ZODB\'s multi-version storage and its conflict resolution while the '
             'program runs, over schedules of two connections; no construct of this repository decides it (the code neither locks nor resolves '
             'conflicts), so there is no source rule whose violation would be the violation of the property. What the repository does contribute '
             '(begin/commit/abort in the right order, one manager per connection, nothing cached across transactions) is decided by T01-T05 and T07.'}
#: id -> (what is decided, oracle, bounds)
EXPLAIN = {}


def _e(pid, what, oracle, bounds, technique=None):
    EXPLAIN[pid] = (what, oracle, bounds)
    if technique:
        TECHNIQUE[pid] = 'static: ' + technique
    NOTE[pid] = 'Bounds: ' + bounds + ' ' + DEFAULT_NOTE


ABS = 'path-sensitive abstract interpretation of byte code, '
_e('S01', 'Container, group, collection and connection reads are interpreted on a heap whose trees are presence maps: the id, the value and the default are opaque atoms, '
   'everything else stored is a summary ("any other entries"). Truth, equality and order of the value are unknown, so a branch that asks for them splits the state and both outcomes must be right.',
   'the returned reference is the stored atom (identity); the default atom only on the path where no tree holds the id.',
   'all ids, values, contents; 1-3 groups of 1-4 sub-collections.', ABS + 'presence-map heap domain')
_e('S02', 'The place function is executed on an opaque id; its result is a Herbrand term. Each single-id operation is then interpreted on the heap left by another one: the sub-collection touched must be the same abstract location.',
   'the set of trees the effect log says were read or written; the index term is proved within 0..n-1 by the interval/modulo domain; two processes are modelled by making hash() of text a different term per process.',
   '1-4 sub-collections, all ids.', ABS + 'symbolic index terms and effect log')
_e('S03', 'write, then read, on every combination of groups that held the id before; order of the listing enumerated.', 'the value atom written, or of the earliest group holding the id.', '1-3 groups, 1-2 sub-collections; all ids and values.', ABS + 'presence-map heap domain')
_e('S04', 'delete at container and connection level for every subset of groups holding the id, pop and clear of groups and collections; the heap summaries for other ids must be the same terms before and after.', 'list of removed atoms in listing order; no error; other entries untouched.', '1-3 groups; all ids, values, other contents.', ABS + 'presence-map heap domain')
_e('S05', 'create/update with the id held by every subset of groups, in automatic mode, in manual mode and inside a block.', 'overwrite error and unchanged heap, or stored atom; update returns the atom readable before.', '1-3 groups; all ids and values.', ABS + 'presence-map heap domain')
_e('S06', 'Capacity and fill are symbolic integers (interval facts); each adding operation is interpreted strict and not strict, id known and new.', 'on every path: refused iff strict, new id and size == limit; size <= limit afterwards.', 'all capacities and fills; 1-3 sub-collections.', ABS + 'interval domain for sizes')
_e('S07', 'For every operation every path that ends in an exception is compared with the entry heap.', 'trees, group list and settings are the same terms as before.', '1-3 groups/sub-collections, bulk updates of 1-2 tracked ids plus a summary of others.', ABS + 'heap comparison on exceptional exits')
_e('S08', 'Every constructor/assignment path that carries `strict` is interpreted with the flag as True/False/other types.', 'attribute of every sub-collection of the primary; TypeError and same heap for non-booleans.', '1-3 sub-collections; custom definitions included.', ABS + 'flow of one argument to all heap locations')
_e('S09', 'resize/condense with every combination of groups, id presence, manager, condense, transfer, new capacity, and with the primary possibly refusing an insert; a monitor checks at every commit event and at the exit.', 'the id is readable with the value atom read before; groups not condensed are still listed; removed groups returned.', '1-3 groups of 1-2 sub-collections; the tracked id plus a summary of others.', ABS + 'typestate monitor on commit events')
_e('S10', 'As S09 with the event log: pop from the source and insert into the primary must lie between the same two commits.', 'order of events; primary value kept; earlier group wins; transfer empties / no transfer keeps the sources.', '2-3 groups; tracked ids plus summary.', ABS + 'event-order monitor')
_e('S11', 'The generators are interpreted over sub-collections with known and summarised contents; keys/values whose truth, order and equality are unknown or raise.', 'multiset of yielded entries = union of the trees; bounds arrive unchanged at each tree call.', '1-4 sub-collections; entries at tracked positions plus "any others".', ABS + 'generator interpretation')
_e('S12', 'minKey/maxKey/popitem of groups and single collections with every subset of empty sub-collections, with and without bound; keys concrete in every order and symbolic (order facts by case split).', 'the extreme of the qualifying keys, ValueError/KeyError iff none qualifies; only that entry removed.', '1-4 sub-collections.', ABS + 'order facts')
_e('S13', 'membership for every subset; iteration with ids shared by several groups.', 'count of groups; each readable id once with the value atom of a read.', '1-3 groups; tracked ids plus summary.', ABS + 'presence-map heap domain')
_e('S14', 'The metadata objects are read on storages with symbolic and concrete limits; Group.new with every small definition (gaps, wrong types); connections compared with their containers over several operations.', 'sums, ratios and levels recomputed by the specification from the heap; definitions expanded in order.', 'definitions up to 3 keys, limits and fills at and around every threshold; size symbolic where linear.', ABS + 'linear forms')
TX = ABS + 'transaction typestate monitor (begin/commit/abort event log)'
_e('T01', 'Each single operation of both connection kinds with each manager is interpreted with the storage raising at any of its calls, and commit raising.', 'event log: begin, changes, exactly one commit last; or abort, no commit, same exception object out.', 'one operation, two in a row; all ids/values.', TX)
_e('T02', 'Blocks of 0-2 operations, left normally or by Exception/BaseException raised at any point, nested managers.', 'no commit/abort inside; one commit at the end, or abort and the same exception.', 'up to 2 operations and 2 blocks in a row.', TX)
_e('T03', 'As T01/T02 with begin, commit and abort themselves raising, and with managers that refuse a second transaction.', 'after the exit: automatic mode restored, identifier None, next operation commits once.', 'same.', TX)
_e('T04', 'The switch is set in every way (constructor, connection, manager, block) then read and used.', 'reported == used; commit count of the following operation; TypeError and no change for non-booleans.', 'every connection kind and manager.', TX)
_e('T05', 'open/close events of the ZODB model are monitored over opening, blocks (also nested), creating, loading and closing; every library call may raise.', 'per connection object: closed exactly once, by the block that opened it; incompatible databases raise on each path; per storage object: closed if the failing call opened it, open if it was given.', 'nesting 2, two databases, two threads whose uses overlap in 5 ways, a connection that cannot be closed.', ABS + 'open/close typestate')
_e('T06', 'Creating/loading/setup over an existing, an empty and a missing container.', 'existing container object identical afterwards and nothing written; a new one stored and committed, on every kind of storage (a closed storage refuses all use), and usable.', 'both APIs.', ABS + 'event monitor')
_e('T07', 'Each named option is an atom; ZODB constructors record their arguments.', 'each atom arrives at the ZODB parameter of the same meaning, defaults otherwise.', 'each option alone, all together, and pairs.', ABS + 'argument flow')
_e('M01', 'Making, opening, nesting and reading managed storages is interpreted on the ZODB model; every library call at which that matters may raise.', 'root assignments, commits and open/close events of the model: one container and metadata only where missing, committed; each connection closed once by the use that opened it; options and arguments are atoms that arrive; values are atoms.', 'nesting 3, two storages; each option alone and all together.', ABS + 'event monitor and argument flow')
_e('R01', 'Group reads over every combination of databases that hold the id (value any atom, falsy ones included).', 'value of the only holder; duplicate error iff more than one unless multiple; list otherwise.', '0-3 databases.', ABS + 'scripted databases')
_e('R02', 'Timeouts as seconds/timedelta, reads and argument dictionaries per database.', 'the timeout reaches the wait call in seconds; per-database arguments override defaults; nothing mixed up.', '0-3 databases.', ABS + 'scripted databases')
_e('L01', 'Expanding legacy containers with symbolic other contents; refusal and falsy values.', 'each id readable with its atom afterwards.', '0-3 existing and added sub-containers.', ABS + 'presence-map heap domain')
_e('L02', 'Legacy has/get/set/del with symbolic ids.', 'presence map.', '0-3 sub-containers.', ABS + 'presence-map heap domain')
_e('J01', 'For each type and each property of it: set an atom of each declared type, read it back; same for all properties at once.', 'identity (or documented conversion: dates from text, single element lists).', 'every (type, property, value kind) of the vocabulary; values are atoms.', ABS + 'exhaustive over the vocabulary')
_e('J02', 'For each type and property every kind of value outside the declared range, alone and at each position of a list, previous value set or not.', 'the vocabulary table in specs/as_env.pys (written from the W3C vocabulary, independent of the code): raises, previous value kept.', 'lists up to 3 elements; 20 value kinds; setters of one\'s own with up to 3 further checks.', ABS + 'exhaustive over the vocabulary')
_e('J03', 'Producing data/JSON/str of every link-valued property, single and nested, with filters; requests.get/urlopen are effects.', 'effect log contains no request.', 'nesting depth 3.', ABS + 'effect analysis (network)')
_e('J04', 'The context stack is monitored around data()/switches; any property getter may raise.', 'context of every object involved is the entry context on every exit.', 'nesting 3; any interleaving of 3 switches of 2 objects.', ABS + 'context typestate')
_e('J05', 'Contextual properties with accessors that are scripted atoms; every access kind.', 'call log: exactly the accessor registered for the context, once, with the value.', 'two contexts, derived properties.', ABS + 'call log')
_e('J06', 'data()/json() of objects with values of every JSON kind (atoms), every combination of filters and transforms.', 'independent reference of the documented output in the specification.', 'names from a fixed alphabet incl. prefixes/substrings; nesting 3; symbolic length lists.', ABS + 'reference comparison')
_e('J07', 'The package tables are computed abstractly and compared; then histories of use, after which they must be the same.', 'specs/as_env.pys: identifiers, parents, domains of the W3C vocabulary.', 'every type, every property; histories of one use each.', ABS + 'exhaustive over the vocabulary')
_e('J08', 'Each constructor with each keyword alone (each declared kind) and all together.', 'reading the property gives the atom.', 'every (type, property, kind).', ABS + 'argument flow, exhaustive over the vocabulary')
_e('J09', 'from_json with the expander (pyld) scripted to give every expanded form.', 'class registered; each property = the atom given; input dictionary unchanged; ValueError for unknown roots.', 'depth 3, every property and JSON kind.', ABS + 'exhaustive over the vocabulary')
_e('J10', 'The loaders on symbolic addresses split by the regular-language domain (sa/relang.py: scheme, host, path as languages).', 'a request effect only on paths whose facts include every check; the address requested is the atom checked.', 'any host text (regular languages); sequences of two addresses.', ABS + 'regular-language domain for text')
_e('J11', 'requests/JSON decoding raise at any call; the cache is part of the heap.', 'only JsonLdError leaves, with the cause; cache unchanged by failures; hit = document of that address, no request.', 'sequences of up to 4 loads of 2 addresses.', ABS + 'fault injection on the abstract heap')
_e('J12', 'Every way in which following a link may fail, for every link-valued property.', 'returns the stored reference; never raises; non-links cause no request.', 'every link-valued property; lists of 2.', ABS + 'fault injection on the abstract heap')
_e('J13', 'Snapshots of the class heap before/after cloning; behaviours of the clones compared.', 'class dictionaries, bases and property links unchanged; the clone answers like the original.', '7 class shapes (diamonds, overriding, static/nested), 2 packages.', ABS + 'class heap snapshots')
_e('J14', 'All pairs of small packages, + and -, engines of one/many.', 'set algebra on namespaces, right-hand wins.', '2-3 packages of 1-3 classes and properties.', ABS + 'set algebra')
_e('J15', 'Text of times with symbolic fields and offset.', 'instant of the text (calendar in the abstract datetime model) == instant of the value.', 'naive, aware (any offset), each time property and output form.', ABS + 'symbolic date terms')
_e('J16', 'The three copies of the check on address languages.', 'the stated policy as a regular language.', 'any host text over regular classes.', ABS + 'regular-language domain for text')
_e('J17', 'Number setters on symbolic numbers (interval facts).', 'accepted iff >= 0 on every path.', 'every numeric property; ints and floats of any value; lists of 3.', ABS + 'interval domain')
_e('J18', 'Property listings after histories of use; iteration and indexing.', 'properties defined or inherited, each once, by the class structure in the specification.', '7 class shapes, histories of up to 3 uses.', ABS + 'exhaustive small class graphs')
_e('J19', 'Packages of related classes; sequences of link, link by name, replace and remove, with and without use in between; the descendants, a second package and the sources are looked at after each step.', 'the links applied last, by the class structure, recomputed by the specification.', 'one operation of each kind on each class, selected pairs (thorough: all pairs on one property).', ABS + 'exhaustive small class graphs')
_e('J20', 'Each collection type made in a package, by an engine and plain; iterated twice and again after being written.', 'the items given, by identity.', '0-5 items of 4 kinds; single items; nested collections.', ABS + 'exhaustive small shapes')
_e('J21', 'JsonLdPackage.__getitem__ and the registry of JsonLdEngine on packages of nine makeups, with engines made before and after.', 'identifiers and classes as the packages were made, compared by identity.', 'up to 5 identifiers at once from 5 kinds of iterables, one unknown identifier; one further registration.', ABS + 'exhaustive small shapes')
_e('J22', 'Both loaders and both entry points on responses of every content type with every kind of Link header, alone and in turn; parse_link_header and prepend_base of pyld are uninterpreted.', 'the four parts worked out from the response by the specification.', '5 content types, 12 Link headers, two documents in turn.', ABS + 'exhaustive small configurations')
_e('J23', 'Objects of every type with each property set to values of every kind, written with data() or json() and read with from_json, engine[text] and engine[[text]], both interpreted; the types of the nested dictionaries are looked up by a model of the expander, the text of the JSON encoder is uninterpreted (reading it gives what was written into it).', 'the class and the data of the object that was written, compared as trees.', 'one property at a time for every property, all at once, chains of 1-3 nested objects; dates and durations of fixed values (their texts for all values: J15, N02).', ABS + 'exhaustive over the vocabulary')
_e('K01', 'create on scripted file trees; os/shutil/open are effects.', 'no effect before the error; overwrite honoured at each layer; content chosen.', 'paths: missing, file, directory; with any other entries.', ABS + 'file-system effect analysis')
_e('K02', 'destroy on scripted and on unknown directories.', 'each effect target lies inside the directory and belongs to the module; rmtree only on request.', 'paths with trailing slash, dots, prefixes; other entries summarised.', ABS + 'file-system effect analysis')
_e('K03', 'Histories of create/destroy/discover on DbGroup.', 'listing == modules created/found minus destroyed, explicit ones first.', 'up to 3 modules.', ABS + 'scripted file tree')
_e('K04', 'DbModule.size and DbGroup.size are interpreted down to the trees of real databases (ContainerDb, ContainerConnection, Container, Group, Collection) of modules found in a scripted file tree; registry entries are compared with the module they are made from.',
   'the number of entries of all trees of all groups (counted in the specification, not by the code); every connection the database handed out has been closed, also when the size cannot be found out; nothing stored or on disk changes.',
   'up to 3 modules, 1-2 groups of 1-3 sub-collections; all ids, values, other contents.', ABS + 'scripted file tree and connection typestate')
_e('N01', 'is_prime on n = d*e (symbolic d, e) and on an opaque prime (no divisor fact); the search loop is widened to a fixpoint.', 'divisibility facts decide each `%` test; planned * size >= capacity by linear arithmetic.', 'all integers.', ABS + 'divisibility facts and linear arithmetic')
_e('N02', 'The writers on days/seconds/microseconds as symbolic integers; the text is a sequence of literal pieces and integer terms; its denotation is recomputed and compared as a linear form with floor-division normal forms.', 'denoted length == symbolic length, syntax by pieces.', 'every timedelta.', ABS + 'linear forms with floor division')
_e('N03', 'Enumerations of groups whose contents have ids of every relevant order type, distributed over the sub-collections in every way and inserted in ascending, descending and mixed order; values are atoms. '
   'The code uses ids only by comparing them, so one id per order type stands for all ids of that order (data independence; that step is an argument, not checked by the tool).',
   'sortedness of the yielded sequence.', '1-3 sub-collections, up to 4 entries, all distributions.', ABS + 'order types')
