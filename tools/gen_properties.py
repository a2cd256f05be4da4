#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    assert len([s for s in statement.replace('e.g.', 'eg').split('. ') if s.strip()]) <= 3, id
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

COL = 'citrine/storage/collection.py'; GRP = 'citrine/storage/group.py'; CON = 'citrine/storage/container.py'
TRN = 'citrine/storage/transaction.py'; CC = 'citrine/connection/container_connection.py'
CDB = 'citrine/database/containerdb.py'; CCL = 'citrine/client/container_client.py'
PER = 'citrine/persistence.py'; CN = 'citrine/connection/connection.py'; GC = 'citrine/connection/group_connection.py'
REG = 'citrine/cluster_tools/clusterdb/container.py'; DM = 'citrine/cluster_tools/dbmodule/dbmodule.py'; DG = 'citrine/cluster_tools/dbmodule/dbgroup.py'
BASE = 'jsonld/base.py'; JL = 'jsonld/jsonld.py'; KAM = 'jsonld/kamino.py'; PKG = 'jsonld/package.py'
JIN = 'jsonld/engine/json_input.py'; ENG = 'jsonld/engine/jsonld_engine.py'; DOC = 'jsonld/docloader.py'
TYP = 'jsonld/tools/type.py'; URL = 'jsonld/tools/url.py'; DT = 'jsonld/tools/datetime.py'; NUM = 'jsonld/tools/number.py'; EU = 'jsonld/engine/utils.py'
MOD = 'activitystreams/models.py'; PRP = 'activitystreams/properties.py'; APK = 'activitystreams/package.py'

prop('S01', 'Whatever was stored is what every read returns',
     'Reading an id that is stored returns exactly the stored value, whatever that value is, including values that are false, zero, empty or None. The caller\'s default is returned only when the id is stored nowhere. This holds for single-id reads and for reads of several ids at once, at the collection, group, container and connection level.',
     ['inputs', 'histories'], 'every id, every stored value of any truthiness, every default, and every arrangement of groups in the container',
     'The tests store a handful of truthy strings and objects; they never store a falsy value and cannot enumerate values.',
     [COL, GRP, CON, CC], [('Collection.get', COL), ('Group.get', GRP), ('Container.read', CON), ('ContainerConnection.read / __getitem__', CC)])
prop('S02', 'Every single-id operation on a group addresses the same sub-collection',
     'Within a group, the sub-collection that an id is stored in is a function of the id and of the number of sub-collections only, and is always one of the existing sub-collections. Reading, testing, inserting, bulk updating, popping and set-default all address that same sub-collection for the same id, in every process and at every time.',
     ['inputs', 'histories'], 'every id and every number of sub-collections, and every pair of operations on the same id',
     'The tests compare a few ids on a few group sizes; agreement of all operations for all ids is a claim about the code, and process-dependence cannot show inside one test process.',
     [GRP], [('get_group_index', GRP), ('groupfn', GRP), ('Group.update', GRP)])
prop('S03', 'A write is what the next read sees; the primary group shadows the others',
     'After writing a value at an id, reading that id returns that value, whether or not the id was already stored in the primary group or in any other group, and the container still reports the id as present. Writes go to the primary group only, and when several groups hold the same id a read returns the value of the primary, otherwise of the earliest group in the listing.',
     ['inputs', 'histories'], 'every id, every value, every combination of groups already holding the id, and containers built with the primary at any position of the listing',
     'The tests use one or two fixed group layouts; they never read an id that more than one group holds with the primary not first.',
     [CON, GRP, COL], [('Container.write', CON), ('Container.read', CON), ('Container.__init__', CON)])
prop('S04', 'Delete removes an id from every group and returns what was removed',
     'Deleting an id removes it from every group that holds it, returns the values removed in group order, and leaves the id unreadable afterwards. It neither fails when some (or all) groups do not hold the id nor removes or changes anything stored under any other id; popping from a group or collection does the same there. Clearing a group or collection leaves nothing in it.',
     ['inputs', 'histories'], 'every id and every subset of groups holding it',
     'The tests delete ids held by all groups of the fixture; a container whose groups hold different ids is never deleted from.',
     [CON, GRP, COL], [('Container.delete', CON), ('Group.pop', GRP), ('Collection.pop', COL)])
prop('S05', 'Create never overwrites; update always replaces and returns the old value',
     'Creating an object at an id that is stored in any group, whatever its value, raises the overwrite error and changes nothing; otherwise the object is stored. Updating stores the new value whether or not the id exists and returns the value previously readable at that id, or None if there was none.',
     ['inputs', 'histories'], 'every id, every old and new value of any truthiness, and every group holding the id',
     'The tests create twice with one truthy value in the primary group; existing ids in secondary groups and falsy values are never tried.',
     [CC, CON], [('ContainerConnection.create', CC), ('ContainerConnection.update', CC), ('Container.has', CON)])
prop('S06', 'Strict capacity is never exceeded, and nothing else is ever refused',
     'In strict mode no operation that adds a new id (insert, bulk update, set-default) may leave a collection with more objects than its maximum; it raises a capacity error instead. In non-strict mode no operation is refused for capacity, and in either mode replacing the value of an id already stored, or adding one while there is room, is not refused.',
     ['inputs', 'histories', 'configurations'], 'every fill level relative to the maximum, both modes, stored and unstored ids, every adding operation',
     'The tests fill small collections through insert only; set-default, updates that mix old and new ids, and overwrites at the limit are not covered.',
     [COL, GRP, CON], [('Collection.insert/update/setdefault', COL), ('Group.insert/update', GRP), ('Container.write', CON)])
prop('S07', 'A rejected operation changes nothing',
     'When a storage operation (insert, bulk update, pop, write, create, a resize to a capacity below the number of stored objects) raises an error, the set of stored ids, every stored value and the list of groups are exactly what they were before the call. In particular a bulk update that does not fit in one sub-collection stores none of its entries in any other.',
     ['inputs', 'histories'], 'every state and argument for which the operation raises',
     'The tests assert that an exception is raised but not that all other state is intact, and never reject a bulk update after its first sub-collection.',
     [COL, GRP, CON, CC], [('Collection.update', COL), ('Group.update', GRP), ('Container.write', CON)])
prop('S08', 'The strict setting reaches every collection and survives every construction',
     'Creating a group, container or database file with the strict setting, connecting to a database that gets its first container by that, resizing a container, or assigning the strict setting yields storage whose primary group, and every sub-collection of it, has exactly that setting. Assigning a non-boolean raises a type error and changes nothing.',
     ['configurations', 'histories'], 'both settings, every creation path (group, container, database, client, resize) and every number of sub-collections',
     'The tests read the strict flag back for some constructors only, not for the sub-collections of every creation path.',
     [GRP, CON, CDB, CCL], [('Group.new / Group.strict', GRP), ('Container.new / resize', CON), ('ContainerDb.create', CDB), ('ContainerClient.connect', CCL)])
prop('S09', 'Resizing and condensing never lose or hide an object',
     'While a container is resized or condensed, with or without a transaction manager and with any combination of condense and transfer, every object that was readable before remains readable with the same value at every commit and after the operation, including when it stops with an error. Groups that were not condensed are still in the container afterwards, and the removed groups are returned.',
     ['histories', 'crash_points', 'configurations'], 'every commit point and error point of resize and condense, every placement of an id in primary/secondary groups, all flag combinations',
     'The tests look at the container only after a complete successful resize; state at intermediate commits and after failures is unobserved.',
     [CON, GRP, COL], [('Container.resize', CON), ('Container.condense', CON)])
prop('S10', 'Moving objects between groups is atomic per object and keeps the newest value',
     'When objects are condensed into the primary group under a transaction manager, no commit separates the removal of an object from its source group from its insertion in the primary, and an id held by several groups keeps the primary\'s value, or else that of the first group in the listing that holds it. Without transfer the source groups keep their contents; with transfer they are emptied of every id they held.',
     ['histories', 'crash_points'], 'every id in every source group, present or absent in the primary, transfer on and off, with and without a transaction manager',
     'The tests check end states with disjoint ids; order of removal, insertion and commit and conflicting ids are not observable in them.',
     [CON], [('Container.condense', CON)])
prop('S11', 'Enumerations visit everything stored and never look at truthiness',
     'Enumerating keys, values or items of a group yields the contents of every sub-collection, each exactly once and passing the range bounds on unchanged, and whether an entry is produced never depends on its key or value being truthy, comparable or not None.',
     ['inputs', 'histories'], 'every content of the sub-collections including empty-string ids and falsy values, every range bound',
     'The tests enumerate fixtures with non-empty string keys and truthy values only.',
     [GRP, COL], [('Group.keys/values/items', GRP), ('Group.iterkeys/itervalues/iteritems', GRP)])
prop('S12', 'Smallest/largest-key queries work when some sub-collections are empty',
     'Asking a group for its smallest or largest key, or to pop its first item, considers exactly the non-empty sub-collections and fails only when nothing in the group qualifies; popping removes exactly the returned entry. The optional bound is passed on to every sub-collection.',
     ['inputs', 'histories'], 'every distribution of contents over the sub-collections including empty ones',
     'The fixtures fill every sub-collection, so the empty case never arises.',
     [GRP, COL], [('Group.minKey/maxKey/popitem', GRP)])
prop('S13', 'Container membership and iteration agree with what is stored',
     'Testing an id for membership in a container is true exactly when some group holds it, and the presence query returns the number of groups holding it. Iterating a container yields every readable id exactly once, paired with the value that reading it returns.',
     ['inputs', 'histories'], 'every id and every subset of groups holding it',
     'No test exercises the membership operator or iteration.',
     [CON], [('Container.has', CON), ('Container.__contains__ / __iter__', CON)])

prop('S14', 'Reported sizes, limits and usage are real; groups are built as defined',
     'Size, limit, share used and health level reported by collections, groups and containers (and their metadata objects) follow from what is stored and from the limits given: a group adds up its sub-collections and is as urgent as the most urgent one, a container (and a connection to it) reports its primary group for capacity, use and level and all groups for size. A new group has the sub-collections its definition asks for, gaps filled, in order, however often the definition is used (it is left as it was); impossible definitions are refused.',
     ['inputs', 'histories'], 'every content, every limit, every definition', 'Numbers derived from runtime contents; tests sample a few.',
     [COL, GRP, CON, CC], [('CollectionMeta.status', COL), ('GroupMeta', GRP), ('Group.new', GRP), ('ContainerMeta', CON), ('ContainerConnectionMeta', CC)])
prop('T01', 'Each automatic operation is one transaction: all or nothing',
     'With automatic commits on, a create, update or delete begins a transaction, performs its changes, and commits exactly once after them if it succeeds, or aborts and re-raises the original error without committing if it fails; the operation\'s result is returned. The commit never precedes a change made by the operation.',
     ['histories', 'fault_sequences'], 'every operation, every return and error path of the wrapped operation, for the current and the legacy connection classes',
     'The tests observe success paths through one connection; ordering of commit against writes on every error path is not observed.',
     [TRN, CC, PER, CN], [('autocommit', TRN), ('autocommit (legacy)', PER), ('ContainerConnection.create/update/delete', CC)])
prop('T02', 'A transaction block commits once at its end or aborts on error',
     'Inside an explicit transaction block no operation commits or aborts on its own; leaving the block normally commits exactly once, leaving it with any exception aborts, never commits, and lets the exception propagate.',
     ['histories', 'fault_sequences'], 'every sequence of operations inside a block, every exit (normal, exception), each transaction manager and connection class',
     'The tests leave blocks normally or with one exception; that no operation commits early is not checked for every operation.',
     [TRN, CC, PER, CN], [('TransactionManager.__enter__/__exit__', TRN), ('ThreadTransactionManager.__exit__', TRN), ('ContainerConnection.__exit__', CC)])
prop('T03', 'Automatic-commit mode is restored on every way out of a block',
     'After a transaction block ends in any way, including when the final commit or abort itself raises or when the transaction could not even be started, the transaction manager is back in automatic mode and holds no stale transaction identifier, so that the next single operation is committed on its own. Automatic mode is off for exactly the duration of the block.',
     ['histories', 'fault_sequences'], 'every exit path of a block including failing commit and failing abort',
     'No test makes the commit itself fail.',
     [TRN, PER, CC], [('TransactionManager.__exit__', TRN), ('ThreadTransactionManager.__exit__', TRN)])
prop('T04', 'The automatic-commit switch has one value, honoured everywhere',
     'A connection created with automatic commits off, or with the switch set later, performs no commit for single operations until it is set on again or a transaction block ends, also when more connections are opened with its manager; the value reported by the connection is the value its transaction manager uses. Setting it to a non-boolean raises a type error and changes neither.',
     ['histories', 'configurations'], 'both values, construction time and later assignment, followed by every operation',
     'The tests toggle the property and read it back; they do not check that the constructor argument governs commits.',
     [CC, TRN], [('ContainerConnection.__init__', CC), ('autocommit property', CC)])
prop('T05', 'Opening an incompatible database is refused and temporary connections are closed',
     'Opening a connection to a database that lacks a container raises the incompatible-database error on every path. Leaving a database used as a context manager closes the very connection it handed out, on normal exit and on exceptions, without swallowing them, nested uses and those of several threads each close their own; connections opened internally while creating or loading are closed, also on failure. Closing a database closes its storage, even if opening it first had to initialise it, and an opening that fails closes the storage it opened itself and leaves a storage it was given open.',
     ['configurations', 'fault_sequences'], 'databases with and without a container, normal and exceptional exits',
     'The tests cover one incompatible database and normal exits.',
     [CC, CDB], [('ContainerConnection.__init__', CC), ('ContainerDb.__enter__/__exit__', CDB), ('ContainerDb.__init__', CDB)])
prop('T06', 'Opening or connecting never replaces an existing container',
     'Loading, opening or connecting to a database that already has a container, even one whose container is empty, never assigns a new container to it; a new one is stored, and committed, only when none exists. The first opening of a database without content succeeds for every kind of storage (a file, a path, none at all, a client) and the database can be used.',
     ['histories', 'configurations'], 'databases with a container of any content, without one, and storages that fail on first load; local and client databases',
     'The tests never open an existing database on the recovery path or through the client.',
     [CDB, CCL, CN], [('ContainerDb.__init__', CDB), ('ContainerClient.connect', CCL), ('CitrineConnection.setup', CN)])

prop('M01', 'A managed storage keeps its contents and closes its temporary connections',
     'A managed storage made new gets one container and one metadata object, committed; making or opening it over existing ones keeps those and everything stored in them. Each use as a context manager and each read by subscript closes exactly the connection it opened, also when nested, used by several threads or left with an error, which is not swallowed, and a storage that cannot be set up leaves none open. The options of the storage and the manager and time of an opening reach the underlying database and connection unchanged, and the method that would close the database together with a connection is refused.',
     ['histories', 'configurations', 'fault_sequences'], 'storages with and without container and metadata, every option, every nesting and exit of uses',
     'No test touches this module.',
     ['citrine/storage/storage.py', CN, 'citrine/exceptions.py'], [('ManagedStorage.new', 'citrine/storage/storage.py'), ('ManagedStorage.__enter__/__exit__', 'citrine/storage/storage.py'), ('ManagedConnection.setup', CN), ('override_method', 'citrine/exceptions.py')])
prop('T07', 'Opening options reach the database, storage and client unchanged',
     'Every option given when a database is created, opened or connected to (pool, cache and historical settings, names, flags, storage and client options) reaches the database, storage or client it is meant for with exactly the given value, also when opening had to initialise the storage first. An option that is not given keeps the documented default.',
     ['configurations'], 'every option alone and all options together, with any value, on every way of opening',
     'The tests open databases with default options only; two options that are swapped or dropped look alike with defaults.',
     [CDB, CCL], [('ContainerDb.__init__ / create / load / new', CDB), ('ContainerClient.connect', CCL)])

prop('R01', 'A multi-database read returns what was found, and duplicates are an error',
     'Reading an id from a group of databases asks every database; it returns None if none has it, the single value if exactly one has it, and raises the duplicate-id error when more than one has it, unless multiple results were asked for, in which case every located value is returned with its connection.',
     ['inputs', 'schedules', 'configurations'], 'every number of databases holding the id, both modes, with and without a timeout',
     'The module has no tests.',
     [GC], [('GroupReadConnection.read', GC)])
prop('R02', 'A multi-database read honours its timeout and its connection arguments',
     'When a timeout is given the reads run under an asynchronous timeout of exactly that duration (including fractions of a second and durations over a day), and without one no timeout applies. Per-database connection arguments override the defaults when connections are opened.',
     ['inputs', 'configurations'], 'every timeout duration and every set of per-database arguments',
     'The module has no tests.',
     [GC], [('GroupReadConnection.__init__', GC), ('GroupReadConnection.read', GC)])

prop('L01', 'Expanding a legacy container keeps every object readable',
     'After a legacy database container is expanded to more sub-containers, every object stored before is still readable at its id with the same value, and counts as present; an expansion to the same or a smaller size is refused and changes nothing.',
     ['inputs', 'histories'], 'every id, every value, every pair of sizes',
     'The legacy container has no tests.',
     [PER], [('DbContainer.expand_size', PER)])
prop('L02', 'Legacy containers route every operation for an id to the same place',
     'In a legacy database container, presence test, read, write and delete of an id all address the same sub-container, which is a function of the id and the number of sub-containers only; in the cluster registry they all address the same entry. Reading an absent id gives None and deleting removes exactly that id.',
     ['inputs', 'histories'], 'every id and every number of sub-containers',
     'Neither container has tests.',
     [PER, REG], [('DbContainer', PER), ('ClusterRegistryContainer', REG)])

prop('J01', 'Every vocabulary property reads back what was set, on that object only',
     'For every vocabulary class and every property it supports, setting an accepted value and reading the property back yields that value (in its normalised form: links for addresses, time values for time strings), and a property never set reads as None. Setting one property changes no other property of the object and nothing on any other object.',
     ['inputs', 'programs'], 'every class, every property, every accepted value, every pair of properties',
     'The vocabulary layer has no tests; the claim spans some 1500 class/property pairs.',
     [PRP, APK, PKG], [('property classes', PRP), ('property_mapping', APK), ('JsonLdPackage.link_property', PKG)])
prop('J02', 'Values outside a property\'s declared range are rejected before being stored',
     'Setting a property to a value whose type is outside the range the vocabulary declares for it raises an error and leaves the previous value in place, also when the bad value is an element of a list; every type in the declared range, and None, is accepted. Properties that the vocabulary marks as functional do not accept a list; a setter made with the setter validator applies every further check it was given to each value and element.',
     ['inputs', 'programs'], 'every property, every combination of value kind (in range, out of range, list with one bad element, None)',
     'The vocabulary layer has no tests.',
     [PRP, TYP, MOD], [('SetterValidator / evaluate_value', TYP), ('property setters', PRP)])
prop('J03', 'Producing JSON never reaches the network',
     'Turning any object, with any properties set and with nested objects and links at any depth, into a dictionary, JSON text or string performs no network request: links appear as their address. Neither does making an object or setting a property on one.',
     ['inputs', 'programs'], 'every class, every link-valued property, single links, lists of links and nested objects',
     'The vocabulary layer has no tests, and a test run without network cannot distinguish a failed request from none.',
     [JL, PRP, MOD, BASE], [('PropertyJsonLD.data', JL), ('getter_context', BASE), ('Link.href_only / Link.expand', MOD)])
prop('J04', 'The serialisation context never leaks out of an operation',
     'After producing data from an object, or changing its class, whether the operation succeeds or raises, the object is back in the context it was in before, also when such operations nest; a property read afterwards behaves as it did before.',
     ['histories', 'fault_sequences'], 'every nesting of context switches and every exit, including exceptions raised by a property',
     'The layer has no tests.',
     [BASE, JL], [('JsonContextAwareManager', BASE), ('PropertyJsonLD.data', JL)])
prop('J05', 'A contextual property uses the accessor of the current context, else the default',
     'Reading, setting or deleting a contextual property calls the accessor registered for the object\'s current context, or the default accessor when that context has none, exactly once with the given value. Defining a new default accessor on a property leaves the property it was derived from unchanged, and a missing accessor raises an attribute error.',
     ['inputs', 'programs'], 'every context, registered or not, every accessor kind, every order of registrations',
     'The layer has no tests.',
     [BASE], [('ContextualProperty', BASE)])
prop('J06', 'JSON output is faithful: right keys, right values, nothing dropped',
     'The data produced for an object contains exactly its properties that are not None (or all, if asked), minus the excluded and limited to the included ones, under their public names; values keep their JSON type (strings, numbers, booleans and null are unchanged, collections become lists or dictionaries element by element, nested objects become dictionaries without their own context entry). Filters match whole property names only, and transformations given for a property are applied to its value.',
     ['inputs', 'programs'], 'every object, every combination of filter arguments, every kind of value at any nesting',
     'The layer has no tests.',
     [JL], [('PropertyJsonLD.data', JL), ('PropertyJsonLD.__handler', JL)])
prop('J07', 'Vocabulary is complete: each type and property is registered where it belongs',
     'Every type of the Activity Vocabulary is registered under its own namespace identifier with the parent types the vocabulary gives it, and every property is available on exactly the types in its domain and on their subtypes; using objects of the unpackaged classes with a package leaves all of this as it is. A type derived from one of them is registered under the type name it states, or else inherits.',
     ['programs'], 'every type and property of the vocabulary',
     'The layer has no tests; a wrong entry in a 60-line table is invisible until that property is used.',
     [APK, MOD, PRP], [('pkg_classes / pkg_properties / property_mapping', APK)])
prop('J08', 'Constructor arguments end up in the property of the same name',
     'Constructing any vocabulary object with a keyword argument named after one of its properties leaves that property with that value; no argument is dropped, swapped or overwritten on the way through the parent constructors. The class of a named type keeps that type name. The total-items count is the number of listed items unless given.',
     ['inputs', 'programs'], 'every class and every constructor argument of it, plain and inside a package',
     'The layer has no tests; forwarding 40 keyword arguments through five constructors is exactly what sampling misses.',
     [MOD], [('model constructors', MOD)])
prop('J09', 'JSON input becomes an object of the type it names, or an error',
     'Parsing JSON whose expanded type is registered yields an object of that registered class with every property of that class taken from the input; a root whose type is missing or unknown raises a value error, and a nested object of unknown type becomes None. The dictionary passed in is not modified.',
     ['inputs'], 'every registered type, unknown and missing types, nested values of every JSON kind',
     'The layer has no tests.',
     [JIN, ENG, KAM], [('PropertyJsonIntake.from_json', JIN), ('_get_object_class / _unpack_objects', JIN), ('register_class', ENG)])
prop('J10', 'No document is requested from an address that fails the URL policy',
     'The document loaders issue a request only after the address passed every check: scheme http or https, a host present, no character outside the allowed set anywhere in the host, and https when the loader is secure; otherwise they raise without any request. The request goes to the address that was checked, with the loader\'s headers.',
     ['inputs', 'configurations'], 'every address and both security settings',
     'The loaders have no tests.',
     [DOC], [('RequestsJsonLoader.get', DOC)])
prop('J11', 'Loader failures surface as loader errors and are never cached',
     'Any failure while loading a document is raised as a JSON-LD loading error carrying the cause; a failed load stores nothing in the cache. A cached address is served without a new request and with the document loaded for that very address.',
     ['inputs', 'fault_sequences', 'histories'], 'every failure point of a load, every sequence of loads',
     'The loaders have no tests.',
     [DOC], [('CachedRequestsJsonLoader.__call__', DOC), ('RequestsJsonLoader.__call__', DOC)])
prop('J12', 'A link that cannot be followed leaves the link in place and never raises',
     'Reading a link-valued property yields the object the link refers to when it can be fetched and built, and otherwise, on any failure of the request or of building the object, the stored value itself; it never raises because of the remote side. Values that are not links are returned as stored without any request.',
     ['inputs', 'fault_sequences'], 'every link-valued property, every failure of the request or of the construction',
     'The layer has no tests.',
     [MOD, PRP], [('Link.get', MOD), ('Link.expand', MOD)])
prop('J13', 'Building a package leaves the source classes untouched and its identity fixed',
     'Creating a package from classes and properties changes nothing on those classes: they keep their attributes, accessors and parents, so several packages can be built from them. The classes of a package behave like the given ones (methods, static methods, properties, overriding), one for each given class and each package with its own, and an object of a given class that is used with a package becomes one of the package\'s class and keeps its data. A package\'s namespace, classes and properties cannot be reassigned after construction, and its namespace must be a string.',
     ['programs', 'histories'], 'every class given to a package, every number of packages built from the same classes, every attempted reassignment',
     'The layer has no tests.',
     [KAM, PKG], [('ClassCloner.clone_classes', KAM), ('JsonLdPackage', PKG)])
prop('J14', 'Combining packages: the right-hand side wins, subtraction removes exactly it',
     'Adding two packages gives a package that has every class and property of both, the right-hand one winning where namespaces collide, and keeps their property assignments; subtracting removes exactly the classes and properties the other package has. Engines accept one package or several and can be combined with packages and engines; anything else raises a type error.',
     ['inputs', 'programs'], 'every pair of packages or engines with disjoint or overlapping namespaces',
     'The layer has no tests.',
     [PKG, ENG], [('JsonLdPackage.__add__/__sub__', PKG), ('JsonLdEngine.__init__/__add__/__sub__', ENG)])
prop('J15', 'A time value is written as the instant it denotes',
     'The text produced for a time value denotes the same instant: a time carrying a UTC offset is converted to UTC before it is written with the UTC designator. Every time-valued property emits this text and never a raw time object.',
     ['inputs'], 'every time value, with and without an offset, every time-valued property',
     'The layer has no tests.',
     [DT, PRP, EU], [('datetime_str', DT), ('stringify_datetime', EU), ('time getters', PRP)])
prop('J16', 'The address check rejects bad hosts and agrees everywhere it is implemented',
     'An address is accepted only if its scheme is http or https (https only when security is required), it has a host, and no character anywhere in the host is outside letters, digits, underscore, dot, colon and hyphen; everything else is rejected without raising. All copies of the check in the code base give the same answer.',
     ['inputs', 'configurations'], 'every address and both security settings, for each implementation',
     'The layer has no tests.',
     [URL, EU, DOC], [('validate_url', URL), ('validate_url (engine)', EU), ('RequestsJsonLoader.get', DOC)])
prop('J17', 'Numeric limits are enforced wherever the vocabulary demands them',
     'The properties that the vocabulary declares non-negative (height, width, radius, start index, total items) reject every negative value, alone or in a list, with an error and keep the old value, accept zero, positive values and None, and altitude, latitude and longitude accept negative values.',
     ['inputs'], 'every numeric property and every sign',
     'The layer has no tests.',
     [NUM, PRP], [('is_nonnegative', NUM), ('numeric setters', PRP)])

prop('J18', 'A class lists all of its properties, whatever was used before',
     'The property list of a class and of its objects holds exactly the properties the class defines or inherits, each once, whatever other classes were made, used or packaged before. Going through an object yields each of its properties with its value, indexing yields exactly the properties asked for and is a key error for anything else, and a property class stands for its own property.',
     ['programs', 'histories'], 'every class hierarchy, every order in which its classes are first used, every set of names',
     'The layer has no tests, and the defect a test would have to find depends on the order in which unrelated classes are used first.',
     [BASE, KAM, PKG], [('PropertyAwareObject.__get_properties__', BASE), ('PropertyAwareObject.__iter__ / __getitem__', BASE), ('JsonProperty', BASE)])

prop('J19', 'Linking or unlinking a property of a package class takes full effect',
     'After a property is linked to, replaced in or removed from a class of a package, that class and the classes derived from it have, list, go through and write exactly the properties then linked to them or to their nearest parent, through the accessors of the class linked last. Other packages made of the same classes, and the source classes, stay as they are, and a name that is not in the package is refused and links nothing.',
     ['programs', 'histories'], 'every sequence of linking, replacing and removing, every class and its descendants, objects made and written at any point in between',
     'The layer has no tests; a property that is linked late is read back correctly and only missing from what is written.',
     [PKG, BASE], [('JsonLdPackage.link_property / link_properties', PKG), ('JsonLdPackage.update_property_link / remove_property_link', PKG), ('PropertyAwareObject.__get_properties__', BASE)])

prop('J20', 'Going through a collection yields exactly its items',
     'Iterating a collection, ordered or not, or a page of one yields each of its items once, in order, however often it is done: nothing when there are none, and the one item when its items are a single object or link rather than a list. A single link that can be followed stands for what it leads to.',
     ['inputs', 'histories'], 'every collection type inside and outside packages, every number and kind of items, given at once or later',
     'The layer has no tests; the cases without items and with a single one are the ones that fail.',
     [MOD], [('Collection.__iter__', MOD)])

prop('J21', 'Look-ups in packages and engines give exactly what is registered',
     'A package gives for an identifier the class or property of that identifier, for any other None, and for several identifiers (from any iterable) the results in the order asked for; what is no text is an error. An engine knows each class of its packages under its identifier and its name and shares that with no other engine; registering an identifier it has is refused and changes nothing. A list of JSON texts gives one object for each, in order.',
     ['inputs', 'histories'], 'every identifier, every number and source of identifiers, engines made before and after, registration of further classes',
     'The layer has no tests.',
     [PKG, ENG], [('JsonLdPackage.__getitem__', PKG), ('JsonLdEngine', ENG)])

prop('J22', 'A loaded document is described as its response describes it',
     'What a loader gives for an address holds the body of the response, the address the response came from after any redirects, its content type (application/octet-stream when it names none) and, unless the content is JSON-LD itself, the context its Link header names; more than one such context is an error, and without one there is none. A Link header offering JSON-LD as an alternate to content that is no JSON makes the content type and the address those of the alternate. None of it is taken from another response.',
     ['inputs', 'histories'], 'every combination of content type and links, each loader and entry point, documents loaded in turn',
     'The layer has no tests and needs a server to try.',
     [DOC], [('RequestsJsonLoader.get', DOC)])

prop('J23', 'What an object writes is read back as the same object',
     'The data or the JSON text of an object of a package that names its type, read by the engine of that package, gives a new object of the same class that writes the same data again: no property is lost, added, moved or changed, at any depth. Neither the data nor the object it was written by is changed by reading it.',
     ['inputs'], 'every type, every property with values of every kind it takes (empty, false and zero ones among them), each way in and out, nested objects and lists',
     'The claim ties writing, reading and every setter together; the layers have no tests.',
     [JIN, JL, PRP, MOD], [('PropertyJsonIntake.from_json', JIN), ('PropertyJsonLD.data / json', JL)])

prop('K01', 'Creating a database module never overwrites one unless told to',
     'Creating a database module at a path that exists raises an error before anything is created or written unless overwriting was explicitly requested; the overwrite request is honoured as such at every layer and is not taken for another option. The discoverable setting selects the file content it names.',
     ['inputs', 'configurations', 'fault_sequences'], 'existing and missing paths, both settings of each option, each entry point',
     'The module has no tests.',
     [DM, DG], [('create_dbmodule', DM), ('DbModule.create', DM), ('DbGroup.create_dbmodule', DG)])
prop('K02', 'Deleting a database module touches only that module\'s own files',
     'Deleting a database module removes only regular files inside the given directory that belong to the module (its own name as prefix, or the package marker file), removes the directory only if nothing is left in it and that was requested, and removes a whole tree only on explicit request. Every file system call it makes has its target inside the given directory.',
     ['inputs', 'configurations'], 'every directory content and every combination of options, each entry point',
     'The module has no tests.',
     [DM, DG], [('delete_dbmodule', DM), ('DbModule.destroy', DM), ('DbGroup.destroy_dbmodule', DG)])
prop('K03', 'Registered modules and the group listing stay in step',
     'Creating a module through a group makes it part of the listing under its own name, destroying it removes it from the listing, and discovery lists exactly the modules found under the root, with explicitly supplied modules taking precedence. The databases of the group are those of the listed modules, under the same names; a module that could not be destroyed stays listed.',
     ['inputs', 'histories'], 'every sequence of create, destroy and discovery',
     'The module has no tests.',
     [DG], [('DbGroup', DG)])

prop('K04', 'The size of a module or group is what its databases hold',
     'The size of a database module is the number of objects held by all groups of its database, the size of a group of modules the sum of the sizes of the modules it lists. Asking for a size never fails because of the kind of connection, changes nothing, and leaves no connection open, also when it fails. An entry made for a module in a registry holds the name and path (and, where it records one, the size) of that module.',
     ['inputs', 'histories', 'fault_sequences'], 'every content of every database, every listing, every error while the size is found out',
     'The module has no tests.',
     [DM, DG, 'citrine/cluster_tools/clusterdb/container.py'], [('DbModule.size', DM), ('DbGroup.size', DG), ('DbModuleRegistry', DM)])

prop('N01', 'The planned number of sub-collections is prime and large enough',
     'For every requested capacity and collection size the number of sub-collections chosen is prime (or 1) and the sub-collections together can hold the requested capacity. The number planned for the next group of a container is prime as well, and its sub-collections together hold at least half as much again as the current maximum.',
     ['inputs'], 'every pair of positive integers', 'Unbounded arithmetic over all integers; the tests sample.',
     ['citrine/storage/utils.py'], [('number_of_collections', 'citrine/storage/utils.py'), ('is_prime', 'citrine/storage/utils.py')])
prop('N02', 'A duration is written as a duration of the same length',
     'For every timedelta, positive, zero or negative, with or without a part of a second, the text written for it (by the writers themselves and in every form of output of an object that has it) is a valid ISO 8601 duration with at least one component. Read with the year of 365 and the month of 30 days that the project uses, that text denotes exactly the length of the timedelta.',
     ['inputs'], 'every timedelta', 'The layer has no tests; the claim is arithmetic over all values.',
     [DT], [('timedelta_str', DT), ('stringify_timedelta', 'jsonld/engine/utils.py'), ('Duration', 'activitystreams/properties.py')])
prop('N03', 'Ordered enumerations of a group are globally sorted',
     'Ranged enumeration of a group yields keys in ascending order across all sub-collections, and by-value enumeration yields pairs in descending order of value.',
     ['inputs', 'histories'], 'every content of every sub-collection', 'Ordering of a k-way merge over runtime contents.',
     [GRP], [('Group.iterkeys', GRP), ('Group.byValue', GRP)])
prop('N04', 'Concurrent connections stay isolated and conflicts are detected',
     'Two connections that change the same container concurrently never both commit conflicting changes, and neither sees the other\'s uncommitted changes.',
     ['schedules', 'histories'], 'every interleaving of two connections', 'Schedules cannot be enumerated by unit tests.',
     [CC, TRN], [('ContainerConnection', CC)])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
