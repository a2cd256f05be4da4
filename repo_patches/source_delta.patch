From 4bb04fdfe98ef8f58a3307f242267d949426955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 01/93] fix: Container.read returns falsy stored values instead
 of the default

---
 citrine/storage/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 4af595f..6c83335 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -365,8 +365,8 @@ class Container(Persistent, ContainerProperties):
         :return: the desired object if it exists, or the default if provided
         """
         for group in self.groups:
-            if ret := group.get(id):
-                return ret
+            if group.has_key(id):
+                return group.get(id)
         return default
 
     def write(self, id, obj):
-- 
2.43.0


From 3c0cbb395e7b9adc5a9bdd427f4e21dd8b57c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 02/93] fix: reading several ids raises only when none of them
 is stored

---
 citrine/connection/container_connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 145e4e6..d88131b 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -232,8 +232,9 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         if not isinstance(ids, Iterable):
             raise IndexError(f'index selector must be string or iterable of ' +
                              f'strings, not {ids}')
+        ids = list(ids)
         results = [self.container.read(id) for id in ids]
-        if not any(results):
+        if not any(self.container.has(id) for id in ids):
             raise KeyError(f'No values found for any of {ids}')
         return results
 
-- 
2.43.0


From b7cd733455afcde04de6b22c02dd8781ba2c3f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 03/93] fix: Container.delete pops only from groups that hold
 the id

---
 citrine/storage/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 6c83335..f52ea06 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -385,7 +385,7 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
-        return tuple(group.pop(id) for group in self.groups if self.has(id))
+        return tuple(group.pop(id) for group in self.groups if group.has_key(id))
 
     def __add__(self, other):
         """
-- 
2.43.0


From 3716febb813739ec64535192088a6560c620d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 04/93] fix: the primary group of a container comes first in
 its listing

---
 citrine/storage/container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index f52ea06..6d114c9 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -185,9 +185,9 @@ class Container(Persistent, ContainerProperties):
         """
         super().__init__()
         self.___primary___ = primary_group
-        self.___groups___ = groups
-        if self.primary not in self.groups:
-            self.___groups___ = (self.primary,) + self.groups
+        # the primary always comes first, it shadows the other groups
+        self.___groups___ = (self.primary,) + tuple(
+            group for group in groups if group is not primary_group)
         self.___metadata___ = ContainerMeta(self)
         self.strict = strict
 
-- 
2.43.0


From 4a8e56e2ade8a7f448a6a0c21764ae95ae8226d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 05/93] fix: a full strict collection accepts an insert for an
 id it holds

---
 citrine/storage/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index d2d2e5e..0f4ffa7 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -147,7 +147,8 @@ class Collection(Persistent):
         :raises CollectionCapacityError: if the size of the collection exceeds
         the limit in strict mode
         """
-        if self.size >= self.max_size and self.strict:
+        if (self.size >= self.max_size and self.strict
+                and not self.has_key(key)):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
-- 
2.43.0


From 79bc42084cc2ba70ce7eb24c9a4be5ce33d804de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 06/93] fix: setdefault obeys the strict capacity limit

---
 citrine/storage/collection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 0f4ffa7..8f3a82c 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -194,6 +194,11 @@ class Collection(Persistent):
         :param value: the value to write, if applicable
         :return: existing value or provided value if no value currently exists
         """
+        if (self.size >= self.max_size and self.strict
+                and not self.has_key(key)):
+            raise CollectionCapacityError(
+                f'Cannot insert "{key}"; maximum size reached!'
+            )
         return self.tree.setdefault(key, value)
 
     def clear(self):
-- 
2.43.0


From 16118416eac8b0ff3e8385d6c7bba7d355146346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 07/93] fix: Group.new passes the strict setting on

---
 citrine/storage/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index bff8d13..57b0e36 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -269,7 +269,7 @@ class Group(Persistent):
                 raise ValueError('Collection sizes cannot be less than 1')
             collections = tuple(Collection(max_size=max_collection_size)
                                 for _ in range(size))
-            return Group(collections=collections)
+            return Group(collections=collections, strict=strict)
         # ensure any gaps are filled if custom definition is provided
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
@@ -289,7 +289,7 @@ class Group(Persistent):
         collections = tuple(Collection(max_size=max_collection_size,
                                        strict=strict)
                             for _, max_collection_size in sorted(custom.items()))
-        return Group(collections=collections)
+        return Group(collections=collections, strict=strict)
 
     @groupfn
     def get(self, key, default=None):
-- 
2.43.0


From 29c922f86bb1d938b57cba4494153917afcab8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 08/93] fix: ContainerDb.create honours the strict setting

---
 citrine/database/containerdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 8e3386c..32f89fa 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -178,7 +178,7 @@ class ContainerDb(DB):
 
         :return: FileStorage object connecting back to the new ``ContainerDb``
         """
-        container = Container.new(capacity=capacity)
+        container = Container.new(capacity=capacity, strict=strict)
         storage = FileStorage(file_name, create=create, read_only=read_only,
                               stop=stop, quota=quota, pack_gc=pack_gc,
                               pack_keep_old=pack_keep_old, packer=packer,
-- 
2.43.0


From 83be80589bc8fa14c0317f9f40704bcf99ac85cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 09/93] fix: a bulk update that does not fit in one
 sub-collection stores nothing

---
 citrine/storage/group.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 57b0e36..36c7284 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -5,7 +5,7 @@ from uuid import uuid4
 
 from persistent import Persistent
 
-from citrine.storage.collection import Collection
+from citrine.storage.collection import Collection, CollectionCapacityError
 from citrine.storage.consts import DEFAULT_COLLECTION_SIZE
 
 minimum = min
@@ -332,6 +332,14 @@ class Group(Persistent):
             split_collection[get_group_index(key, num_collections)][key] = value
         split_collection = {k: v for k, v in split_collection.items() if v}
 
+        # either everything fits or nothing is stored
+        for index, collection in split_collection.items():
+            target = self.collections[index]
+            added = sum(1 for key in collection if not target.has_key(key))
+            if added and target.size + added > target.max_size and target.strict:
+                raise CollectionCapacityError(
+                    'Cannot update collection; maximum size reached!')
+
         for index, collection in split_collection.items():
             self.collections[index].update(collection)
 
-- 
2.43.0


From 1cd43d6755618717f81d794471c2a95271636ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 10/93] fix: ranged enumerations of a group do not stop at
 falsy entries or compare values

---
 citrine/storage/group.py | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 36c7284..7f2ea4e 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -400,7 +400,7 @@ class Group(Persistent):
                 vals.append(next(gen))
             except StopIteration:
                 vals.append(None)
-        while any(vals):
+        while any(val is not None for val in vals):
             # get the lowest value
             next_val = minimum((v for v in vals if v is not None))
             # replace the lowest value with the next value from the generator
@@ -425,23 +425,8 @@ class Group(Persistent):
         :param max: the highest value to return
         :return: generator of values
         """
-        gens = [collection.itervalues(min, max)
-                for collection in self.collections]
-        vals = list()
-        for gen in gens:
-            try:
-                vals.append(next(gen))
-            except StopIteration:
-                vals.append(None)
-        while any(vals):
-            # get the lowest value
-            next_val = minimum((v for v in vals if v is not None))
-            # replace the lowest value with the next value from the generator
-            try:
-                vals[vals.index(next_val)] = next(gens[vals.index(next_val)])
-            except StopIteration:
-                vals[vals.index(next_val)] = None
-            yield next_val
+        for _, value in self.iteritems(min, max):
+            yield value
 
     def items(self):
         """
@@ -469,7 +454,7 @@ class Group(Persistent):
                 items[item[0]] = item[1]
             except StopIteration:
                 keys.append(None)
-        while any(keys):
+        while any(key is not None for key in keys):
             # get the lowest value
             next_key = minimum((v for v in keys if v is not None))
             # replace the lowest value with the next value from the generator
-- 
2.43.0


From 2707377be7a37ba8cbba585486ff0a1011f63dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 11/93] fix: smallest and largest key of a group with empty
 sub-collections

---
 citrine/storage/group.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 7f2ea4e..bfcf4ae 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -487,8 +487,14 @@ class Group(Persistent):
         :param max: highest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return maximum(collection.maxKey(max)
-                       for collection in self.collections)
+        keys = list()
+        for collection in self.collections:
+            try:
+                keys.append(collection.maxKey(max))
+            except ValueError:
+                # nothing in this collection qualifies
+                continue
+        return maximum(keys)
 
     def minKey(self, min=None):
         """
@@ -497,8 +503,14 @@ class Group(Persistent):
         :param max: lowest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return minimum(collection.minKey(min)
-                       for collection in self.collections)
+        keys = list()
+        for collection in self.collections:
+            try:
+                keys.append(collection.minKey(min))
+            except ValueError:
+                # nothing in this collection qualifies
+                continue
+        return minimum(keys)
 
     @groupfn
     def has_key(self, key):
-- 
2.43.0


From 2771e4b63e979b29529850d4844423abfc71ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 12/93] fix: condense does not lose an object the primary group
 refuses

---
 citrine/storage/container.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 6d114c9..5a025c5 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -321,10 +321,11 @@ class Container(Persistent, ContainerProperties):
         """
         source_groups = self.groups[1:]
 
-        if transfer:
-            fn = lambda group, key: self.primary.insert(key, group.pop(key))
-        else:
-            fn = lambda group, key: self.primary.insert(key, group.get(key))
+        def fn(group, key):
+            # insert first; if it is refused the object stays where it was
+            self.primary.insert(key, group.get(key))
+            if transfer:
+                group.pop(key)
 
         if transaction_manager:
             with transaction_manager as tm:
-- 
2.43.0


From f1df76a320c775c3e09faddf7155ed1de4cc0f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 13/93] fix: resizing without condensing keeps the other groups
 in the container throughout

---
 citrine/storage/container.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 5a025c5..c703d87 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -290,13 +290,10 @@ class Container(Persistent, ContainerProperties):
             removed = self.condense(transfer=transfer,
                                     transaction_manager=transaction_manager)
         else:
-            # if we only want to move over the data from the old primary,
-            # set aside all other groups, use condense, and put them back after
-            secondaries = self.groups[2:]
-            self.___groups___ = self.___groups___[:2]
-            removed = self.condense(transfer=transfer,
-                                    transaction_manager=transaction_manager)
-            self.___groups___ += secondaries
+            # only move over the data from the old primary, all other groups
+            # stay in the listing
+            removed = self._condense(self.groups[1:2], transfer,
+                                     transaction_manager)
         return removed
 
     def condense(self, transfer: bool = True, transaction_manager=None) \
@@ -319,8 +316,13 @@ class Container(Persistent, ContainerProperties):
         :param transaction_manager: transaction manager to use, if any
         :return: secondary groups removed from the container
         """
-        source_groups = self.groups[1:]
+        return self._condense(self.groups[1:], transfer, transaction_manager)
 
+    def _condense(self, source_groups, transfer, transaction_manager):
+        """
+        Condenses the given secondary groups into the primary group; all other
+        groups are left alone.
+        """
         def fn(group, key):
             # insert first; if it is refused the object stays where it was
             self.primary.insert(key, group.get(key))
@@ -339,13 +341,15 @@ class Container(Persistent, ContainerProperties):
                     fn(group, key)
 
         if transfer:
-            discarded = list(self.groups[1:])
+            discarded = list(source_groups)
+            remaining = tuple(group for group in self.groups
+                              if group not in source_groups)
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = (self.groups[0],)
+                    self.___groups___ = remaining
                     tm.commit()
             else:
-                self.___groups___ = (self.groups[0],)
+                self.___groups___ = remaining
             return discarded
         return []
 
-- 
2.43.0


From 5e99f0a4ead0f0d1fdb2b4a6b98ba3d82398439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 14/93] fix: membership test and iteration of a container

---
 citrine/storage/container.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index c703d87..61c6260 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -407,9 +407,16 @@ class Container(Persistent, ContainerProperties):
         :param item:
         :return:
         """
+        return self.has(item) > 0
 
     def __iter__(self):
         """
         Iterates over all items stored in the group as key-value pairs.
         :return:
         """
+        seen = set()
+        for group in self.groups:
+            for key, value in group.items():
+                if key not in seen:
+                    seen.add(key)
+                    yield key, value
-- 
2.43.0


From 8484895ab089e75f634cdc131a7c5cb575c4503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 15/93] fix: Container.resize refuses a capacity below the
 number of stored objects

---
 citrine/storage/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 61c6260..96b4fc0 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -262,6 +262,10 @@ class Container(Persistent, ContainerProperties):
         # Don't try to reinvent the wheel with a complex system, it will not
         # scale like the ugly if-else method does. Trust me, I tried.
 
+        if capacity < self.size:
+            raise ValueError(f'Cannot resize to {capacity}; container ' +
+                             f'already stores {self.size} objects')
+
         # create a new group with a prime number of containers capable of
         # handling the capacity
         size = number_of_collections(
-- 
2.43.0


From 3e8d6764cc4e7b41e3a95ebde4c9b878e1c50bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 16/93] fix: automatic mode is restored when the commit or
 abort of a block fails

---
 citrine/persistence.py         | 20 ++++++++++-------
 citrine/storage/transaction.py | 40 ++++++++++++++++++++--------------
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index bdf47d6..9fc536d 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -38,14 +38,18 @@ class CitrineTransactionManager(TransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
-            self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class CitrineThreadTransactionManager(ThreadTransactionManager):
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index a04a09f..825e160 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -28,14 +28,18 @@ class TransactionManager(ZoTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
-            self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class ThreadTransactionManager(ZoThreadTransactionManager):
@@ -57,14 +61,18 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
-            self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 def autocommit(fn):
-- 
2.43.0


From 913368f8edb1446866bc645182ea145c7c5d8172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 17/93] fix: the autocommit argument of a connection reaches
 its transaction manager

---
 citrine/connection/container_connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index d88131b..adc8f14 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -133,7 +133,8 @@ class ContainerConnectionProperties:
         Whether to automatically commit actions performed by ``create``,
         ``update``, and ``delete``
         """
-        return self.___autocommit___
+        return getattr(self.transaction_manager, 'autocommit',
+                       self.___autocommit___)
 
     @autocommit.setter
     def autocommit(self, value):
@@ -160,6 +161,8 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         self.transaction_manager = (transaction_manager or
                                     ThreadTransactionManager())
         self.open(self.transaction_manager)
+        if not autocommit:
+            self.transaction_manager.autocommit = False
 
         self.___root___ = self.root
 
-- 
2.43.0


From ab3faad1e64dea39b15167a254df0216269bde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 18/93] fix: automatic mode stays off until the block of a
 connection has ended

---
 citrine/connection/container_connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index adc8f14..d694e3f 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -254,5 +254,7 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         :param exc_val:
         :param exc_tb:
         """
-        self.autocommit = True
-        return self.transaction_manager.__exit__(exc_type, exc_val, exc_tb)
\ No newline at end of file
+        try:
+            return self.transaction_manager.__exit__(exc_type, exc_val, exc_tb)
+        finally:
+            self.autocommit = True
\ No newline at end of file
-- 
2.43.0


From bd3f8f63ceae88210f8b577996bb20a477f22148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 19/93] fix: the legacy thread-local transaction manager has
 the attributes automatic commits need

---
 citrine/persistence.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 9fc536d..5fc8fb6 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -62,6 +62,22 @@ class CitrineThreadTransactionManager(ThreadTransactionManager):
         super().__init__()
         self.manager = CitrineTransactionManager()
 
+    @property
+    def autocommit(self):
+        return self.manager.autocommit
+
+    @autocommit.setter
+    def autocommit(self, value):
+        self.manager.autocommit = value
+
+    @property
+    def transaction_uuid(self):
+        return getattr(self.manager, 'transaction_uuid', None)
+
+    @property
+    def logger(self):
+        return self.manager.logger
+
 
 def autocommit(fn):
     """
-- 
2.43.0


From 1fa964d33f500aeb80790811b349865e81b3c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 20/93] fix: expanding a legacy container moves its objects to
 where they are looked up

---
 citrine/persistence.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 5fc8fb6..f19f1f4 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -139,10 +139,14 @@ class DbContainer(Persistent):
             raise ValueError(f'Cannot expand from {self.containers_size} ' +
                              f'containers to {new_size} containers, new size ' +
                              f'must be larger than existing size')
+        # the place of an object depends on the number of containers
+        items = [item for container in self.containers.values()
+                 for item in container.items()]
         self.containers = PersistentMapping({
-            key: self.containers.get(key, PersistentMapping())
-            for key in range(new_size)
+            key: PersistentMapping() for key in range(new_size)
         })
+        for id, obj in items:
+            self.write(id, obj)
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From 0f32af4941e70bd4c736650deafe10a80c610925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 21/93] fix: a ContainerDb can take part in a multi-database
 configuration

---
 citrine/database/containerdb.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 32f89fa..b60e49b 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -126,17 +126,20 @@ class ContainerDb(DB):
             conn.close()
             if not isinstance(storage, FileStorage):
                 db.close()
-        super().__init__(
-            storage=storage, pool_size=pool_size,
-            pool_timeout=pool_timeout, cache_size=cache_size,
-            cache_size_bytes=cache_size_bytes,
-            historical_pool_size=historical_pool_size,
-            historical_cache_size=historical_cache_size,
-            historical_cache_size_bytes=historical_cache_size_bytes,
-            historical_timeout=historical_timeout,
-            database_name=database_name, databases=databases,
-            xrefs=xrefs, large_record_size=large_record_size,
-            **storage_args)
+            if databases is not None:
+                # registered by the attempt that failed
+                databases.pop(database_name, None)
+            super().__init__(
+                storage=storage, pool_size=pool_size,
+                pool_timeout=pool_timeout, cache_size=cache_size,
+                cache_size_bytes=cache_size_bytes,
+                historical_pool_size=historical_pool_size,
+                historical_cache_size=historical_cache_size,
+                historical_cache_size_bytes=historical_cache_size_bytes,
+                historical_timeout=historical_timeout,
+                database_name=database_name, databases=databases,
+                xrefs=xrefs, large_record_size=large_record_size,
+                **storage_args)
 
     @classmethod
     def create(cls, file_name: str, capacity: int = DEFAULT_CONTAINER_SIZE,
-- 
2.43.0


From a5c467f648ff387cafc725cf56aa0f0d390ca925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 22/93] fix: a ContainerDb that initialised its storage can be
 closed

---
 citrine/database/containerdb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index b60e49b..ad026be 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -115,6 +115,8 @@ class ContainerDb(DB):
             if not isinstance(storage, FileStorage):
                 # closing if storage is FileStorage will make the db unopenable
                 self.close()
+                # closing replaces the method on the instance
+                self.__dict__.pop('close', None)
             db = DB(storage)
             conn = db.open()
             with conn.transaction_manager as tm:
-- 
2.43.0


From 3daa6123672e735c204a05033ce779ed3d6e5177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 23/93] fix: connections opened while creating a database are
 closed on failure

---
 citrine/database/containerdb.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index ad026be..cd3cb81 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -119,13 +119,15 @@ class ContainerDb(DB):
                 self.__dict__.pop('close', None)
             db = DB(storage)
             conn = db.open()
-            with conn.transaction_manager as tm:
-                # if this exists, do nothing, the exception is unrelated to
-                # the database being new!!
-                if not getattr(conn.root, 'container', None):
-                    conn.root.container = Container.new()
-                    tm.commit()
-            conn.close()
+            try:
+                with conn.transaction_manager as tm:
+                    # if this exists, do nothing, the exception is unrelated to
+                    # the database being new!!
+                    if not getattr(conn.root, 'container', None):
+                        conn.root.container = Container.new()
+                        tm.commit()
+            finally:
+                conn.close()
             if not isinstance(storage, FileStorage):
                 db.close()
             if databases is not None:
@@ -190,10 +192,12 @@ class ContainerDb(DB):
                               blob_dir=blob_dir)
         # store the container in the database
         conn = DB(storage).open()
-        with conn.transaction_manager as tm:
-            conn.root.container = container
-            tm.commit()
-        conn.close()
+        try:
+            with conn.transaction_manager as tm:
+                conn.root.container = container
+                tm.commit()
+        finally:
+            conn.close()
         return storage
 
     @classmethod
-- 
2.43.0


From 06d0105a33eb534a5db93485f88bf864f82e6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 24/93] fix: nested uses of a database as context manager each
 close their own connection

---
 citrine/database/containerdb.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index cd3cb81..580cbb8 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,3 +1,5 @@
+import threading
+
 import ZODB
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
@@ -391,8 +393,17 @@ class ContainerDb(DB):
         context management process
         :return: connection object
         """
-        self.__context_manager_connection = self.open()
-        return self.__context_manager_connection
+        connection = self.open()
+        self.__context_manager_connections().append(connection)
+        return connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.__context_manager_connection.close()
+        self.__context_manager_connections().pop().close()
+
+    def __context_manager_connections(self):
+        """
+        Connections handed out to the current thread and not yet closed, the
+        innermost last
+        """
+        local = self.__dict__.setdefault('___context___', threading.local())
+        return local.__dict__.setdefault('connections', [])
-- 
2.43.0


From bd46f81e5d1baf6dc5cf3dc1d0de4b3b81b602cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 25/93] fix: an id found in several databases raises the
 duplicate-id error

---
 citrine/connection/group_connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index d490d38..7d096e2 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -41,7 +41,7 @@ class GroupReadConnection:
         if not results:
             return None
         if len(results) > 1 and not multiple:
-            CitrineDuplicateIdError(id)
+            raise CitrineDuplicateIdError(id)
         return results[0] if not multiple else results
 
     async def __read(self, id: str, timeout: timedelta = None,
-- 
2.43.0


From ff6bb9f736ae6941b6569ba85737c4f04d4400ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 26/93] fix: per-database connection arguments override the
 defaults

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 7d096e2..b1d14e8 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -28,8 +28,8 @@ class GroupReadConnection:
         default = {'transaction_manager': transaction_manager}
         for db in dbs:
             connection_details = {
-                **connection_args.get(db.database_name, default),
-                **default
+                **default,
+                **connection_args.get(db.database_name, {})
             }
             self.connections += (db.open(**connection_details),)
 
-- 
2.43.0


From 99abaf745b16af507fd613f948c1d42c0fa89223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 27/93] fix: multiple results of a group read are collected

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index b1d14e8..82eca52 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -80,8 +80,8 @@ class GroupReadConnection:
             results = [res.result() for res in results
                        if res.result() is not None]
         else:
-            results = {key: val.results() for key, val in results.items()
-                       if val.results() is not None}
+            results = {key: val.result() for key, val in results.items()
+                       if val.result() is not None}
         return results
 
     async def __read_db(self, connection, id: str):
-- 
2.43.0


From fe778b8adbd8a0b1e2ed66a78bd86ad2d982be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 28/93] fix: a group read with a timeout runs under a timeout
 of that duration

---
 citrine/connection/group_connection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 82eca52..70a267f 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -49,9 +49,9 @@ class GroupReadConnection:
         """
         Reads from all connections and returns all located values.
         """
-        if timeout:
-            with aiotimeout(timeout.seconds):
-                with TaskGroup() as tg:
+        if timeout is not None:
+            async with aiotimeout(timeout.total_seconds()):
+                async with TaskGroup() as tg:
                     # if we're getting multiple back, it's good to give a link
                     # back to the relevant db
                     if multiple:
-- 
2.43.0


From 6f46646b371412c6b0e10aea34589feb8dc79b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 29/93] fix: at least one sub-collection is planned and the
 range of primes ends at its maximum

---
 citrine/storage/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/utils.py b/citrine/storage/utils.py
index 38e4dd9..6003fb1 100644
--- a/citrine/storage/utils.py
+++ b/citrine/storage/utils.py
@@ -23,7 +23,7 @@ def get_primes(min=1, max=None):
     :return: prime integers
     """
     val = min
-    while not max or val > max:
+    while not max or val <= max:
         if is_prime(val):
             yield val
         val += 1
@@ -46,7 +46,7 @@ def number_of_collections(
 
     # the number needs to be prime, or we risk entire collections being skipped
     # by the id hashing process
-    next_prime = next(get_primes(min=needed_collections))
+    next_prime = next(get_primes(min=max(needed_collections, 1)))
 
     return next_prime
 
@@ -64,6 +64,6 @@ def next_number_of_collections(
 
     # the number needs to be prime, or we risk entire collections being skipped
     # by the id hashing process
-    next_prime = next(get_primes(min=needed_collections))
+    next_prime = next(get_primes(min=max(needed_collections, 1)))
 
     return next_prime
-- 
2.43.0


From 95c17e0b53016e5487da3d7800ba283cecd61348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 30/93] fix: the overwrite request of DbModule.create is not
 taken for the discoverable setting

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 661010b..4abb5c4 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -175,7 +175,7 @@ class DbModule:
 
         The provided name will be given to the newly created database
         """
-        module_path = create_dbmodule(path, name, overwrite)
+        module_path = create_dbmodule(path, name, overwrite=overwrite)
         return DbModule(module_path)
 
     @classmethod
-- 
2.43.0


From ff22b5c276927e235bf50f2e76ce17f6e302c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 31/93] fix: overwriting a database module replaces the
 existing one

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 4abb5c4..c0c32f2 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -30,7 +30,10 @@ def create_dbmodule(path: str = '.', name: str = None, discoverable: bool = True
     path = join(path, name)
     if not overwrite and exists(path):
         raise IOError(f'DbModule already exists at "{path}"')
-    mkdir(path)
+    if exists(path):
+        delete_dbmodule(path, remove_empty=False)
+    else:
+        mkdir(path)
     init_path = join(path, '__init__.py')
     with open(init_path, 'w') as writer:
         if discoverable:
-- 
2.43.0


From b0cb01dcea933db40059a2a0331ed8635a99af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 32/93] fix: deleting a database module by a path that ends in
 a separator keeps foreign files

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index c0c32f2..1e2cf46 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -5,7 +5,7 @@ citrine.cluster.DbModule object.
 from uuid import uuid4
 
 from os import mkdir, listdir, rmdir, remove
-from os.path import join, exists, split, isfile
+from os.path import abspath, join, exists, split, isfile
 from shutil import rmtree
 from persistent import Persistent
 from persistent.mapping import PersistentMapping
@@ -58,7 +58,7 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
     if remove_all:
         rmtree(path)
         return
-    name = split(path)[1]
+    name = split(abspath(path))[1]
     affected = [join(path, file) for file in listdir(path)
                 if (isfile(join(path, file)) and file.startswith(name))
                     or file == '__init__.py']
-- 
2.43.0


From 04146dd39936b9d17f3946301e3c4d7df776cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 33/93] fix: a destroyed module leaves the listing of its group

---
 citrine/cluster_tools/dbmodule/dbgroup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/citrine/cluster_tools/dbmodule/dbgroup.py b/citrine/cluster_tools/dbmodule/dbgroup.py
index d0933e8..b13ebda 100644
--- a/citrine/cluster_tools/dbmodule/dbgroup.py
+++ b/citrine/cluster_tools/dbmodule/dbgroup.py
@@ -77,6 +77,7 @@ class DbGroup:
         :param name: The name of the database to be destroyed
         """
         DbModule.destroy(join(self.root, name))
+        self.modules.pop(name, None)
 
     @staticmethod
     def discover(root):
-- 
2.43.0


From b18aba3d12dd29f5a012706e681838aa8972c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 34/93] fix: ManagedConnection.setup creates its container

---
 citrine/connection/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/connection/connection.py b/citrine/connection/connection.py
index f8d8f4b..0d0c03c 100644
--- a/citrine/connection/connection.py
+++ b/citrine/connection/connection.py
@@ -156,7 +156,7 @@ class ManagedConnection(CitrineConnection):
             logging.warning('MISSING CONTAINER OBJECT "root.container", ' +
                             'CREATING NEW')
             with self:
-                self.root.container = Container()
+                self.root.container = Container.new()
 
         if not hasattr(self.root, 'meta'):
             logging.warning('MISSING METADATA OBJECT "root.meta", ' +
-- 
2.43.0


From c85900b4170c2b69ce37f0524d391fad22153ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 35/93] fix: generated module files import an existing database
 class

---
 citrine/cluster_tools/dbmodule/consts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/consts.py b/citrine/cluster_tools/dbmodule/consts.py
index 45e8742..6fd483c 100644
--- a/citrine/cluster_tools/dbmodule/consts.py
+++ b/citrine/cluster_tools/dbmodule/consts.py
@@ -6,7 +6,7 @@ DBMODULE_DISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb as CitrineDB
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
 db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
@@ -18,7 +18,7 @@ DBMODULE_UNDISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb as CitrineDB
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
 db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
-- 
2.43.0


From 432e37f515751613f7bfc8c98bcb16dd5d05d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 36/93] fix: property filters of data() match whole names only

---
 jsonld/jsonld.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 447b9a7..5ef129a 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -55,7 +55,7 @@ class PropertyJsonLD(PropertyAwareObject):
 
     def __handler(self, value):
         if isinstance(value, PropertyJsonLD):
-            return value.data(exclude='acontext')
+            return value.data(exclude=('acontext',))
         if type(value) in self.__data_handler_fns.keys():
             return self.__data_handler_fns[type(value)](value, self.__handler)
         if isinstance(value, Iterable):
@@ -82,6 +82,9 @@ class PropertyJsonLD(PropertyAwareObject):
             transforms = {**self.default_transforms,
                           **(transforms if transforms else {})}
             rename = {**JSON_LD_KEYMAP, **(rename if rename else {})}
+            # a lone property name is one name, not a collection of characters
+            include = (include,) if isinstance(include, str) else include
+            exclude = (exclude,) if isinstance(exclude, str) else exclude
             data = {
                 # change name of property, if provided in mapping
                 rename.get(prop, prop): self.__handler(getattr(self, prop, None))
-- 
2.43.0


From 8edd2e56bef161efb1458d407d3c1ddb24d4e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 37/93] fix: data() keeps booleans, None and subclasses of the
 JSON types as they are

---
 jsonld/jsonld.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 5ef129a..6be27c0 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -56,8 +56,10 @@ class PropertyJsonLD(PropertyAwareObject):
     def __handler(self, value):
         if isinstance(value, PropertyJsonLD):
             return value.data(exclude=('acontext',))
-        if type(value) in self.__data_handler_fns.keys():
-            return self.__data_handler_fns[type(value)](value, self.__handler)
+        if value is None or isinstance(value, (str, int, float)):
+            return value
+        if isinstance(value, dict):
+            return self.__data_handler_fns[dict](value, self.__handler)
         if isinstance(value, Iterable):
             return self.__data_handler_fns[list](value, self.__handler)
         return str(value)
-- 
2.43.0


From 72e5e7b8955102a27cf9a18d0d09a4d491df5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 38/93] fix: data() applies the transforms it is given

---
 jsonld/jsonld.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 6be27c0..c2bb61b 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -89,7 +89,9 @@ class PropertyJsonLD(PropertyAwareObject):
             exclude = (exclude,) if isinstance(exclude, str) else exclude
             data = {
                 # change name of property, if provided in mapping
-                rename.get(prop, prop): self.__handler(getattr(self, prop, None))
+                rename.get(prop, prop): self.__handler(
+                    transforms.get(prop, lambda val: val)(
+                        getattr(self, prop, None)))
                 for prop in self.__properties__
                 # if include_null is True or the property is not None
                 if (include_none or getattr(self, prop) is not None)
-- 
2.43.0


From 008fc8b50c9eacd503f4f7c0dc6100d2dabcc62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 39/93] fix: filters given to data() may be iterators

---
 jsonld/jsonld.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index c2bb61b..fe0a71c 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -85,8 +85,10 @@ class PropertyJsonLD(PropertyAwareObject):
                           **(transforms if transforms else {})}
             rename = {**JSON_LD_KEYMAP, **(rename if rename else {})}
             # a lone property name is one name, not a collection of characters
-            include = (include,) if isinstance(include, str) else include
-            exclude = (exclude,) if isinstance(exclude, str) else exclude
+            include = ((include,) if isinstance(include, str)
+                       else tuple(include or ()))
+            exclude = ((exclude,) if isinstance(exclude, str)
+                       else tuple(exclude or ()))
             data = {
                 # change name of property, if provided in mapping
                 rename.get(prop, prop): self.__handler(
-- 
2.43.0


From ae76a8ee069d0071840d152906e5f09b5129c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 40/93] fix: a forbidden character anywhere in the host makes
 an address invalid

---
 jsonld/docloader.py    | 2 +-
 jsonld/engine/utils.py | 2 +-
 jsonld/tools/url.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 75b12cd..cd27967 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -64,7 +64,7 @@ class RequestsJsonLoader:
         if not pieces.netloc:
             raise ValueError('Cannot dereference url without body')
         # urls can only have certain characters
-        if re.match(JSON_LD_URL_REGEX, pieces.netloc):
+        if re.search(JSON_LD_URL_REGEX, pieces.netloc):
             raise ValueError('url cannot contain characters outside of' +
                              'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."' +
                              f';\ngot: "{url}" ')
diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index 0535a77..ae14d75 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -35,7 +35,7 @@ def validate_url(url, secure: bool = False):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index 00f4cce..b053ed4 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -49,7 +49,7 @@ def validate_url(url, secure: bool = False, **kwargs):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
-- 
2.43.0


From 65d52cd41973648c36d5c2d5fbf8e817b45e575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 41/93] fix: validate_url rejects addresses that cannot be
 parsed instead of raising

---
 jsonld/engine/utils.py | 6 +++++-
 jsonld/tools/url.py    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index ae14d75..686ad96 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -24,7 +24,11 @@ def validate_url(url, secure: bool = False):
     :param secure: whether to accept only HTTPS urls
     :return: True if valid, False otherwise
     """
-    pieces = parse.urlparse(url)
+    try:
+        pieces = parse.urlparse(url)
+    except ValueError:
+        logger.debug('Cannot dereference url that cannot be parsed')
+        return False
     if not pieces.scheme or pieces.scheme not in ['http', 'https']:
         logger.debug('Cannot dereference url without valid scheme; add ' +
                     f'''{'"http://" or' if not secure else ''} ''' +
diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index b053ed4..2b6c111 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -38,7 +38,11 @@ def validate_url(url, secure: bool = False, **kwargs):
     :param secure: whether to accept only HTTPS urls
     :return: True if valid, False otherwise
     """
-    pieces = parse.urlparse(url)
+    try:
+        pieces = parse.urlparse(url)
+    except ValueError:
+        logger.debug('Cannot dereference url that cannot be parsed')
+        return False
     if not pieces.scheme or pieces.scheme not in ['http', 'https']:
         logger.debug('Cannot dereference url without valid scheme; add ' +
                     f'''{'"http://" or' if not secure else ''} ''' +
-- 
2.43.0


From 507ca3356db014b6ec3d7e2da45ef0919afc1e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 42/93] fix: hreflang reads back the value that was set

---
 activitystreams/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index e6e3257..ea1a08a 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1026,7 +1026,7 @@ class HrefLang(ActivityStreamsProperty):
     @hreflang.setter
     @SetterValidator(types=(str,), functional=True).check
     def hreflang(self, val):
-        self.__hrefLang = val
+        self.___hreflang___ = val
 
 
 class PartOf(ActivityStreamsProperty):
-- 
2.43.0


From e9be9aa7ce5d4a3e64c5103a3ef676deea5af494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 43/93] fix: a height that was never set reads as None

---
 activitystreams/properties.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index ea1a08a..3d991e7 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -985,17 +985,15 @@ class Height(ActivityStreamsProperty):
     pixels of the linked resource.
     """
 
-    __height = None
-
     @contextualproperty
     def height(self):
-        return self.__height
+        return getattr(self, '___height___', None)
 
     @height.setter
     @SetterValidator(types=(int,), functional=True,
                      additional=(is_nonnegative,)).check
     def height(self, val):
-        self.__height = val
+        self.___height___ = val
 
 
 class Href(ActivityStreamsProperty):
-- 
2.43.0


From d309b44c97699f1105db5d3e3d66ffd88b870cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 44/93] fix: properties defined after the property class Object
 accept objects

---
 activitystreams/properties.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 3d991e7..0e6ce69 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -16,6 +16,7 @@ from jsonld.tools import is_activity_datetime, \
 from jsonld.tools import is_nonnegative
 from jsonld.tools import SetterValidator
 
+from activitystreams import models
 from activitystreams.models import Object, Link, Collection, \
     CollectionPage, ACTIVITYSTREAMS_NS
 
@@ -735,7 +736,7 @@ class Preview(ActivityStreamsProperty):
 
     @preview.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def preview(self, val):
         self.___preview___ = val
 
@@ -759,7 +760,7 @@ class Result(ActivityStreamsProperty):
 
     @result.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def result(self, val):
         self.___result___ = val
 
@@ -807,7 +808,7 @@ class Tag(ActivityStreamsProperty):
 
     @tag.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, dict)).check
+    @SetterValidator(types=(models.Object, Link, dict)).check
     def tag(self, val):
         self.___tag___ = val
 
@@ -834,7 +835,7 @@ class Target(ActivityStreamsProperty):
 
     @target.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def target(self, val):
         self.___target___ = val
 
@@ -857,7 +858,7 @@ class To(ActivityStreamsProperty):
 
     @to.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def to(self, val):
         self.___to___ = val
 
@@ -1338,7 +1339,7 @@ class Subject(ActivityStreamsProperty):
 
     @subject.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link), functional=True).check
+    @SetterValidator(types=(models.Object, Link), functional=True).check
     def subject(self, val):
         self.___subject___ = val
 
@@ -1354,7 +1355,7 @@ class Relationship(ActivityStreamsProperty):
         return getattr(self, '___relationship___', None)
 
     @relationship.setter
-    @SetterValidator(types=(Object, str)).check
+    @SetterValidator(types=(models.Object, str)).check
     def relationship(self, val):
         self.___relationship___ = val
 
@@ -1370,7 +1371,7 @@ class Describes(ActivityStreamsProperty):
         return getattr(self, '___describes___', None)
 
     @describes.setter
-    @SetterValidator(types=(Object,), functional=True).check
+    @SetterValidator(types=(models.Object,), functional=True).check
     def describes(self, val):
         self.___describes___ = val
 
@@ -1386,7 +1387,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(Object,)).check
+    @SetterValidator(types=(models.Object,)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From 9d2f354171bf77b5735c8cb6e3a647e1f7d40b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 45/93] fix: context is a property of every object

---
 activitystreams/package.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/activitystreams/package.py b/activitystreams/package.py
index 79acb17..00856d9 100644
--- a/activitystreams/package.py
+++ b/activitystreams/package.py
@@ -134,6 +134,7 @@ property_mapping = {
                                         properties.AttributedTo.__get_namespace__(),
                                         properties.Audience.__get_namespace__(),
                                         properties.Content.__get_namespace__(),
+                                        properties.Context.__get_namespace__(),
                                         properties.Name.__get_namespace__(),
                                         properties.EndTime.__get_namespace__(),
                                         properties.Generator.__get_namespace__(),
-- 
2.43.0


From 7d7a44bfc5b4173a817be51030fd225719a8347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 46/93] fix: a list of closing times is written as time texts

---
 activitystreams/properties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 0e6ce69..e9ec1f0 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -614,6 +614,9 @@ class Closed(ActivityStreamsProperty):
         val = getattr(self, '___closed___', None)
         if isinstance(val, datetime):
             return datetime_str(val)
+        if isinstance(val, list):
+            return [datetime_str(item) if isinstance(item, datetime) else item
+                    for item in val]
         return val
 
     @closed.setter
-- 
2.43.0


From 0cac225251e21e0384b335edc71126223163b6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 47/93] fix: a closing time may be given as text

---
 activitystreams/properties.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index e9ec1f0..69f32f4 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -621,8 +621,14 @@ class Closed(ActivityStreamsProperty):
 
     @closed.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, datetime, bool)).check
+    @SetterValidator(types=(Object, Link, datetime, bool, str),
+                     additional=(is_activity_datetime,)).check
     def closed(self, val):
+        if isinstance(val, list):
+            val = [parse_activitystream_datetime(item)
+                   if isinstance(item, str) else item for item in val]
+        if isinstance(val, str):
+            val = parse_activitystream_datetime(val)
         self.___closed___ = val
 
 
-- 
2.43.0


From 585c2d6dc82c28abb9127de32959cae1eb31589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 48/93] fix: a deletion time may be given as text

---
 activitystreams/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 69f32f4..54825fe 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1419,7 +1419,7 @@ class Deleted(ActivityStreamsProperty):
         return val
 
     @deleted.setter
-    @SetterValidator(types=(datetime,), functional=True,
+    @SetterValidator(types=(datetime, str), functional=True,
                      additional=(is_activity_datetime,)).check
     def deleted(self, val):
-        self.___deleted___ = val
+        self.___deleted___ = parse_activitystream_datetime(val)
-- 
2.43.0


From 0addb8c1607107181731d7bd15b5eac2d147c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 49/93] fix: times with an offset are converted to UTC before
 they are written as UTC

---
 jsonld/engine/utils.py   | 4 +++-
 jsonld/tools/datetime.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index 686ad96..d4ed433 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -2,7 +2,7 @@ import logging
 import re
 from urllib import parse
 from collections.abc import Iterable
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 
 from validate_email import validate_email
 
@@ -96,6 +96,8 @@ def stringify_datetime(obj: datetime) -> str:
     :param obj: the datetime object to convert
     :return: "YYYY-mm-ddTHH:MM:SSZ" string
     """
+    if obj.utcoffset() is not None:
+        obj = obj.astimezone(timezone.utc)
     return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
 
 
diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index a140ecf..c8d61ab 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -1,5 +1,5 @@
 import re
-from datetime import datetime
+from datetime import datetime, timezone
 from types import NoneType
 
 AS2_TIME = re.compile(
@@ -74,6 +74,7 @@ def datetime_str(obj: datetime) -> str:
     :param obj: the datetime object to convert
     :return: "YYYY-mm-ddTHH:MM:SSZ" string
     """
-    # TODO: implement handling for timezone-aware datetimes
     # TODO: implement millisecond handling
+    if obj.utcoffset() is not None:
+        obj = obj.astimezone(timezone.utc)
     return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
\ No newline at end of file
-- 
2.43.0


From cabe68d8255d6944c2b914fcb2ec33c78033f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 50/93] fix: fractions of a second are kept when a time is
 written

---
 jsonld/engine/utils.py   | 3 ++-
 jsonld/tools/datetime.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index d4ed433..5b0d5b9 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -98,7 +98,8 @@ def stringify_datetime(obj: datetime) -> str:
     """
     if obj.utcoffset() is not None:
         obj = obj.astimezone(timezone.utc)
-    return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
+    return obj.strftime('%Y-%m-%dT%H:%M:%S.%fZ' if obj.microsecond
+                        else '%Y-%m-%dT%H:%M:%SZ')
 
 
 # matches a data type to a function
diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index c8d61ab..bcd926d 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -74,7 +74,7 @@ def datetime_str(obj: datetime) -> str:
     :param obj: the datetime object to convert
     :return: "YYYY-mm-ddTHH:MM:SSZ" string
     """
-    # TODO: implement millisecond handling
     if obj.utcoffset() is not None:
         obj = obj.astimezone(timezone.utc)
-    return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
\ No newline at end of file
+    return obj.strftime('%Y-%m-%dT%H:%M:%S.%fZ' if obj.microsecond
+                        else '%Y-%m-%dT%H:%M:%SZ')
\ No newline at end of file
-- 
2.43.0


From a625090ff840922c394273a71ad37c8d7ca56a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 51/93] fix: Object and Link keep their namespace inside a
 package

---
 activitystreams/models.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 0412f1c..81511c3 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -20,6 +20,16 @@ ACTIVITYSTREAMS_NS = 'https://www.w3.org/ns/activitystreams'
 SECURE_URLS_ONLY = False
 
 
+def type_name(cls):
+    """
+    Name of the ActivityStreams type a class stands for. A package replaces the
+    "type" attribute of its base classes with a property, so the name is the
+    first one found among the class and its parents
+    """
+    return next(kls.__dict__['type'] for kls in cls.mro()
+                if isinstance(kls.__dict__.get('type', None), str))
+
+
 # ==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//
 # CORE TYPES
 #   REF: https://www.w3.org/TR/activitystreams-vocabulary/#types
@@ -42,7 +52,7 @@ class Object(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        return f'{ACTIVITYSTREAMS_NS}#{type_name(cls)}'
 
     def __init__(self, id=None, type=None, attachment=None, attributedTo=None,
                  audience=None, content=None, context=None, name=None,
@@ -99,7 +109,7 @@ class Link(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        return f'{ACTIVITYSTREAMS_NS}#{type_name(cls)}'
 
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
-- 
2.43.0


From dcacb3ced2bf3316085d1761ad62de8be734566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 52/93] fix: the type given to an Object or Link of a package
 is kept

---
 activitystreams/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 81511c3..c88ad30 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -65,7 +65,7 @@ class Object(ApplicationActivityJson):
                  **kwargs):
         ApplicationActivityJson.__init__(self, acontext=acontext)
         self.id = id
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
         self.attachment = attachment
         self.attributedTo = attributedTo
         self.audience = audience
@@ -129,7 +129,7 @@ class Link(ApplicationActivityJson):
         self.width = width
         self.preview = preview
         self.context = context
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
 
     @classmethod
     def get(cls, data, *args, **kwargs):
-- 
2.43.0


From b49245681bd3af1dd0b443afe73fe539351f741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 53/93] fix: the id given to a Link is kept

---
 activitystreams/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index c88ad30..d8ca146 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -113,13 +113,14 @@ class Link(ApplicationActivityJson):
 
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
-                 context=None, type=None,
+                 context=None, type=None, id=None,
                  acontext=ACTIVITYSTREAMS_NS,
                  **kwargs):
         # grants the ability to access all @property objects associated with the
         # model via __properties__ on instantiated objects and
         # __get_properties__ on classes
         ApplicationActivityJson.__init__(self, acontext=acontext)
+        self.id = id
         self.href = href
         self.rel = rel
         self.mediaType = mediaType
-- 
2.43.0


From ddc68eb3ba41dff56b2619e4183ffe16ac9633b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 54/93] fix: the items given to a collection of a package are
 kept

---
 activitystreams/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index d8ca146..bc15259 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -363,7 +363,8 @@ class Collection(Object):
         self.last = last
         # some inheritors may override this with more specific orderings,
         # they should be given precedence
-        self.items = getattr(self, 'items', items)
+        specific = getattr(self, 'items', None)
+        self.items = items if specific is None else specific
 
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
-- 
2.43.0


From 334f1a69c7890299fd4e3b3e854b9ff8d99e1b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 55/93] fix: a total of zero items is kept when it is given

---
 activitystreams/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index bc15259..2e1c6fb 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -368,7 +368,7 @@ class Collection(Object):
 
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
-        self.totalItems = totalItems if totalItems else (
+        self.totalItems = totalItems if totalItems is not None else (
             0 if not isinstance(self.items, Sized) else len(self.items)
         )
 
-- 
2.43.0


From 702af0c165d780a4a8e340546cab7f989c62b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 56/93] fix: the items given to an OrderedCollectionPage are
 kept

---
 activitystreams/models.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 2e1c6fb..ea99d65 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -465,28 +465,22 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                  first=None, last=None, items=None, partOf=None, next=None,
                  prev=None, startIndex=None, orderedItems=None,
                  acontext='https://www.w3.org/ns/activitystreams', **kwargs):
-        # OrderedCollection has no special handling in its init that
-        # CollectionPage doesn't already do
-        OrderedCollection.__init__(self, orderedItems=orderedItems)
-        CollectionPage.__init__(self, id=id, type=type,
-                                attachment=attachment,
-                                attributedTo=attributedTo,
-                                audience=audience,
-                                content=content, context=context,
-                                name=name,
-                                endTime=endTime, generator=generator,
-                                icon=icon,
-                                image=image, inReplyTo=inReplyTo,
-                                location=location, preview=preview,
-                                published=published, replies=replies,
-                                startTime=startTime, summary=summary,
-                                tag=tag, updated=updated, url=url, to=to,
-                                bto=bto,
-                                cc=cc, bcc=bcc, mediaType=mediaType,
-                                duration=duration, totalItems=totalItems,
-                                current=current, first=first, last=last,
-                                partOf=partOf, next=next, prev=prev,
-                                acontext=acontext)
+        # OrderedCollection passes everything it does not handle itself on to
+        # CollectionPage
+        super().__init__(id=id, type=type, attachment=attachment,
+                         attributedTo=attributedTo, audience=audience,
+                         content=content, context=context, name=name,
+                         endTime=endTime, generator=generator, icon=icon,
+                         image=image, inReplyTo=inReplyTo,
+                         location=location, preview=preview,
+                         published=published, replies=replies,
+                         startTime=startTime, summary=summary,
+                         tag=tag, updated=updated, url=url, to=to, bto=bto,
+                         cc=cc, bcc=bcc, mediaType=mediaType,
+                         duration=duration, totalItems=totalItems,
+                         current=current, first=first, last=last, items=items,
+                         orderedItems=orderedItems, partOf=partOf, next=next,
+                         prev=prev, acontext=acontext, **kwargs)
         self.startIndex = startIndex if startIndex else 0
 
 
-- 
2.43.0


From f0e588176a45e005f4264e031262e51d7b3456f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 57/93] fix: the former type given to a Tombstone is kept

---
 activitystreams/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index ea99d65..d74b3e8 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -923,9 +923,10 @@ class Tombstone(Object):
     """
     type = "Tombstone"
 
-    def __init__(self, id, former_type=None, deleted=None, **kwargs):
+    def __init__(self, id, formerType=None, deleted=None, former_type=None,
+                 **kwargs):
         super().__init__(id, **kwargs)
-        self.former_type = former_type
+        self.formerType = former_type if formerType is None else formerType
         self.deleted = deleted
 
 
-- 
2.43.0


From 9ac8dcd2405bd732cb729d22383fe9138a7db428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 58/93] fix: the former type of a Tombstone may be the name of
 a type

---
 activitystreams/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 54825fe..ac59d63 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1396,7 +1396,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(models.Object,)).check
+    @SetterValidator(types=(models.Object, str)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From 6e7f0fc4a3540f6924737b3a2733851e827223fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 59/93] fix: attributedTo is a property of links too

---
 activitystreams/models.py  | 3 ++-
 activitystreams/package.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index d74b3e8..d4cd0b0 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -113,7 +113,7 @@ class Link(ApplicationActivityJson):
 
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
-                 context=None, type=None, id=None,
+                 context=None, type=None, id=None, attributedTo=None,
                  acontext=ACTIVITYSTREAMS_NS,
                  **kwargs):
         # grants the ability to access all @property objects associated with the
@@ -130,6 +130,7 @@ class Link(ApplicationActivityJson):
         self.width = width
         self.preview = preview
         self.context = context
+        self.attributedTo = attributedTo
         self.type = getattr(self, 'type', None) or type
 
     @classmethod
diff --git a/activitystreams/package.py b/activitystreams/package.py
index 00856d9..a8db3ea 100644
--- a/activitystreams/package.py
+++ b/activitystreams/package.py
@@ -158,6 +158,7 @@ property_mapping = {
                                         properties.Duration.__get_namespace__(),),
     models.Link.__get_namespace__(): (properties.Id.__get_namespace__(),
                                       properties.Type.__get_namespace__(),
+                                      properties.AttributedTo.__get_namespace__(),
                                       properties.Href.__get_namespace__(),
                                       properties.Rel.__get_namespace__(),
                                       properties.MediaType.__get_namespace__(),
-- 
2.43.0


From fa1713be8a3adbe9c61368845bb16818f3e9a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 60/93] fix: the unordered items given to a collection are kept

---
 activitystreams/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index d4cd0b0..1ea970c 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -346,7 +346,7 @@ class Collection(Object):
                  replies=None, startTime=None, summary=None, tag=None,
                  updated=None, url=None, to=None, bto=None, cc=None, bcc=None,
                  mediaType=None, duration=None, totalItems=None, current=None,
-                 first=None, last=None, items=None,
+                 first=None, last=None, items=None, unorderedItems=None,
                  acontext='https://www.w3.org/ns/activitystreams', **kwargs):
         super().__init__(id=id, type=type, attachment=attachment,
                          attributedTo=attributedTo, audience=audience,
@@ -362,6 +362,7 @@ class Collection(Object):
         self.current = current
         self.first = first
         self.last = last
+        self.unorderedItems = unorderedItems
         # some inheritors may override this with more specific orderings,
         # they should be given precedence
         specific = getattr(self, 'items', None)
-- 
2.43.0


From 5a9fe4f1ef413be85aaa7680c36ce5c1f1d34324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:05 +0000
Subject: [PATCH 61/93] fix: the ordered items given to any kind of collection
 are kept

---
 activitystreams/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 1ea970c..bea3922 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -347,6 +347,7 @@ class Collection(Object):
                  updated=None, url=None, to=None, bto=None, cc=None, bcc=None,
                  mediaType=None, duration=None, totalItems=None, current=None,
                  first=None, last=None, items=None, unorderedItems=None,
+                 orderedItems=None,
                  acontext='https://www.w3.org/ns/activitystreams', **kwargs):
         super().__init__(id=id, type=type, attachment=attachment,
                          attributedTo=attributedTo, audience=audience,
@@ -363,6 +364,7 @@ class Collection(Object):
         self.first = first
         self.last = last
         self.unorderedItems = unorderedItems
+        self.orderedItems = orderedItems
         # some inheritors may override this with more specific orderings,
         # they should be given precedence
         specific = getattr(self, 'items', None)
@@ -409,8 +411,8 @@ class OrderedCollection(Collection):
                          cc=cc, bcc=bcc, mediaType=mediaType, items=items,
                          duration=duration, totalItems=totalItems,
                          current=current, first=first, last=last,
-                         acontext=acontext, **kwargs)
-        self.orderedItems = orderedItems
+                         orderedItems=orderedItems, acontext=acontext,
+                         **kwargs)
 
 
 class CollectionPage(Collection):
-- 
2.43.0


From c140a2f959e1c5962631406956d91bb684c7266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 62/93] fix: converting an object does not change the namespace
 of the subtypes of its class

---
 jsonld/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index dd55f04..17c2c5e 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -186,7 +186,8 @@ class NamespacedObject:
 
     @__namespace__.setter_context(CLASS_CHANGE_CONTEXT)
     def __namespace__(self, new_ns):
-        self.__class__.__get_namespace__ = lambda: new_ns
+        if self.__class__.__get_namespace__() != new_ns:
+            self.__class__.__get_namespace__ = lambda: new_ns
 
     @__namespace__.getter_context(JSON_DATA_CONTEXT)
     def __namespace__(self):
-- 
2.43.0


From 38114d864fceb70b7e6e49c6f87db82ae2403ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 63/93] fix: JSON of an unknown or missing type raises a value
 error

---
 jsonld/engine/json_input.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jsonld/engine/json_input.py b/jsonld/engine/json_input.py
index a8714a5..258b241 100644
--- a/jsonld/engine/json_input.py
+++ b/jsonld/engine/json_input.py
@@ -61,10 +61,7 @@ class PropertyJsonIntake:
             class_type = 'default'
 
         # gets the class for the object that needs to be created from the
-        object_class = self.class_registry.get(class_type)
-        if not object_class:
-            ValueError(f'Provided data has invalid or missing "@type"')
-        return object_class
+        return self.class_registry.get(class_type)
 
     def _unpack_objects(self, data, context):
         """
@@ -112,6 +109,8 @@ class PropertyJsonIntake:
             logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
             data.update({'@context': DEFAULT_CONTEXT})
         object_class = self._get_object_class(data)
+        if not object_class:
+            raise ValueError(f'Provided data has invalid or missing "@type"')
 
         # only include values from the json that are properties of the class
         # unpack data structures and populate None values where appropriate
-- 
2.43.0


From 6d9da6b3de659f8481e4e2ea93154d7a0e4dc0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 64/93] fix: making a collection does not request its items

---
 activitystreams/models.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index bea3922..cc0bbdd 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -368,12 +368,15 @@ class Collection(Object):
         # some inheritors may override this with more specific orderings,
         # they should be given precedence
         specific = getattr(self, 'items', None)
-        self.items = items if specific is None else specific
+        items = items if specific is None else specific
+        self.items = items
 
         # supplied value takes priority, followed by size of items if they are
-        # sizeable, defaulting to 0 if not
+        # sizeable (an address or a map is one item, not many), defaulting to 0
+        # if not. Reading the items back would request them if they are a link
         self.totalItems = totalItems if totalItems is not None else (
-            0 if not isinstance(self.items, Sized) else len(self.items)
+            0 if not isinstance(items, Sized) or isinstance(items, (str, dict))
+            else len(items)
         )
 
     def __iter__(self):
-- 
2.43.0


From 9b269d3f70c106324992f7e955aa1a7e59cac3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 65/93] fix: static methods and nested classes work in the
 classes of a package

---
 jsonld/kamino.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 0bca12c..71388a9 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -136,7 +136,9 @@ class ClassCloner:
         # locate anything callable and wrap it so output values will be mapped,
         # when applicable
         for name, method in cls.__dict__.items():
-            if callable(method):
+            if isinstance(method, staticmethod):
+                setattr(cls, name, staticmethod(wrapper(method.__func__)))
+            elif callable(method) and not isinstance(method, type):
                 setattr(cls, name, wrapper(method))
 
     def wrap_properties(self, cls):
-- 
2.43.0


From 287e8db331e64a130390ebe3c2c4f57ec630923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 66/93] fix: read-only properties stay read-only in the classes
 of a package

---
 jsonld/kamino.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 71388a9..f0067c3 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -182,7 +182,7 @@ class ClassCloner:
             if not isinstance(prop, property):
                 # failsafe in case something unexpected comes in!
                 continue
-            wrapped = property(fget=get_wrapper(prop.fget),
-                               fset=set_wrapper(prop.fset),
+            wrapped = property(fget=prop.fget and get_wrapper(prop.fget),
+                               fset=prop.fset and set_wrapper(prop.fset),
                                fdel=prop.fdel, doc=prop.__doc__)
             setattr(cls, name, wrapped)
-- 
2.43.0


From 34ea3afb3ae4dd3ab671d427fa628f222d1f6500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 67/93] fix: what a class between two classes of a package
 overrides stays overridden

---
 jsonld/kamino.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index f0067c3..e9d9aa9 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -56,6 +56,14 @@ class ClassCloner:
         :param classes:
         :return:
         """
+        given = tuple(classes)
+        # classes between two of the given ones are cloned too; without them
+        # the clone of a parent would take precedence over what they override
+        between = [kls for cls in given for kls in cls.mro()
+                   if kls not in given and any(issubclass(kls, other)
+                                               for other in given)]
+        classes = given + tuple(dict.fromkeys(between))
+
         # creates a dictionary that organizes classes based on how many
         # package-internal dependencies they have
         ordered = {}
@@ -98,7 +106,7 @@ class ClassCloner:
             self.wrap_properties(class_ref[cls])
             # give cloned classes a reference back to their creator
             setattr(class_ref[cls], '__jsonld_package__', self)
-        return class_ref
+        return {cls: clone for cls, clone in class_ref.items() if cls in given}
 
     def change_class(self, obj, new_class):
         # fetch the property values, if any, that are applicable; then
-- 
2.43.0


From 3bbcc43202ba5e2a7c82ed52c578e252d8de418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 68/93] fix: the namespace, classes and properties of a package
 cannot be reassigned when they are empty

---
 jsonld/package.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index d77b823..5595074 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -49,7 +49,7 @@ class JsonLdPackage(ClassCloner):
     @namespace.setter
     def namespace(self, ns):
         # can only be set once, during construction
-        if self.namespace:
+        if hasattr(self, '___namespace___'):
             raise AttributeError(f'JsonLdPackage namespace is immutable')
         if not isinstance(ns, str):
             raise TypeError(f'JsonLdPackage namespace must be a string, ' +
@@ -66,7 +66,7 @@ class JsonLdPackage(ClassCloner):
 
     @objects.setter
     def objects(self, objects: Iterable):
-        if self.objects:
+        if hasattr(self, '___objects___'):
             raise AttributeError(f'JsonLdPackage classes are immutable')
         for obj in objects:
             logger.info(f'Setting "{obj.__get_namespace__()}" in package ' +
@@ -79,7 +79,7 @@ class JsonLdPackage(ClassCloner):
 
     @properties.setter
     def properties(self, properties: dict):
-        if self.properties:
+        if hasattr(self, '___properties___'):
             raise AttributeError(f'JsonLdPackage properties are immutable')
         for prop in properties:
             logger.info(f'Setting "{prop.__get_namespace__()}" in package ' +
-- 
2.43.0


From 9e8e20391188ec64b3c6b3861d8f3529d2107e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 69/93] fix: a package can be made without a property mapping

---
 jsonld/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 5595074..e46e1dd 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -31,7 +31,7 @@ class JsonLdPackage(ClassCloner):
         self.property_ref = self.clone_classes(properties)
         self.properties = tuple(self.property_ref.values())
         # property_mapping connects properties to classes on instantiation
-        self.property_mapping = property_mapping
+        self.property_mapping = property_mapping or {}
 
         self.__ref = {obj.__get_namespace__(): obj
                       for obj in self.objects + self.properties}
-- 
2.43.0


From 3920263ead1d1809172c3424071a7a9d5144bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 70/93] fix: the classes of a package use the property that
 their source class uses

---
 jsonld/kamino.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index e9d9aa9..8e0b6a1 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -103,7 +103,7 @@ class ClassCloner:
             class_ref[cls] = type(cls.__name__, inherits, cls.__dict__.copy())
             # change the return value for callables in class and properties
             self.wrap_callables(class_ref[cls])
-            self.wrap_properties(class_ref[cls])
+            self.wrap_properties(class_ref[cls], cls)
             # give cloned classes a reference back to their creator
             setattr(class_ref[cls], '__jsonld_package__', self)
         return {cls: clone for cls, clone in class_ref.items() if cls in given}
@@ -149,10 +149,12 @@ class ClassCloner:
             elif callable(method) and not isinstance(method, type):
                 setattr(cls, name, wrapper(method))
 
-    def wrap_properties(self, cls):
+    def wrap_properties(self, cls, source):
         """
         Wraps the fget of a property with a function that changes the return
-        value if the class of the return value is in the package
+        value if the class of the return value is in the package. Properties
+        are looked up on the class that was cloned, a parent of the clone may
+        have one that the cloned class overrides
         """
         def get_wrapper(fn):
             def wrap_return(*args, **kwargs):
@@ -176,12 +178,12 @@ class ClassCloner:
         # considers both PropertyAwareObject and JsonProperty objects
         if '__get_properties__' in dir(cls):
             props = {**props,
-                     **{prop: getattr(cls, prop)
+                     **{prop: getattr(source, prop)
                         for prop in cls.__get_properties__(refresh=True)}}
         if '__get_property_name__' in dir(cls):
             props = {**props,
                      **{cls.__get_property_name__():
-                            getattr(cls, cls.__get_property_name__())}}
+                            getattr(source, cls.__get_property_name__())}}
 
         # does not change the underlying function; args and kwargs will go
         # through unaltered, but returned values will come back as the
-- 
2.43.0


From f74844c1c2c85e4816644b9146ac6dc15aefdf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 71/93] fix: the property list of a class does not depend on
 its parents having been used before

---
 jsonld/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index 17c2c5e..6ddabe0 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -322,7 +322,8 @@ class PropertyAwareObject(NamespacedObject):
         Creates a list of all @property objects defined and inherited in
         this class
         """
-        if not hasattr(cls, '__properties__') or refresh:
+        # a list cached by a parent class is not the list of this one
+        if '__properties__' not in cls.__dict__ or refresh:
             # we cache a copy
             cls.__properties__ = tuple(set(chain(key for kls in cls.mro()
                                              for key, value in
-- 
2.43.0


From 67b8deb18e23c6db6c48a05db256fc947ffb44f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 72/93] fix: a property class derived from another one
 registers its own property

---
 jsonld/base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index 6ddabe0..38a2df7 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -259,8 +259,14 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
-            prop = [key for key, value in cls.__dict__.items()
+        # a name cached by a parent class is not the name of this one
+        if '__property_name__' not in cls.__dict__ or refresh:
+            # a class without a property of its own has the one it inherits
+            owner = next((kls for kls in cls.mro()
+                          if issubclass(kls, JsonProperty) and
+                          any(isinstance(value, property)
+                              for value in kls.__dict__.values())), cls)
+            prop = [key for key, value in owner.__dict__.items()
                     if isinstance(value, property)]
             # the registration process only supports ONE property per class;
             # this is intentional
@@ -279,10 +285,10 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
+        if '__property_name__' not in cls.__dict__ or refresh:
             cls.__property_name__ = cls.__get_property_name__(refresh=True)
         # caches the registration for ease of use
-        if not hasattr(cls, '__registration__') or refresh:
+        if '__registration__' not in cls.__dict__ or refresh:
             prop = getattr(cls, cls.__property_name__, None)
             if prop:
                 cls.__registration__ = (prop.fget, prop.fset, prop.fdel,
-- 
2.43.0


From e4d15504f151cd839bc265b78be849f5739685db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 73/93] fix: a package links its own accessors when a property
 class was registered before

---
 jsonld/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index e46e1dd..421e896 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -108,7 +108,7 @@ class JsonLdPackage(ClassCloner):
         :return:
         """
         setattr(object_class, property_class.__get_property_name__(),
-                property(*property_class.__get_registration__()))
+                property(*property_class.__get_registration__(refresh=True)))
 
     def link_properties(self, property_namespaces: Iterable[str],
                         object_namespace: str):
-- 
2.43.0


From 1f4f1116e5f7876b83cc927e19fd2d7b987c60b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 74/93] fix: combined packages keep their property mapping, a
 difference keeps the left-hand properties

---
 jsonld/package.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 421e896..8f786f6 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -156,8 +156,10 @@ class JsonLdPackage(ClassCloner):
                            if prp.__get_namespace__() not in new_namespaces)
         properties = kept_props + other.properties
 
+        mapping = {**self.property_mapping, **other.property_mapping}
+
         return JsonLdPackage(namespace=self.namespace, objects=objects,
-                             properties=properties)
+                             properties=properties, property_mapping=mapping)
 
     def __sub__(self, other):
         if not isinstance(other, JsonLdPackage):
@@ -167,9 +169,14 @@ class JsonLdPackage(ClassCloner):
                               if cls.__get_namespace__() not in removed_obj_ns)
 
         removed_prp_ns = [cls.__get_namespace__() for cls in other.properties]
-        remaining_prps = tuple(prp for prp in other.properties
+        remaining_prps = tuple(prp for prp in self.properties
                                if prp.__get_namespace__() not in removed_prp_ns)
 
+        mapping = {obj: tuple(prp for prp in props if prp not in removed_prp_ns)
+                   for obj, props in self.property_mapping.items()
+                   if obj not in removed_obj_ns}
+
         return JsonLdPackage(namespace=self.namespace,
                              objects=remaining_objs,
-                             properties=remaining_prps)
+                             properties=remaining_prps,
+                             property_mapping=mapping)
-- 
2.43.0


From 4bfd6097831cc764e5194e4b8703783991bad584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 75/93] fix: engines take one or several packages and can be
 combined with packages and engines

---
 jsonld/engine/jsonld_engine.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index 8f1eadd..4d386d4 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -3,7 +3,6 @@ Module for storing the JsonLdEngine class, which is capable of transforming
 json text into python objects (and vice-versa) based on the loaded packages
 """
 import logging
-from collections.abc import Iterable
 from typing import Iterable as typeIterable
 
 from jsonld.engine.json_input import PropertyJsonIntake
@@ -17,7 +16,10 @@ class JsonLdEngine(PropertyJsonIntake):
         :param packages: the packages to load into the engine
         """
         # keeps a copy of all the packages provided
-        packages = (packages,) if packages is not Iterable else packages
+        packages = ((packages,) if isinstance(packages, JsonLdPackage)
+                    else tuple(packages))
+        if not all(isinstance(pkg, JsonLdPackage) for pkg in packages):
+            raise TypeError('JsonLdEngine can only load JsonLdPackage objects')
         self.___packages___ = packages
         if not self.packages:
             raise ValueError(f'No packages provided!')
@@ -90,7 +92,7 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __add__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages + other)
+            return JsonLdEngine(self.packages + (other,))
 
         if isinstance(other, JsonLdEngine):
             # combine packages from both engines with the second engine's
@@ -102,10 +104,10 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __sub__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages - other)
+            return JsonLdEngine(self.package - other)
 
         if isinstance(other, JsonLdEngine):
-            return JsonLdEngine(self.packages - other.packages)
+            return JsonLdEngine(self.package - other.package)
 
         raise TypeError(f'Can only subtract "JsonLdPackage" and ' +
                         f'"JsonLdEngine" from JsonLdEngine objects')
-- 
2.43.0


From 0753e9f4eb8ee7ff7b8d12e27ba63641c7153257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 76/93] fix: durations are written with their sign, their part
 of a second and at least one component

---
 jsonld/engine/utils.py   | 9 +++++++--
 jsonld/tools/datetime.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index 5b0d5b9..69662f4 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -71,12 +71,17 @@ def stringify_timedelta(obj) -> str:
     :param obj: timedelta to convert
     :return: "P<years>Y<months>M<days>DT<hours>H<minutes>M<seconds>S" string
     """
+    if obj.days < 0:
+        # the sign of a negative period precedes the whole period
+        return f'-{stringify_timedelta(-obj)}'
     years = obj.days // 365
     months = (obj.days % 365) // 30
     days = (obj.days % 365) % 30
     hours = obj.seconds // 3600
     minutes = (obj.seconds % 3600) // 60
     seconds = (obj.seconds % 3600) % 60
+    if obj.microseconds:
+        seconds = f'{seconds}.{obj.microseconds:06d}'
     # P<years>Y<months>M<days>D
     ymd = 'P' + (f'{years}Y' if years else '') + \
           (f'{months}M' if months else '') + \
@@ -86,8 +91,8 @@ def stringify_timedelta(obj) -> str:
           (f'{minutes}M' if minutes else '') + \
           (f'{seconds}S' if seconds else '')
     # The entire HMS section is optional, however we ALWAYS need at least the
-    # "P" from the ymd section (indicates this is a "period")
-    return f'{ymd}{hms if len(hms) > 1 else ""}'
+    # "P" from the ymd section (indicates this is a "period") and one component
+    return f'{ymd}{hms if len(hms) > 1 else ""}' if obj else 'PT0S'
 
 
 def stringify_datetime(obj: datetime) -> str:
diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index bcd926d..cc04b39 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -49,12 +49,17 @@ def timedelta_str(obj) -> str:
     :param obj: timedelta to convert
     :return: "P<years>Y<months>M<days>DT<hours>H<minutes>M<seconds>S" string
     """
+    if obj.days < 0:
+        # the sign of a negative period precedes the whole period
+        return f'-{timedelta_str(-obj)}'
     years = obj.days // 365
     months = (obj.days % 365) // 30
     days = (obj.days % 365) % 30
     hours = obj.seconds // 3600
     minutes = (obj.seconds % 3600) // 60
     seconds = (obj.seconds % 3600) % 60
+    if obj.microseconds:
+        seconds = f'{seconds}.{obj.microseconds:06d}'
     # P<years>Y<months>M<days>D
     ymd = 'P' + (f'{years}Y' if years else '') + \
           (f'{months}M' if months else '') + \
@@ -64,8 +69,8 @@ def timedelta_str(obj) -> str:
           (f'{minutes}M' if minutes else '') + \
           (f'{seconds}S' if seconds else '')
     # The entire HMS section is optional, however we ALWAYS need at least the
-    # "P" from the ymd section (indicates this is a "period")
-    return f'{ymd}{hms if len(hms) > 1 else ""}'
+    # "P" from the ymd section (indicates this is a "period") and one component
+    return f'{ymd}{hms if len(hms) > 1 else ""}' if obj else 'PT0S'
 
 
 def datetime_str(obj: datetime) -> str:
-- 
2.43.0


From d2cd5e0ee711c3ea2446b8dc704a2dab5eaa9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:22 +0000
Subject: [PATCH 77/93] fix: a transaction that cannot be started leaves
 automatic mode on and no identifier

---
 citrine/persistence.py         | 4 +++-
 citrine/storage/transaction.py | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index f19f1f4..02bf69a 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -32,10 +32,12 @@ class CitrineTransactionManager(TransactionManager):
         self.logger.setLevel(logging.INFO)
 
     def __enter__(self):
+        # nothing is left behind by a transaction that could not be started
+        transaction = super().__enter__()
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index 825e160..37fe146 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -22,10 +22,12 @@ class TransactionManager(ZoTransactionManager):
         self.logger.setLevel(logging.INFO)
 
     def __enter__(self):
+        # nothing is left behind by a transaction that could not be started
+        transaction = super().__enter__()
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
@@ -55,10 +57,12 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
         self.logger.setLevel(logging.INFO)
 
     def __enter__(self):
+        # nothing is left behind by a transaction that could not be started
+        transaction = super().__enter__()
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-- 
2.43.0


From fc31651771508a8d5ed33b139f5adb2dd7d58c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:22 +0000
Subject: [PATCH 78/93] fix: the size of a module is the size of its container

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 1e2cf46..5462cfc 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -143,7 +143,7 @@ class DbModule:
     @property
     def size(self):
         with self.db as connection:
-            return connection.size
+            return connection.container.size
 
     def __init__(self, path: str = '.'):
         self.path = path
-- 
2.43.0


From 716507d8b0eccb281845d18d991a972fd14b7ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:22 +0000
Subject: [PATCH 79/93] fix: the first opening of a database keeps its storage
 open, whatever kind it is

---
 citrine/database/containerdb.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 580cbb8..ed5c5cc 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -113,14 +113,13 @@ class ContainerDb(DB):
                 xrefs=xrefs, large_record_size=large_record_size,
                 **storage_args)
         except POSKeyError:
-            # often happens if the db is newly created
-            if not isinstance(storage, FileStorage):
-                # closing if storage is FileStorage will make the db unopenable
-                self.close()
-                # closing replaces the method on the instance
-                self.__dict__.pop('close', None)
-            db = DB(storage)
-            conn = db.open()
+            # often happens if the db is newly created; the storage is open and
+            # closing it would make it unusable
+            storage = self.storage
+            if databases is not None:
+                # registered by the attempt that failed
+                databases.pop(database_name, None)
+            conn = DB(storage).open()
             try:
                 with conn.transaction_manager as tm:
                     # if this exists, do nothing, the exception is unrelated to
@@ -130,11 +129,6 @@ class ContainerDb(DB):
                         tm.commit()
             finally:
                 conn.close()
-            if not isinstance(storage, FileStorage):
-                db.close()
-            if databases is not None:
-                # registered by the attempt that failed
-                databases.pop(database_name, None)
             super().__init__(
                 storage=storage, pool_size=pool_size,
                 pool_timeout=pool_timeout, cache_size=cache_size,
@@ -144,8 +138,7 @@ class ContainerDb(DB):
                 historical_cache_size_bytes=historical_cache_size_bytes,
                 historical_timeout=historical_timeout,
                 database_name=database_name, databases=databases,
-                xrefs=xrefs, large_record_size=large_record_size,
-                **storage_args)
+                xrefs=xrefs, large_record_size=large_record_size)
 
     @classmethod
     def create(cls, file_name: str, capacity: int = DEFAULT_CONTAINER_SIZE,
-- 
2.43.0


From 614ed9bcae156e238011f0145a2aaf370878d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:22 +0000
Subject: [PATCH 80/93] fix: an opening that fails closes the storage it opened

---
 citrine/client/container_client.py |  42 +++++++-----
 citrine/database/containerdb.py    | 103 +++++++++++++++++++----------
 2 files changed, 94 insertions(+), 51 deletions(-)

diff --git a/citrine/client/container_client.py b/citrine/client/container_client.py
index 058e180..1baf800 100644
--- a/citrine/client/container_client.py
+++ b/citrine/client/container_client.py
@@ -179,21 +179,29 @@ class ContainerClient(ContainerDb):
             # For tests:
             _client_factory=_client_factory)
 
-        # Link to a local ContainerDb
-        client = cls.load(client, pool_size=pool_size,
-            pool_timeout=pool_timeout, cache_size=cache_size,
-            cache_size_bytes=cache_size_bytes,
-            historical_pool_size=historical_pool_size,
-            historical_cache_size=historical_cache_size,
-            historical_cache_size_bytes=historical_cache_size_bytes,
-            historical_timeout=historical_timeout, database_name=database_name,
-            databases=databases, xrefs=xrefs,
-            large_record_size=large_record_size)
-
-        # If not connection.container and create==True, create a new Container
-        with client as connection:
-            if not getattr(connection.root, 'container', None):
-                with connection.transaction_manager as tm:
-                    connection.root.container = Container.new(strict=strict)
-                    tm.commit()
+        storage = client
+        try:
+            # Link to a local ContainerDb
+            client = cls.load(client, pool_size=pool_size,
+                pool_timeout=pool_timeout, cache_size=cache_size,
+                cache_size_bytes=cache_size_bytes,
+                historical_pool_size=historical_pool_size,
+                historical_cache_size=historical_cache_size,
+                historical_cache_size_bytes=historical_cache_size_bytes,
+                historical_timeout=historical_timeout,
+                database_name=database_name,
+                databases=databases, xrefs=xrefs,
+                large_record_size=large_record_size)
+
+            # If not connection.container and create==True, create a new
+            # Container
+            with client as connection:
+                if not getattr(connection.root, 'container', None):
+                    with connection.transaction_manager as tm:
+                        connection.root.container = Container.new(strict=strict)
+                        tm.commit()
+        except BaseException:
+            # nobody else can close it
+            storage.close()
+            raise
         return client
diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index ed5c5cc..af1cf74 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -115,20 +115,15 @@ class ContainerDb(DB):
         except POSKeyError:
             # often happens if the db is newly created; the storage is open and
             # closing it would make it unusable
-            storage = self.storage
+            given, storage = storage, self.storage
             if databases is not None:
                 # registered by the attempt that failed
                 databases.pop(database_name, None)
-            conn = DB(storage).open()
             try:
-                with conn.transaction_manager as tm:
-                    # if this exists, do nothing, the exception is unrelated to
-                    # the database being new!!
-                    if not getattr(conn.root, 'container', None):
-                        conn.root.container = Container.new()
-                        tm.commit()
-            finally:
-                conn.close()
+                self.__initialise(storage)
+            except BaseException:
+                self.__close_own_storage(given)
+                raise
             super().__init__(
                 storage=storage, pool_size=pool_size,
                 pool_timeout=pool_timeout, cache_size=cache_size,
@@ -139,6 +134,34 @@ class ContainerDb(DB):
                 historical_timeout=historical_timeout,
                 database_name=database_name, databases=databases,
                 xrefs=xrefs, large_record_size=large_record_size)
+        except BaseException:
+            self.__close_own_storage(storage)
+            raise
+
+    @staticmethod
+    def __initialise(storage):
+        """
+        Stores a container in a storage that does not have one
+        """
+        conn = DB(storage).open()
+        try:
+            with conn.transaction_manager as tm:
+                # if this exists, do nothing, the exception is unrelated to
+                # the database being new!!
+                if not getattr(conn.root, 'container', None):
+                    conn.root.container = Container.new()
+                    tm.commit()
+        finally:
+            conn.close()
+
+    def __close_own_storage(self, given):
+        """
+        Closes the storage of a database that could not be opened, unless it
+        was given by the caller, who can close it
+        """
+        storage = getattr(self, 'storage', None)
+        if storage is not None and storage is not given:
+            storage.close()
 
     @classmethod
     def create(cls, file_name: str, capacity: int = DEFAULT_CONTAINER_SIZE,
@@ -185,14 +208,19 @@ class ContainerDb(DB):
                               stop=stop, quota=quota, pack_gc=pack_gc,
                               pack_keep_old=pack_keep_old, packer=packer,
                               blob_dir=blob_dir)
-        # store the container in the database
-        conn = DB(storage).open()
         try:
-            with conn.transaction_manager as tm:
-                conn.root.container = container
-                tm.commit()
-        finally:
-            conn.close()
+            # store the container in the database
+            conn = DB(storage).open()
+            try:
+                with conn.transaction_manager as tm:
+                    conn.root.container = container
+                    tm.commit()
+            finally:
+                conn.close()
+        except BaseException:
+            # nobody else can close it
+            storage.close()
+            raise
         return storage
 
     @classmethod
@@ -362,23 +390,30 @@ class ContainerDb(DB):
 
         :return: newly created ``ContainerDb`` object
         """
-        return cls.load(cls.create(file_name, capacity=capacity,
-                                   create=create, read_only=read_only,
-                                   stop=stop, quota=quota, pack_gc=pack_gc,
-                                   pack_keep_old=pack_keep_old, packer=packer,
-                                   blob_dir=blob_dir,
-                                   strict=strict,
-                                   ),
-                        pool_size=pool_size, pool_timeout=pool_timeout,
-                        cache_size=cache_size,
-                        cache_size_bytes=cache_size_bytes,
-                        historical_timeout=historical_timeout,
-                        historical_pool_size=historical_pool_size,
-                        historical_cache_size=historical_cache_size,
-                        historical_cache_size_bytes=historical_cache_size_bytes,
-                        database_name=database_name,
-                        databases=databases, xrefs=xrefs,
-                        large_record_size=large_record_size)
+        storage = cls.create(file_name, capacity=capacity,
+                             create=create, read_only=read_only,
+                             stop=stop, quota=quota, pack_gc=pack_gc,
+                             pack_keep_old=pack_keep_old, packer=packer,
+                             blob_dir=blob_dir,
+                             strict=strict,
+                             )
+        try:
+            return cls.load(storage,
+                            pool_size=pool_size, pool_timeout=pool_timeout,
+                            cache_size=cache_size,
+                            cache_size_bytes=cache_size_bytes,
+                            historical_timeout=historical_timeout,
+                            historical_pool_size=historical_pool_size,
+                            historical_cache_size=historical_cache_size,
+                            historical_cache_size_bytes=
+                            historical_cache_size_bytes,
+                            database_name=database_name,
+                            databases=databases, xrefs=xrefs,
+                            large_record_size=large_record_size)
+        except BaseException:
+            # nobody else can close it
+            storage.close()
+            raise
 
     def __enter__(self):
         """
-- 
2.43.0


From 10514d00e23e77ffb12e2620158bbd33a13dded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:22 +0000
Subject: [PATCH 81/93] fix: a container created on the first opening has the
 strict setting that was asked for

---
 citrine/client/container_client.py |  2 +-
 citrine/database/containerdb.py    | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/citrine/client/container_client.py b/citrine/client/container_client.py
index 1baf800..0568948 100644
--- a/citrine/client/container_client.py
+++ b/citrine/client/container_client.py
@@ -191,7 +191,7 @@ class ContainerClient(ContainerDb):
                 historical_timeout=historical_timeout,
                 database_name=database_name,
                 databases=databases, xrefs=xrefs,
-                large_record_size=large_record_size)
+                large_record_size=large_record_size, strict=strict)
 
             # If not connection.container and create==True, create a new
             # Container
diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index af1cf74..8de55b1 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -37,7 +37,7 @@ class ContainerDb(DB):
                  historical_cache_size_bytes: int = 0,
                  historical_timeout: int = 300, database_name: str = 'unnamed',
                  databases: dict = None, xrefs: bool = True,
-                 large_record_size: int = 16777216,
+                 large_record_size: int = 16777216, strict: bool = False,
                  **storage_args):
         """
         Creates a database object that uses a ``Container`` as a way of
@@ -120,7 +120,7 @@ class ContainerDb(DB):
                 # registered by the attempt that failed
                 databases.pop(database_name, None)
             try:
-                self.__initialise(storage)
+                self.__initialise(storage, strict)
             except BaseException:
                 self.__close_own_storage(given)
                 raise
@@ -139,7 +139,7 @@ class ContainerDb(DB):
             raise
 
     @staticmethod
-    def __initialise(storage):
+    def __initialise(storage, strict):
         """
         Stores a container in a storage that does not have one
         """
@@ -149,7 +149,7 @@ class ContainerDb(DB):
                 # if this exists, do nothing, the exception is unrelated to
                 # the database being new!!
                 if not getattr(conn.root, 'container', None):
-                    conn.root.container = Container.new()
+                    conn.root.container = Container.new(strict=strict)
                     tm.commit()
         finally:
             conn.close()
@@ -231,7 +231,7 @@ class ContainerDb(DB):
              historical_cache_size_bytes: int = 0,
              historical_timeout: int = 300, database_name: str = 'unnamed',
              databases: dict = None, xrefs: bool = True,
-             large_record_size: int = 16777216):
+             large_record_size: int = 16777216, strict: bool = False):
         """
         Load a ``ContainerDb`` from the provided location
 
@@ -286,6 +286,9 @@ class ContainerDb(DB):
         larger than this, a warning is issued, suggesting that blobs should
         be used instead.
 
+        :param strict: Whether a container that has to be created because
+        there is none enforces size maximums via exceptions
+
         :return: ``ContainerDb`` at the location
         """
         return cls(storage, pool_size=pool_size, pool_timeout=pool_timeout,
@@ -296,7 +299,7 @@ class ContainerDb(DB):
                    historical_timeout=historical_timeout,
                    database_name=database_name,
                    databases=databases, xrefs=xrefs,
-                   large_record_size=large_record_size)
+                   large_record_size=large_record_size, strict=strict)
 
     @classmethod
     def new(cls, file_name: str, capacity: int = DEFAULT_CONTAINER_SIZE,
-- 
2.43.0


From f2e263a07387399835534f1689d1d81cca8bd08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:52 +0000
Subject: [PATCH 82/93] fix: what is stored can be replaced in a strict
 collection that holds more than its maximum

---
 citrine/storage/collection.py | 3 ++-
 citrine/storage/group.py      | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 8f3a82c..61ddaaa 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -162,7 +162,8 @@ class Collection(Persistent):
         inserted will exceed the limit in strict mode
         """
         new_keys = [key for key in collection.keys() if key not in self.keys()]
-        if self.size + len(new_keys) > self.max_size and self.strict:
+        if (new_keys and self.size + len(new_keys) > self.max_size
+                and self.strict):
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index bfcf4ae..1dfc3b8 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -322,8 +322,10 @@ class Group(Persistent):
         :raises CollectionCapacityError: if the size of the new keys to be
         inserted will exceed the limit in strict mode
         """
-        new_keys = (key for key in collection.keys() if key not in self.keys())
-        if len(tuple(new_keys)) + self.size > self.max_size and self.strict:
+        new_keys = tuple(key for key in collection.keys()
+                         if key not in self.keys())
+        if (new_keys and len(new_keys) + self.size > self.max_size
+                and self.strict):
             raise GroupCapacityError("Maximum size reached! Cannot perform update")
 
         num_collections = len(self.collections)
-- 
2.43.0


From cf35c9c74a509560e3197ec16a83dfe867299800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:34 +0000
Subject: [PATCH 83/93] fix: the definition of a group can be used for several
 groups

---
 citrine/storage/group.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 1dfc3b8..58d9fb5 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -270,6 +270,8 @@ class Group(Persistent):
             collections = tuple(Collection(max_size=max_collection_size)
                                 for _ in range(size))
             return Group(collections=collections, strict=strict)
+        # the gaps are filled in a copy, the definition belongs to the caller
+        custom = dict(custom)
         # ensure any gaps are filled if custom definition is provided
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
-- 
2.43.0


From f6a40f5baebb1a8585917ccfd9a85bbcd3ed4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 84/93] fix: the managed storage module can be imported

---
 citrine/storage/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/storage/storage.py b/citrine/storage/storage.py
index a81e631..1019942 100644
--- a/citrine/storage/storage.py
+++ b/citrine/storage/storage.py
@@ -4,7 +4,7 @@ Classes and functions for managing a single object database
 from ZODB import DB
 
 from citrine.exceptions import CitrineIncompatibleMethodError
-from citrine.connection import ManagedConnection
+from citrine.connection.connection import ManagedConnection
 
 from citrine.storage.transaction import TransactionManager
 
-- 
2.43.0


From 0cf42b15f27abab1a60bf9389ce94fbd87c10194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 85/93] fix: nested uses of a managed storage each close their
 own connection

---
 citrine/storage/storage.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/citrine/storage/storage.py b/citrine/storage/storage.py
index 1019942..2f2b772 100644
--- a/citrine/storage/storage.py
+++ b/citrine/storage/storage.py
@@ -1,6 +1,8 @@
 """
 Classes and functions for managing a single object database
 """
+import threading
+
 from ZODB import DB
 
 from citrine.exceptions import CitrineIncompatibleMethodError
@@ -165,8 +167,9 @@ class ManagedStorage(DB):
         DOES NOT ALLOW FOR USING AN EXISTING TRANSACTION MANAGER!
         :return: CitrineConnection
         """
-        self.__context_connection = self.open()
-        return self.__context_connection
+        connection = self.open()
+        self.__context_connections().append(connection)
+        return connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         """
@@ -176,10 +179,15 @@ class ManagedStorage(DB):
         :param exc_tb:
         :return:
         """
-        self.__context_connection.close()
-        self.__context_connection = None
-        del self.__context_connection
+        self.__context_connections().pop().close()
 
+    def __context_connections(self):
+        """
+        Connections handed out to the current thread and not yet closed, the
+        innermost last
+        """
+        local = self.__dict__.setdefault('___context___', threading.local())
+        return local.__dict__.setdefault('connections', [])
 
     @CitrineIncompatibleMethodError.override_method
     def open_then_close_db_when_connection_closes(self):
-- 
2.43.0


From 335b7ef552b55267980f835820b7f71e768cf895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:23 +0000
Subject: [PATCH 86/93] fix: a managed storage that cannot be set up leaves no
 connection open

---
 citrine/storage/storage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/storage.py b/citrine/storage/storage.py
index 2f2b772..780f148 100644
--- a/citrine/storage/storage.py
+++ b/citrine/storage/storage.py
@@ -151,8 +151,10 @@ class ManagedStorage(DB):
                        xrefs=xrefs, large_record_size=large_record_size,
                        **storage_args)
         conn = db.open()
-        conn.setup()
-        conn.close()
+        try:
+            conn.setup()
+        finally:
+            conn.close()
         return db
 
     def __getitem__(self, item):
-- 
2.43.0


From 297c4172f437ad34906e6a0ac4416bcb6e2103e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:39 +0000
Subject: [PATCH 87/93] fix: properties linked to or removed from a class of a
 package take full effect

---
 jsonld/package.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 8f786f6..b1d6fe3 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -107,30 +107,46 @@ class JsonLdPackage(ClassCloner):
         :param object_class: PropertyAwareObject to accept the new property
         :return:
         """
+        self.__link(property_class, object_class)
+        self.__refresh_properties(object_class)
+
+    @staticmethod
+    def __link(property_class: JsonProperty,
+               object_class: PropertyAwareObject):
         setattr(object_class, property_class.__get_property_name__(),
                 property(*property_class.__get_registration__(refresh=True)))
 
+    def __refresh_properties(self, object_class: PropertyAwareObject):
+        # a class lists the properties of its parents, too
+        for cls in (object_class,) + tuple(self.objects):
+            if issubclass(cls, object_class):
+                cls.__get_properties__(refresh=True)
+
     def link_properties(self, property_namespaces: Iterable[str],
                         object_namespace: str):
         object_class = self[object_namespace]
         if not object_class:
             raise ValueError(f'No such object "{object_namespace}" in package' +
                              f' "{self.namespace}"')
+        property_classes = []
         for property_namespace in property_namespaces:
             property_class = self[property_namespace]
             if not property_class:
                 raise ValueError(f'No such property "{property_namespace}" ' +
                                  f'in package "{self.namespace}"')
-            self.link_property(property_class, object_class)
+            property_classes.append(property_class)
+        for property_class in property_classes:
+            self.__link(property_class, object_class)
+        self.__refresh_properties(object_class)
 
     def update_property_link(self, property_class: JsonProperty,
                              object_class: PropertyAwareObject):
-        setattr(object_class, property_class.__get_property_name__(),
-                property(*property_class.__get_registration__()))
+        self.link_property(property_class, object_class)
 
     def remove_property_link(self, property_name: str,
                              object_class: PropertyAwareObject):
         delattr(object_class, property_name)
+        self.__refresh_properties(object_class)
 
     def __getitem__(self, keys):
         if isinstance(keys, str):
-- 
2.43.0


From 4a8d403602d23d1564569507f9b9991d67d09fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:40 +0000
Subject: [PATCH 88/93] fix: going through a collection gives each of its
 items, and nothing if it has none

---
 activitystreams/models.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index cc0bbdd..ed892b6 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -380,9 +380,12 @@ class Collection(Object):
         )
 
     def __iter__(self):
-        if not self.items:
-            yield
-        for item in self.items:
+        # reading the items requests them if they are a link
+        items = self.items
+        if isinstance(items, (str, dict, Object, Link)):
+            # one item, not many
+            items = [items]
+        for item in items if items is not None else ():
             yield item
 
 
-- 
2.43.0


From 4df16115c1c9a6d5a2512008d9d25167b518019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:02 +0000
Subject: [PATCH 89/93] fix: indexing an object with names from an iterator
 gave no properties

---
 jsonld/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index 38a2df7..70316f2 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -314,7 +314,7 @@ class PropertyAwareObject(NamespacedObject):
             yield prop, getattr(self, prop)
 
     def __getitem__(self, keys):
-        keys = [keys] if isinstance(keys, str) else keys
+        keys = [keys] if isinstance(keys, str) else tuple(keys)
         if any(key not in self.__properties__ for key in keys):
             bad_keys = [key for key in keys if key not in self.__properties__]
             raise KeyError(f'''Key{'s' if len(bad_keys) > 1 else ''} ''' +
-- 
2.43.0


From 00c0416562f874756b1462a2990df9e41dc8d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 90/93] fix: looking up identifiers from an iterator in a
 package gave no results

---
 jsonld/package.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonld/package.py b/jsonld/package.py
index b1d6fe3..ac22564 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -151,6 +151,7 @@ class JsonLdPackage(ClassCloner):
     def __getitem__(self, keys):
         if isinstance(keys, str):
             return self.__ref.get(keys, None)
+        keys = tuple(keys)
         if any(not isinstance(key, str) for key in keys):
             raise ValueError('JsonLdPackage getitem can only accept strings')
         return [self.__ref.get(key, None) for key in keys]
-- 
2.43.0


From 115545454d1035525455fbf67144cd386aae2769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:45 +0000
Subject: [PATCH 91/93] fix: a class of a package kept the name of another type
 when its type was linked to it

---
 activitystreams/models.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index ed892b6..be0568c 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -26,8 +26,12 @@ def type_name(cls):
     "type" attribute of its base classes with a property, so the name is the
     first one found among the class and its parents
     """
-    return next(kls.__dict__['type'] for kls in cls.mro()
-                if isinstance(kls.__dict__.get('type', None), str))
+    for kls in cls.mro():
+        if isinstance(kls.__dict__.get('type', None), str):
+            return kls.__dict__['type']
+        if '__jsonld_package__' in kls.__dict__:
+            # the last base of a class of a package is the one it was made from
+            return type_name(kls.__bases__[-1])
 
 
 # ==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//
-- 
2.43.0


From 0e5595de5d1f840d04c2363e8378723cdb79398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:45 +0000
Subject: [PATCH 92/93] fix: links in lists within lists were written as
 objects instead of addresses

---
 activitystreams/models.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index be0568c..4b87f08 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -208,18 +208,19 @@ class Link(ApplicationActivityJson):
         :return: the href of the link
         """
 
-        def decorator(obj):
-            val = get_func(obj)
+        def address(val):
             # if it's a single link, return the href
             if isinstance(val, Link):
                 return val.href
             # if it's a list, return either the href or the item (if no href)
             if isinstance(val, list):
-                return [item.href if isinstance(item, Link) else item
-                        for item in val]
+                return [address(item) for item in val]
             # if we don't have a handler, just give back what we found
             return val
 
+        def decorator(obj):
+            return address(get_func(obj))
+
         return decorator
 
     @classmethod
-- 
2.43.0


From 7e1d9044130a599495a1652db15de0597e2739e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:45 +0000
Subject: [PATCH 93/93] fix: times in lists within lists were not read and
 written as times

---
 activitystreams/properties.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index ac59d63..3b87fcb 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -611,25 +611,26 @@ class Closed(ActivityStreamsProperty):
     @closed.getter_context(JSON_DATA_CONTEXT)
     @Link.href_only
     def closed(self):
-        val = getattr(self, '___closed___', None)
-        if isinstance(val, datetime):
-            return datetime_str(val)
-        if isinstance(val, list):
-            return [datetime_str(item) if isinstance(item, datetime) else item
-                    for item in val]
-        return val
+        def written(val):
+            if isinstance(val, datetime):
+                return datetime_str(val)
+            if isinstance(val, list):
+                return [written(item) for item in val]
+            return val
+        return written(getattr(self, '___closed___', None))
 
     @closed.setter
     @Link.from_str
     @SetterValidator(types=(Object, Link, datetime, bool, str),
                      additional=(is_activity_datetime,)).check
     def closed(self, val):
-        if isinstance(val, list):
-            val = [parse_activitystream_datetime(item)
-                   if isinstance(item, str) else item for item in val]
-        if isinstance(val, str):
-            val = parse_activitystream_datetime(val)
-        self.___closed___ = val
+        def parsed(val):
+            if isinstance(val, list):
+                return [parsed(item) for item in val]
+            if isinstance(val, str):
+                return parse_activitystream_datetime(val)
+            return val
+        self.___closed___ = parsed(val)
 
 
 class Origin(ActivityStreamsProperty):
-- 
2.43.0

