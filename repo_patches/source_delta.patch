From 54a01c0aa94386bb07331148866bd19e820ffb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 001/129] fix: Pipe.readall restores the read blocking mode

A typo (rlocking) left a non-blocking pipe in blocking mode for ever.
---
 pyslet/streams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 65baddd..536afe5 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -592,7 +592,7 @@ class Pipe(io.RawIOBase):
                     else:
                         data.append(part)
             finally:
-                self.rlocking = save_rblocking
+                self.rblocking = save_rblocking
 
     def _consolidate_buffer(self):
         with self.lock:
-- 
2.43.0


From c14d548bb58c96867cf933ef0bdf57c829c4023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 002/129] fix: Pipe forgets bytes already read when it
 consolidates its buffer

The size was not reduced with the read position, so buffered() and
canwrite() counted bytes that had been read and readmatch could fail
with ENOBUFS on a pipe that had room.
---
 pyslet/streams.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 536afe5..f9da30a 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -599,6 +599,7 @@ class Pipe(io.RawIOBase):
             if self.buffer:
                 if self.rpos:
                     self.buffer[0] = self.buffer[0][self.rpos:]
+                    self.bsize -= self.rpos
                     self.rpos = 0
                 self.buffer = [b''.join(self.buffer)]
 
-- 
2.43.0


From 9e95e6ccc4f84328192b2a70ec32e3fe499f48fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 003/129] fix: Pipe.write ignores an empty bytearray as it does
 empty bytes

It was buffered as an empty part, which a reader took for EOF.
---
 pyslet/streams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index f9da30a..c3d84e8 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -487,6 +487,9 @@ class Pipe(io.RawIOBase):
                 return nbytes
             elif isinstance(b, bytearray):
                 nbytes = len(b)
+                if not nbytes:
+                    # as for bytes, an empty part would be read as EOF
+                    return 0
                 if nbytes > wlen:
                     nbytes = wlen
                     # partial copy, creates transient bytearray :(
-- 
2.43.0


From 5a88ce961de6ee144a27a2afcfddae648d7b6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 004/129] fix: deleting a missing foreign-key link raised
 TypeError instead of KeyError

---
 pyslet/odata2/sqlds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index b96ba75..90fac7a 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2920,9 +2920,9 @@ class SQLEntityCollection(SQLCollectionBase):
                 # no rows matched this constraint, entity either doesn't exist
                 # or wasn't linked to the target
                 raise KeyError(
-                    "Entity %s does not exist or is not linked to %s" % str(
-                        entity.get_location(),
-                        target_entity.get_location))
+                    "Entity %s does not exist or is not linked to %s" % (
+                        str(entity.get_location()),
+                        str(target_entity.get_location())))
             transaction.commit()
         except Exception as e:
             transaction.rollback(e)
-- 
2.43.0


From 4690309c2da36f7dd69a7d565b045abb2f4e7621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 005/129] fix: deep insert during a SQL update ran outside the
 update's transaction

---
 pyslet/odata2/sqlds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 90fac7a..1ecf0fd 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2486,7 +2486,8 @@ class SQLEntityCollection(SQLCollectionBase):
                         # add this entity to it's base collection
                         with target_set.open() as targetCollection:
                             targetCollection.insert_entity_sql(
-                                target_entity, link_end.otherEnd, transaction)
+                                target_entity, link_end.otherEnd,
+                                transaction=transaction)
                 # Finally, we have a target entity, add the foreign key to
                 # fk_values
                 for key_name in target_set.keys:
@@ -2622,7 +2623,8 @@ class SQLEntityCollection(SQLCollectionBase):
                                 else:
                                     # foreign keys are in an auxiliary table
                                     targetCollection.insert_entity_sql(
-                                        binding, link_end.otherEnd)
+                                        binding, link_end.otherEnd,
+                                        transaction=transaction)
                                     if dv.isCollection:
                                         navCollection.insert_link(
                                             binding, transaction)
-- 
2.43.0


From 3c4e2788bef56bd0a066a79383df3f8db0f52ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 006/129] fix: SQL tables did not limit 1 to 0..1 associations
 to one link

---
 pyslet/odata2/sqlds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 1ecf0fd..a366e48 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -3060,6 +3060,9 @@ class SQLEntityCollection(SQLCollectionBase):
                     fk_names), self.container.mangled_names[
                     (target_set.name,)], ', '.join(
                     k_names)))
+            if unique:
+                # at most one of our entities may link to each target
+                constraints.append('UNIQUE (%s)' % ', '.join(fk_names))
         cols = cols + constraints
         query.append(", ".join(cols))
         query.append(')')
-- 
2.43.0


From 30ee24f745b5df78a855003f71dcb92ca5aba5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 007/129] fix: reading during a SQL transaction committed it
 half way

---
 pyslet/odata2/sqlds.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index a366e48..c38cc53 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -310,6 +310,9 @@ class SQLTransaction(object):
         params
                 A :py:class:`SQLParams` object containing any
                 parameterized values."""
+        if (self.connection.writer is None and
+                not sqlcmd.lstrip().upper().startswith("SELECT")):
+            self.connection.writer = self
         self.cursor.execute(sqlcmd,
                             params.params if params is not None else None)
         self.query_count += 1
@@ -318,9 +321,18 @@ class SQLTransaction(object):
         """Ends this transaction with a commit
 
         Nested transactions do nothing."""
-        if self.no_commit:
+        if self.no_commit or not self._owner():
             return
         self.connection.dbc.commit()
+        self.connection.writer = None
+
+    def _owner(self):
+        """Returns False if another transaction on the same connection
+        has changes that are not committed.
+
+        Looking up an entity half way through an update must not commit
+        (or rollback) the update."""
+        return self.connection.writer in (None, self)
 
     def rollback(self, err=None, swallow=False):
         """Calls the underlying database connection rollback method.
@@ -342,7 +354,8 @@ class SQLTransaction(object):
         swallow
             A flag (defaults to False) indicating that *err* should be
             swallowed, rather than re-raised."""
-        if not self.no_commit:
+        if not self.no_commit and self._owner():
+            self.connection.writer = None
             try:
                 self.connection.dbc.rollback()
                 if err is not None:
@@ -379,6 +392,8 @@ class SQLTransaction(object):
         if self.no_commit:
             self.no_commit = self.no_commit - 1
         elif self.cursor is not None:
+            if self.connection.writer is self:
+                self.connection.writer = None
             self.cursor.close()
             self.cursor = None
             self.query_count = 0
@@ -4066,6 +4081,8 @@ class SQLConnection(object):
         self.locked = 0
         self.last_seen = 0
         self.dbc = None
+        #: the :class:`SQLTransaction` with uncommitted changes
+        self.writer = None
 
 
 class SQLEntityContainer(object):
-- 
2.43.0


From 06c5183d506fa40646649f5f9af68d5520dd549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 008/129] fix: memds replace ignored the multiplicity of the
 other end

---
 pyslet/odata2/memds.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 6711cad..8f745ff 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -766,6 +766,11 @@ class NavigationCollection(odata.NavigationCollection):
         else:
             # add the new link first
             if key not in result_set:
+                if self.fromMultiplicity != edm.Multiplicity.Many:
+                    if self.rLookupMethod(key):
+                        raise edm.NavigationConstraintError(
+                            "Entity %s is already bound through this "
+                            "association" % entity.get_location())
                 if self.reverse:
                     self.aindex.add_link(key, self.key)
                 else:
-- 
2.43.0


From 3127a0f1749a69aace956c705ceeb7df223c848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 009/129] fix: memds kept an entity when its links could not be
 created

---
 pyslet/odata2/memds.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 8f745ff..85d262c 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -447,7 +447,13 @@ class EntityCollection(odata.EntityCollection):
             # Check constraints
             entity.check_navigation_constraints(from_end)
             self.entity_store.add_entity(entity)
-            self.update_bindings(entity)
+            try:
+                self.update_bindings(entity)
+            except Exception:
+                # don't leave an entity without its links
+                del self[key]
+                entity.exists = False
+                raise
 
     def __len__(self):
         if self.filter is None:
-- 
2.43.0


From 9473269ea3c4f89f82945294cae85ca0052cac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 010/129] fix: memds kept an entity inserted through a
 navigation property that refused it

---
 pyslet/odata2/memds.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 85d262c..047e838 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -683,7 +683,13 @@ class NavigationCollection(odata.NavigationCollection):
         with self.entity_set.open() as baseCollection:
             baseCollection.insert_entity(entity,
                                          from_end=self.from_end.otherEnd)
-            self[entity.key()] = entity
+            try:
+                self[entity.key()] = entity
+            except Exception:
+                # don't leave an entity without its link
+                del baseCollection[entity.key()]
+                entity.exists = False
+                raise
 
     def __len__(self):
         if self.filter is None:
-- 
2.43.0


From e84a9ea3afd332178763b065d5531ca8197e4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 011/129] fix: SQL media streams were stored without committing
 the transaction

---
 pyslet/odata2/sqlds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index c38cc53..a4a179f 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -876,6 +876,7 @@ class SQLCollectionBase(core.EntityCollection):
             query = ''.join(query)
             logging.info("%s; %s", query, to_text(params.params))
             transaction.execute(query, params)
+            transaction.commit()
         except Exception as e:
             # we allow the stream store to re-use the same database but
             # this means we can't transact on both at once (from the
@@ -2093,6 +2094,7 @@ class SQLEntityCollection(SQLCollectionBase):
             query = ''.join(query)
             logging.info("%s; %s", query, to_text(params.params))
             transaction.execute(query, params)
+            transaction.commit()
         except Exception as e:
             # we allow the stream store to re-use the same database but
             # this means we can't transact on both at once (from the
-- 
2.43.0


From 4c681a8cf0a3904197024c8dc9e6d65d02b07dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 012/129] fix: reading an empty media stream under Python 3

---
 pyslet/odata2/memds.py | 2 +-
 pyslet/odata2/sqlds.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 047e838..328b877 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -160,7 +160,7 @@ class InMemoryEntityStore(object):
                 stream, sinfo = self.streams[key]
                 return stream, sinfo
             else:
-                return '', odata.StreamInfo(size=0)
+                return b'', odata.StreamInfo(size=0)
 
     def update_entity(self, e, merge=True):
         # e is an EntityTypeInstance, we need to convert it to a tuple
diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index a4a179f..0fe9190 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -799,7 +799,7 @@ class SQLCollectionBase(core.EntityCollection):
         else:
             estream = None
             sinfo.size = 0
-            sinfo.md5 = hashlib.md5('').digest()
+            sinfo.md5 = hashlib.md5(b'').digest()
             self.close()
             return sinfo, []
 
-- 
2.43.0


From f37d97feee11270f5bb073c8755479e4f5324572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 013/129] fix: padding binary concurrency tokens under Python 3

---
 pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 3d6b431..c5c6ba6 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -2774,7 +2774,7 @@ class Entity(SortableMixin, TypeInstance):
                 if t.p_def.fixedLength:
                     if t.p_def.maxLength > len(h):
                         # we need to zero-pad our binary string
-                        h = h.ljust(t.p_def.maxLength, '\x00')
+                        h = h.ljust(t.p_def.maxLength, b'\x00')
                 t.set_from_value(h)
             elif isinstance(t, StringValue):
                 h = self.generate_ctoken().hexdigest()
-- 
2.43.0


From dcfc2f97006f5d0db6e3096fd379f1032ea9e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 014/129] fix: ordering entities by an expression that can be
 null

---
 pyslet/odata2/csdl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index c5c6ba6..dbb51c5 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3117,8 +3117,12 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
                 elist = list(entity_iterable)
             # we avoid Py3 warnings by doing multiple sorts with a key function
             for rule, ruleDir in reversed(self.orderby):
-                elist.sort(key=lambda x: self.calculate_order_key(
-                    x, rule), reverse=True if ruleDir < 0 else False)
+                # nulls sort before all other values
+                def order_key(x):
+                    key = self.calculate_order_key(x, rule)
+                    return (0, ) if key is None else (1, key)
+                elist.sort(key=order_key,
+                           reverse=True if ruleDir < 0 else False)
         if elist:
             for e in elist:
                 yield e
-- 
2.43.0


From a15ac22446a1a2e48486111d622794923bad000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 015/129] fix: in-memory filter and ordering by properties that
 are not selected

---
 pyslet/odata2/memds.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 328b877..1dc8ff1 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -466,13 +466,17 @@ class EntityCollection(odata.EntityCollection):
             return result
 
     def itervalues(self):
-        return self.order_entities(
-            self.expand_entities(
+        # the filter and ordering may use properties that are not selected
+        select = (self.select if self.filter is None and not self.orderby
+                  else None)
+        return self.expand_entities(
+            self.order_entities(
                 self.filter_entities(
-                    self.entity_store.generate_entities(self.select))))
+                    self.entity_store.generate_entities(select))))
 
     def __getitem__(self, key):
-        e = self.entity_store.read_entity(key, self.select)
+        e = self.entity_store.read_entity(
+            key, self.select if self.filter is None else None)
         if e is not None and self.check_filter(e):
             e.expand(self.expand, self.select)
             return e
@@ -708,8 +712,8 @@ class NavigationCollection(odata.NavigationCollection):
             yield self.collection[k]
 
     def itervalues(self):
-        return self.order_entities(
-            self.expand_entities(
+        return self.expand_entities(
+            self.order_entities(
                 self.filter_entities(
                     self.entity_generator())))
 
-- 
2.43.0


From 661640d7c03084c883724f90c41a7ad7be18c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 016/129] fix: filter and expand the entities looked up in an
 in-memory navigation collection

---
 pyslet/odata2/memds.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 1dc8ff1..aa832a8 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -721,10 +721,8 @@ class NavigationCollection(odata.NavigationCollection):
         result_set = self.lookupMethod(self.key)
         if key in result_set:
             result = self.collection[key]
-            if self.filter is None:
-                if self.check_filter(result):
-                    return result
-            else:
+            if self.check_filter(result):
+                result.expand(self.expand, self.select)
                 return result
         raise KeyError(key)
 
-- 
2.43.0


From 1f5790198cf3b4c50d3e97c927de1e13035ba050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 017/129] fix: no next page token after the last page

---
 pyslet/odata2/csdl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index dbb51c5..c27f3a9 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3301,7 +3301,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
             # end of paging
             return
         i = 0
-        self.nextSkiptoken = None
+        self.nextSkiptoken = next_skiptoken = None
         try:
             emin = int(self.skiptoken, 16)
         except (TypeError, ValueError):
@@ -3315,7 +3315,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
             if self.top is None or self.top > self.topmax:
                 # may be truncated
                 emax = emin + self.topmax
-                self.nextSkiptoken = "%X" % (emin + self.topmax)
+                next_skiptoken = "%X" % (emin + self.topmax)
             else:
                 # top not None and <= topmax
                 emax = emin + self.top
@@ -3343,6 +3343,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
                         i = i + 1
                     else:
                         # stop the iteration now
+                        self.nextSkiptoken = next_skiptoken
                         if set_next:
                             # set the next skiptoken
                             if self.nextSkiptoken is None:
-- 
2.43.0


From 2fc2c1d6f17e9377636782994b5191d3ac776d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 018/129] fix: keep what remains of $top in next page links

---
 pyslet/odata2/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 9e9793d..3e4fd6a 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2946,6 +2946,10 @@ class EntityCollection(edm.EntityCollection):
                     SystemQueryOption.orderby] = \
                     CommonExpression.orderby_to_str(self.orderby)
             sys_query_options[SystemQueryOption.skiptoken] = to_text(token)
+            if self.top is not None:
+                # only what remains of the entities asked for
+                sys_query_options[SystemQueryOption.top] = to_text(
+                    self.top - self.topmax)
             return uri.URI.from_octets(
                 str(base_url) +
                 "?" +
-- 
2.43.0


From 03f10273ac3b39283bfe575a69d87a4a70dff83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 019/129] fix: SQLite skip without top

---
 pyslet/odata2/sqlds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 0fe9190..f21ef75 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5576,6 +5576,9 @@ class SQLiteEntityContainer(SQLEntityContainer):
         if top:
             clause.append('LIMIT %i ' % top)
         if skip:
+            if not top:
+                # OFFSET is only allowed after LIMIT
+                clause.append('LIMIT -1 ')
             clause.append('OFFSET %i ' % skip)
             skip = 0
         return skip, ''.join(clause)
-- 
2.43.0


From ce9cd5c13677a425879b1979c2f4548be593573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 020/129] fix: no next page token from SQL collections after
 the last page

---
 pyslet/odata2/sqlds.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index f21ef75..f4b76f2 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -649,7 +649,8 @@ class SQLCollectionBase(core.EntityCollection):
                     # no more pages
                     if set_next:
                         self.top = self.skip = 0
-                        self.skipToken = None
+                        self.skiptoken = None
+                    self.nextSkiptoken = None
                     break
                 if skip:
                     skip = skip - 1
@@ -664,7 +665,8 @@ class SQLCollectionBase(core.EntityCollection):
                     self.container.read_sql_value(value, new_value)
                 entity.exists = True
                 yield entity
-                if topmax is not None:
+                if topmax is not None and (
+                        self.top is None or self.top > self.topmax):
                     topmax = topmax - 1
                     if topmax < 1:
                         # this is the last entity, set the nextSkiptoken
@@ -698,6 +700,7 @@ class SQLCollectionBase(core.EntityCollection):
                                 self.skip = self.skip + self.top
                             else:
                                 self.skip = self.top
+                        self.nextSkiptoken = None
                         break
                 entity = None
             # we haven't changed the database, but we don't want to
-- 
2.43.0


From 236795e326e16bcbfa489820bd11a1126393e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 021/129] fix: SQL next page tokens with null values

---
 pyslet/odata2/sqlds.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index f4b76f2..6d0731a 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -674,6 +674,7 @@ class SQLCollectionBase(core.EntityCollection):
                         self.nextSkiptoken = []
                         for v in order_values:
                             self.nextSkiptoken.append(
+                                edm.SimpleValue(None) if v is None else
                                 self.container.new_from_sql_value(v))
                         tokenlen = 0
                         for v in self.nextSkiptoken:
@@ -1183,12 +1184,24 @@ class SQLCollectionBase(core.EntityCollection):
                 o_expression = self.sql_expression(expression, params, op)
             else:
                 o_expression = oname
-            skip_expression.append(
-                "(%s %s %s" %
-                (o_expression,
-                 op,
-                 params.add_param(
-                     self.container.prepare_sql_value(v))))
+            # nulls come before all other values (last if descending)
+            if v:
+                skip_expression.append(
+                    "(%s %s %s" %
+                    (o_expression,
+                     op,
+                     params.add_param(
+                         self.container.prepare_sql_value(v))))
+                if oname is None and dir < 0:
+                    skip_expression.append(
+                        " OR %s IS NULL" %
+                        self.sql_expression(expression, params, '='))
+            elif dir > 0:
+                skip_expression.append("(%s IS NOT NULL" % o_expression)
+            else:
+                # nothing comes after a null
+                skip_expression.append(
+                    "((%s IS NULL AND 1=0)" % o_expression)
             ket += 1
             i += 1
             if i < len(self.orderNames):
@@ -1196,10 +1209,14 @@ class SQLCollectionBase(core.EntityCollection):
                 if oname is None:
                     # remake the expression
                     o_expression = self.sql_expression(expression, params, '=')
-                skip_expression.append(
-                    " OR (%s = %s AND " %
-                    (o_expression, params.add_param(
-                        self.container.prepare_sql_value(v))))
+                if v:
+                    skip_expression.append(
+                        " OR (%s = %s AND " %
+                        (o_expression, params.add_param(
+                            self.container.prepare_sql_value(v))))
+                else:
+                    skip_expression.append(" OR (%s IS NULL AND " %
+                                           o_expression)
                 ket += 1
                 continue
             else:
-- 
2.43.0


From 11e2cb6c7b59021cb665465bcf264d0b6b07f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 022/129] fix: SQL next page tokens relative to an earlier page

---
 pyslet/odata2/sqlds.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 6d0731a..be82201 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -681,17 +681,20 @@ class SQLCollectionBase(core.EntityCollection):
                             if v and isinstance(v, (edm.StringValue,
                                                     edm.BinaryValue)):
                                 tokenlen += len(v.value)
+                        next_token, next_skip = self.nextSkiptoken, 0
                         # a really large skiptoken is no use to anyone
-                        if tokenlen > 512:
+                        if tokenlen > 512 and self.skiptoken is not None:
                             # ditch this one, copy the previous one and add a
                             # skip
-                            self.nextSkiptoken = list(self.skiptoken)
+                            next_token = self.skiptoken
+                            next_skip = (self.skip or 0) + self.topmax
                             v = edm.Int32Value()
-                            v.set_from_value(self.topmax)
+                            v.set_from_value(next_skip)
+                            self.nextSkiptoken = list(next_token)
                             self.nextSkiptoken.append(v)
                         if set_next:
-                            self.skiptoken = self.nextSkiptoken
-                            self.skip = 0
+                            self.skiptoken = next_token
+                            self.skip = next_skip
                         break
                 if top is not None:
                     top = top - 1
-- 
2.43.0


From d57b57d6fd3fcdf0bca02776a8e327a110ebad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 023/129] fix: SQL relative page tokens without a skip option

---
 pyslet/odata2/sqlds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index be82201..77bdfc5 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -584,7 +584,7 @@ class SQLCollectionBase(core.EntityCollection):
                     order_len + len(self.entity_set.keys) + 1):
                 # the last value must be an integer we add to skip
                 if isinstance(self.skiptoken[-1], edm.Int32Value):
-                    self.skip += self.skiptoken[-1].value
+                    self.skip = (self.skip or 0) + self.skiptoken[-1].value
                     self.skiptoken = self.skiptoken[:-1]
                 else:
                     raise core.InvalidSystemQueryOption(
-- 
2.43.0


From e6d9a9c7c11d80d3bf01d0dbfb69d08e5dd0f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 024/129] fix: grouping of right operands in SQL expressions

---
 pyslet/odata2/sqlds.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 77bdfc5..8975515 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1703,8 +1703,16 @@ class SQLCollectionBase(core.EntityCollection):
         query.append(' ')
         query.append(operator)
         query.append(' ')
-        query.append(
-            self.sql_expression(expression.operands[1], params, operator))
+        right = self.sql_expression(expression.operands[1], params, operator)
+        if operator not in ('AND', 'OR') and isinstance(
+                expression.operands[1], core.BinaryExpression):
+            # operators of equal precedence group to the left
+            roperator = self.SQLBinaryOperator.get(
+                expression.operands[1].operator, None)
+            if roperator and (SQLOperatorPrecedence[roperator] ==
+                              SQLOperatorPrecedence[operator]):
+                right = "(%s)" % right
+        query.append(right)
         return self.sql_bracket(''.join(query), context, operator)
 
     def sql_expression_mul(self, expression, params, context):
@@ -2018,6 +2026,19 @@ SQLCollectionBase.SQLCallExpressionMethod = {
     core.Method.ceiling: 'sql_expression_ceiling'
 }
 
+SQLCollectionBase.SQLBinaryOperator = {
+    core.Operator.mul: '*',
+    core.Operator.div: '/',
+    core.Operator.add: '+',
+    core.Operator.sub: '-',
+    core.Operator.lt: '<',
+    core.Operator.gt: '>',
+    core.Operator.le: '<=',
+    core.Operator.ge: '>=',
+    core.Operator.eq: '=',
+    core.Operator.ne: '<>'
+}
+
 SQLCollectionBase.SQLBinaryExpressionMethod = {
     core.Operator.member: 'sql_expression_member',
     core.Operator.cast: 'sql_expression_cast',
-- 
2.43.0


From 59c35f6a3f9afa96212caed6dc3581e39b37846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 025/129] fix: comparison with null in SQLite filters

---
 pyslet/odata2/sqlds.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 8975515..4699299 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -63,6 +63,8 @@ SQLOperatorPrecedence = {
     '>': 4,
     '<=': 4,
     '>=': 4,
+    'IS': 4,
+    'IS NOT': 4,
     'LIKE': 4,
     '+': 5,
     '-': 5,
@@ -5639,6 +5641,16 @@ class SQLiteEntityCollectionBase(SQLCollectionBase):
     DEFAULT_VALUE = False
     """SQLite does not support setting a value =DEFAULT"""
 
+    def sql_expression_eq(self, expression, params, context):
+        """Converts the eq expression: maps to "IS" as null eq null"""
+        return self.sql_expression_generic_binary(
+            expression, params, context, 'IS')
+
+    def sql_expression_ne(self, expression, params, context):
+        """Converts the ne expression: maps to "IS NOT" """
+        return self.sql_expression_generic_binary(
+            expression, params, context, 'IS NOT')
+
     def sql_expression_length(self, expression, params, context):
         """Converts the length method: maps to length( op[0] )"""
         query = ["length("]
-- 
2.43.0


From 6c84e59699404d31291338f8da6e039f38a44c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 026/129] fix: case and wildcard characters in SQLite string
 filters

---
 pyslet/odata2/sqlds.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 4699299..bca0abe 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5651,6 +5651,44 @@ class SQLiteEntityCollectionBase(SQLCollectionBase):
         return self.sql_expression_generic_binary(
             expression, params, context, 'IS NOT')
 
+    def sql_expression_startswith(self, expression, params, context):
+        """Converts the startswith function
+
+        maps to substr(op[0],1,length(op[1]))=op[1] as LIKE ignores case
+        and treats some characters as wildcards"""
+        target, prefix = expression.operands
+        query = ["substr("]
+        query.append(self.sql_expression(target, params, ','))
+        query.append(",1,length(")
+        query.append(self.sql_expression(prefix, params, ','))
+        query.append("))=")
+        query.append(self.sql_expression(prefix, params, '*'))
+        return self.sql_bracket(''.join(query), context, '=')
+
+    def sql_expression_endswith(self, expression, params, context):
+        """Converts the endswith function
+
+        maps to substr(op[0],length(op[0])-length(op[1])+1)=op[1]"""
+        target, suffix = expression.operands
+        query = ["substr("]
+        query.append(self.sql_expression(target, params, ','))
+        query.append(",length(")
+        query.append(self.sql_expression(target, params, ','))
+        query.append(")-length(")
+        query.append(self.sql_expression(suffix, params, ','))
+        query.append(")+1)=")
+        query.append(self.sql_expression(suffix, params, '*'))
+        return self.sql_bracket(''.join(query), context, '=')
+
+    def sql_expression_substringof(self, expression, params, context):
+        """Converts the substringof function: maps to instr(op[1],op[0])>0"""
+        query = ["instr("]
+        query.append(self.sql_expression(expression.operands[1], params, ','))
+        query.append(",")
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(")>0")
+        return self.sql_bracket(''.join(query), context, '>')
+
     def sql_expression_length(self, expression, params, context):
         """Converts the length method: maps to length( op[0] )"""
         query = ["length("]
-- 
2.43.0


From dcd1510466176b6037cdde5eb19e302d295b6845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 027/129] fix: properties named like literal prefixes in
 expressions

---
 pyslet/odata2/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 3e4fd6a..371d7b8 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1716,7 +1716,12 @@ class Parser(edm.Parser):
             name = name_case.lower()
         else:
             name = None
-        if name == "null":
+        if (name in ("datetimeoffset", "datetime", "time", "binary",
+                     "guid") or name_case == "X") and not self.match("'"):
+            # not a literal but an identifier, such as a property name
+            self.setpos(savepos)
+            return None
+        elif name == "null":
             return edm.EDMValue.from_type(None)
         elif name is None and self.match("'"):
             return self.parse_string_uri_literal()
-- 
2.43.0


From 75e1a751d907c4602f07bff8770d67df94f32353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 028/129] fix: relations with null strings and dates are false

---
 pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 371d7b8..2c6576b 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -752,7 +752,11 @@ class BinaryExpression(CommonExpression):
                 edm.SimpleType.String, edm.SimpleType.DateTime,
                 edm.SimpleType.DateTimeOffset, edm.SimpleType.Guid):
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-            result.set_from_value(relation(lvalue.value, rvalue.value))
+            if lvalue and rvalue:
+                result.set_from_value(relation(lvalue.value, rvalue.value))
+            else:
+                # one of the operands is null => False
+                result.set_from_value(False)
             return result
         elif type_code is None:  # e.g., null lt null
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-- 
2.43.0


From c9f6a50c3f97a220570598d799308fc4b64da520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 029/129] fix: unary operators in brackets in expressions

---
 pyslet/odata2/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 2c6576b..d2d5c2d 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1398,8 +1398,9 @@ class Parser(edm.Parser):
                     # no common expression found at all
                     return None
             # if we already have a (unary) operator, skip the search for a
-            # binary operator
-            if not isinstance(right_op, UnaryExpression):
+            # binary operator (one that has its operand was in brackets)
+            if not isinstance(right_op, UnaryExpression) or \
+                    right_op.operands:
                 operand = right_op
                 self.parse_wsp()
                 if self.parse("/"):
-- 
2.43.0


From ea93a5e2cfb3893a8a2c77ccbec2ce6d3ce01341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 030/129] fix: unary operators applied to unary expressions

---
 pyslet/odata2/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index d2d5c2d..e1c6384 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1440,8 +1440,9 @@ class Parser(edm.Parser):
             # right_op (an operator expression, never None)
             # next job, determine who binds more tightly, left or right?
             while True:
-                if left_op is None or left_op < right_op:
-                    # bind the operand to the right, in cases of equal
+                if left_op is None or operand is None or left_op < right_op:
+                    # a prefix operator always waits for its operand,
+                    # otherwise bind the operand to the right, in cases of equal
                     # precedence we left associate 1+2-3 = (1+2)-3
                     if operand is not None:
                         right_op.add_operand(operand)
-- 
2.43.0


From da1d5860237383d28e5dda8d30fb50b1686f53b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 031/129] fix: brackets around right operands when formatting
 expressions

---
 pyslet/odata2/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index e1c6384..a7f9cdd 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -527,8 +527,9 @@ class BinaryExpression(CommonExpression):
             lvalue = "(%s)" % to_text(lvalue)
         else:
             lvalue = to_text(lvalue)
-        if rvalue.operator is not None and rvalue < self:
-            # right expression is weaker than us, use brackets
+        if rvalue.operator is not None and not self < rvalue:
+            # right expression is no stronger than us, use brackets (we
+            # are left associative)
             rvalue = "(%s)" % to_text(rvalue)
         else:
             rvalue = to_text(rvalue)
-- 
2.43.0


From 3d2d34c253ec206822699e9279ff55aa79c2cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 032/129] fix: formatting cast and isof expressions with one
 parameter

---
 pyslet/odata2/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index a7f9cdd..d0db203 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -510,6 +510,10 @@ class BinaryExpression(CommonExpression):
         if self.operator in Operator.IsSpecial:
             if self.operator == Operator.member:
                 op = "/"
+            elif len(self.operands) == 1:
+                # cast or isof with the first parameter omitted
+                return uempty.join((Operator.to_str(self.operator), "(",
+                                    to_text(self.operands[0]), ")"))
             elif self.operator in (Operator.cast, Operator.isof):
                 op_prefix = "%s(" % Operator.to_str(self.operator)
                 op = ","
-- 
2.43.0


From b8c424b01b93f2173a6d9e2e838a6f557eb75b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 033/129] fix: expression parameters inside brackets and method
 calls

---
 pyslet/odata2/core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index d0db203..0ccf16c 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1366,27 +1366,27 @@ class Parser(edm.Parser):
                     right_op = self.require_production(
                         self.parse_castlike(
                             Operator.isof,
-                            "isof"),
+                            "isof", params),
                         "isofExpression")
                 elif name == "cast":
                     self.parse_wsp()
                     right_op = self.require_production(
                         self.parse_castlike(
                             Operator.cast,
-                            "cast"),
+                            "cast", params),
                         "caseExpression")
                 elif name is not None:
                     self.parse_wsp()
                     if self.match("("):
                         method_call = Method.from_str(name)
                         right_op = self.parse_method_call_expression(
-                            method_call)
+                            method_call, params)
                     else:
                         right_op = PropertyExpression(name)
             if right_op is None:
                 if self.parse("("):
                     right_op = self.require_production(
-                        self.parse_common_expression(),
+                        self.parse_common_expression(params),
                         "commonExpression inside parenExpression")
                     self.require_production(
                         self.parse(")"), "closing bracket in parenExpression")
@@ -1466,14 +1466,14 @@ class Parser(edm.Parser):
                     else:
                         left_op = None
 
-    def parse_method_call_expression(self, method_call):
+    def parse_method_call_expression(self, method_call, params=None):
         method = CallExpression(method_call)
         self.require_production(
             self.parse("("), "opening bracket in methodCallExpression")
         while True:
             self.parse_wsp()
             param = self.require_production(
-                self.parse_common_expression(), "methodCall argument")
+                self.parse_common_expression(params), "methodCall argument")
             method.add_operand(param)
             self.parse_wsp()
             if self.parse(","):
@@ -1484,13 +1484,13 @@ class Parser(edm.Parser):
                 raise ValueError("closing bracket in methodCallExpression")
         return method
 
-    def parse_castlike(self, op, name):
+    def parse_castlike(self, op, name, params=None):
         """Parses a cast-like expression, including 'isof'."""
         self.parse_wsp()
         if self.parse("("):
             e = BinaryExpression(op)
             first_param = self.require_production(
-                self.parse_common_expression(), "%s argument" % name)
+                self.parse_common_expression(params), "%s argument" % name)
             e.add_operand(first_param)
             self.parse_wsp()
             if self.parse_one(")"):
-- 
2.43.0


From be685588d87c5d2a3cfd484c905ad116b7a4df7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 034/129] fix: not was accepted as a binary operator

---
 pyslet/odata2/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 0ccf16c..56b4c52 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1417,7 +1417,8 @@ class Parser(edm.Parser):
                     if name is not None:
                         try:
                             op_code = Operator.from_str(name)
-                            if op_code in Operator.IsSpecial:
+                            if op_code in Operator.IsSpecial or \
+                                    op_code == Operator.boolNot:
                                 raise ValueError
                             right_op = BinaryExpression(op_code)
                         except ValueError:
-- 
2.43.0


From 1df241db9410d47e042a343e90b9177d4172aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 035/129] fix: evaluation error for undefined properties of
 entities

---
 pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 56b4c52..47d1c73 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -962,7 +962,11 @@ class PropertyExpression(CommonExpression):
                         "%s navigation property must have cardinality of "
                         "1 or 0..1" % self.name)
                 else:
-                    result = context_entity[self.name]
+                    try:
+                        result = context_entity[self.name]
+                    except KeyError:
+                        raise EvaluationError(
+                            "Undefined property: %s" % self.name)
                     if isinstance(result, edm.DeferredValue):
                         result = result.get_entity()
                     if result is None:
-- 
2.43.0


From 35f39efda6ba0d6796624772c42332898a525b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 036/129] fix: evaluation error for decimal 0 div 0

---
 pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 47d1c73..3ba83e1 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -658,7 +658,7 @@ class BinaryExpression(CommonExpression):
                 return edm.EDMValue.from_type(edm.SimpleType.Int32)
             else:
                 raise EvaluationError("Illegal operands for div")
-        except ZeroDivisionError as e:
+        except (ZeroDivisionError, decimal.InvalidOperation) as e:
             raise EvaluationError(str(e))
 
     def evaluate_mod(self, lvalue, rvalue):
-- 
2.43.0


From 8d94617b99a244ddb1e1923feb454083494b438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 037/129] fix: evaluation error for members of simple values

---
 pyslet/odata2/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 3ba83e1..6fc9254 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -974,8 +974,8 @@ class PropertyExpression(CommonExpression):
                         # return a generic null
                         result = edm.EDMValue.from_property(None)
                     return result
-            elif self.name in context_entity:
-                # context_entity must be a complex value
+            elif isinstance(context_entity, edm.Complex) and \
+                    self.name in context_entity:
                 return context_entity[self.name]
             else:
                 raise EvaluationError("Undefined property: %s" % self.name)
-- 
2.43.0


From 9510f4e50e1c368bb3dc505ceac006e987145fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:44 +0000
Subject: [PATCH 038/129] fix: character classes no longer share ranges with
 copies

---
 pyslet/unicode5.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index 2a48b2e..307c153 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -495,18 +495,20 @@ class CharClass(UnicodeMixin):
         """Adds all the characters in c to the character class
 
         This is effectively a union operation."""
-        if self.ranges:
+        if c is self:
+            return
+        elif self.ranges:
             for r in c.ranges:
                 self.add_range(r[0], r[1])
         else:
             # take a short cut here, if we have no ranges yet just copy them
             for r in c.ranges:
-                self.ranges.append(r)
+                self.ranges.append(list(r))
         self._clear_cache()
 
     def subtract_class(self, c):
         """Subtracts all the characters in c from the character class"""
-        for r in c.ranges:
+        for r in list(c.ranges):
             self.subtract_range(r[0], r[1])
         self._clear_cache()
 
-- 
2.43.0


From 13e0fa1beedaae55a7cd5d62466d97836e8458de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:44 +0000
Subject: [PATCH 039/129] fix: regular expressions for the class of all
 characters

---
 pyslet/unicode5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index 307c153..827b02c 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -254,6 +254,9 @@ class CharClass(UnicodeMixin):
             # by using negation.  However, in the case of an empty range
             # we have no choice.
             return self._empty_range
+        elif (len(self.ranges) == 1 and
+                self.ranges[0] == [character(0), character(maxunicode)]):
+            return ul("[\\x00-%s]") % character(maxunicode)
         elif self.ranges[-1][1] == character(maxunicode):
             # to avoid maxunicode we negate this range
             neg = CharClass(self)
@@ -263,8 +266,8 @@ class CharClass(UnicodeMixin):
                 return "[^%s]" % result[1:-1]
             elif result[0] == "\\":
                 # we may not need the escape
-                if result == "\\]":
-                    return "[^\\]]"
+                if result[1] in "]\\":
+                    return "[^%s]" % result
                 elif result in dict_values(self._re_controls):
                     return "[^%s]" % result
                 else:
-- 
2.43.0


From c9889fd32c7689e6b72f4033fe6d01df8c1ba4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:44 +0000
Subject: [PATCH 040/129] fix: circumflex in format_re of character classes

---
 pyslet/unicode5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index 827b02c..6cc8c77 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -316,8 +316,8 @@ class CharClass(UnicodeMixin):
         return ''.join(py_charset)
 
     def format_re_char(self, c):
-        if c in "-]\\":
-            # prepen a backslash
+        if c in "^-]\\":
+            # prepend a backslash
             return "\\" + c
         else:
             return c
-- 
2.43.0


From 3a2f63d34f9c635b1eea81e8c0687c9a184f1a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 041/129] fix: opening missing files and files without a parent
 in MemFilePath

---
 pyslet/vfs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index e92125c..cfd893f 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -812,8 +812,15 @@ class MemFilePath(VirtualFilePath):
         with self._lock:
             item = self._fsdir.get(cpath, None)
             if item is None:
+                head, tail = cpath.split()
+                if mode[0] == 'r' or not isinstance(
+                        self._fsdir.get(head, None), MemDirectory):
+                    raise IOError(errno.ENOENT, os.strerror(errno.ENOENT),
+                                  to_text(self))
                 item = MemFile(cpath)
+                stream = item.open(mode)
                 self._fsdir[cpath] = item
+                return stream
             if isinstance(item, MemFile):
                 return item.open(mode)
             else:
-- 
2.43.0


From 45d0ecbe3a552a063bbcbae206ee9f37d8990d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 042/129] fix: directories could be made in files in
 MemFilePath

---
 pyslet/vfs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index cfd893f..dd03c73 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -582,6 +582,9 @@ class VirtualFilePath(SortableMixin):
             head, tail = head.split()
             if last_head == head:
                 break
+        else:
+            if not head.isdir():
+                raise OSError("%s is not a directory" % to_text(head))
         for dpath in missing:
             dpath.mkdir()
             if dpath == cpath:
@@ -844,6 +847,8 @@ class MemFilePath(VirtualFilePath):
                         return
                 else:
                     raise OSError("%s does not exist" % to_text(head))
+            elif not isinstance(self._fsdir[head], MemDirectory):
+                raise OSError("%s is not a directory" % to_text(head))
             if cpath in self._fsdir:
                 raise OSError("%s already exists" % to_text(cpath))
             self._fsdir[cpath] = MemDirectory(cpath)
-- 
2.43.0


From a7796f79c9809fb6222bf5701310adc0b067ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 043/129] fix: MemFilePath.rmtree removes the directory itself

---
 pyslet/vfs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index dd03c73..df194c3 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -907,11 +907,11 @@ class MemFilePath(VirtualFilePath):
                 prefix = cpath.path + self.sep
             else:
                 prefix = cpath.path
-            dirs = []
+            dirs = [cpath]
             files = []
             open_files = False
             for path in dict_keys(self._fsdir):
-                if not path.path.startswith(prefix):
+                if path == cpath or not path.path.startswith(prefix):
                     continue
                 item = self._fsdir[path]
                 if isinstance(item, MemDirectory):
-- 
2.43.0


From 947043f43c05b4daa0e10af6371d87c03effef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 044/129] fix: normalising paths with two leading separators

---
 pyslet/vfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index df194c3..9aca8ea 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -381,7 +381,8 @@ class VirtualFilePath(SortableMixin):
             if not component:
                 # empty path component removed except start and
                 # special case of all empty components
-                if i == 1 and not components[0]:
+                if i == 1 and not components[0] and (
+                        self.supports_unc or len(components) == 2):
                     break
                 elif i:
                     del components[i]
-- 
2.43.0


From c95273381d71c666aa25b7383c0fc860325ad1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 045/129] fix: file paths made from an empty first component

---
 pyslet/vfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 9aca8ea..b16d28d 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -189,7 +189,7 @@ class VirtualFilePath(SortableMixin):
                 new_path = self.path_str(arg)
                 if self.path is None or new_path.startswith(self.sep):
                     self.path = new_path
-                elif self.path.endswith(self.sep):
+                elif not self.path or self.path.endswith(self.sep):
                     self.path = self.path + new_path
                 else:
                     self.path = self.path + self.sep + new_path
-- 
2.43.0


From f29d5528757ed1028d338e0d97677252f71564c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 046/129] fix: extensions of paths with dots in directory names

---
 pyslet/vfs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index b16d28d..490f430 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -306,7 +306,9 @@ class VirtualFilePath(SortableMixin):
             return self, self.path_str('')
         else:
             pos = self.path.rfind(self.ext)
-            if pos >= 0:
+            # leading dots of the last component are part of its name
+            start = self.path.rfind(self.sep) + 1
+            if pos > start and self.path[start:pos].strip(self.ext):
                 return self.__class__(self.path[:pos]), \
                     to_text(self.path[pos:])
             else:
-- 
2.43.0


From 3e347e99e1f391c5a0c86302ddbd72566dbd904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 047/129] fix: root paths of several separators

---
 pyslet/vfs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 490f430..29f4a80 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -477,8 +477,8 @@ class VirtualFilePath(SortableMixin):
         counting any drive specification in file systems that support
         them)."""
         if self.isabs():
-            head, tail = self.split()
-            return head == self
+            drive, tail = self.splitdrive()
+            return not tail.path.strip(self.sep)
         else:
             return False
 
-- 
2.43.0


From fb65ebe8c2a0a6262d51306184a4e83dc9fa733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 048/129] fix: resolve relative paths against a base URI that
 has no path

---
 pyslet/rfc2396.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 835a242..efc1743 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1203,7 +1203,9 @@ class URI(CmpMixin, PEP8Compatibility):
         if self.authority is None:
             authority = base.authority
             if self.abs_path is None:
-                if base.abs_path is not None:
+                if base.abs_path is not None or base.authority is not None:
+                    # a base with an authority but no path is treated
+                    # as if its path was '/'
                     segments = split_abs_path(base.abs_path)[:-1]
                     segments = segments + split_rel_path(self.rel_path)
                     normalize_segments(segments)
-- 
2.43.0


From 33ab7503b73653fea590ddf90deacf230d63b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 049/129] fix: relative forms of URI resolve back to the URI
 they came from

---
 pyslet/rfc2396.py | 55 +++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index efc1743..0641ab5 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -529,31 +529,40 @@ def normalize_segments(path_segments):
 
 
 def _relativize_segments(path_segments, base_segments):
-    result = []
+    """Return path_segments relative to base_segments
+
+    Both paths must be normalized and the last item in base_segments is
+    ignored.  Returns None if it isn't possible because base_segments
+    contains '..' segments that can't be reversed."""
     pos = 0
-    while pos < len(base_segments):
-        if result:
-            result = ['..'] + result
-        else:
-            if (pos >= len(path_segments) or
-                    base_segments[pos] != path_segments[pos]):
-                result = result + path_segments[pos:]
-        pos = pos + 1
-    if not result and len(path_segments) > len(base_segments):
-        # full match but path_segments is longer
-        return path_segments[len(base_segments) - 1:]
-    elif result == ['']:
-        return ['.'] + result
-    else:
-        return result
+    while (pos < len(base_segments) - 1 and pos < len(path_segments) - 1 and
+            base_segments[pos] == path_segments[pos]):
+        pos += 1
+    if '..' in base_segments[pos:-1]:
+        return None
+    result = ['..'] * (len(base_segments) - 1 - pos) + path_segments[pos:]
+    if not result[0] or ':' in result[0]:
+        # must not look like an empty path, an absolute path or a scheme
+        result = ['.'] + result
+    return result
+
+
+def _base_segments(segments):
+    # the last segment of a base path is always ignored, do it before
+    # normalizing as it may be a dot segment itself.
+    if segments:
+        segments[-1] = ''
+    normalize_segments(segments)
+    return segments
 
 
 def _make_rel_path_abs(abs_path, base_path):
-    """Return abs_path relative to base_path"""
+    """Return abs_path relative to base_path (None if not possible)"""
     path_segments = split_abs_path(abs_path)
     normalize_segments(path_segments)
-    base_segments = split_abs_path(base_path)
-    normalize_segments(base_segments)
+    base_segments = _base_segments(split_abs_path(base_path))
+    if base_segments[0] == '..':
+        return None
     result = _relativize_segments(path_segments, base_segments)
     return path_sep.join(result)
 
@@ -562,8 +571,7 @@ def _make_rel_path_rel(rel_path, base_rel_path):
     """Return rel_path relative to base_rel_path"""
     path_segments = split_rel_path(rel_path)
     normalize_segments(path_segments)
-    base_segments = split_rel_path(base_rel_path)
-    normalize_segments(base_segments)
+    base_segments = _base_segments(split_rel_path(base_rel_path))
     # At this point there are no '.' components, but there may be leading '..'
     i = 0
     while i < len(path_segments):
@@ -1321,6 +1329,9 @@ class URI(CmpMixin, PEP8Compatibility):
             # equal or empty authorities
             authority = None
             if self.abs_path is None:
+                if self.authority is not None or self.scheme is not None:
+                    # there is no shorter form of an empty path
+                    return URI.from_octets(str(self))
                 if base.abs_path is not None:
                     raise URIRelativeError(str(base))
                 abs_path = None
@@ -1339,6 +1350,8 @@ class URI(CmpMixin, PEP8Compatibility):
                 # two absolute paths, calculate self relative to base
                 abs_path = None
                 rel_path = _make_rel_path_abs(self.abs_path, base.abs_path)
+                if rel_path is None:
+                    return URI.from_octets(str(self))
                 # todo: /a/b relative to /c/d really should be '/a/b'
                 # and not ../a/b in particular, drive letters look wrong
                 # in relative paths: ../C:/Program%20Files/
-- 
2.43.0


From ec056ab99b3637e795d92dd686c9525549abc285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 050/129] fix: canonical http URLs have a path, as documented

---
 pyslet/http/params.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 2a083cc..aa90281 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -253,13 +253,12 @@ class HTTPURL(uri.ServerBasedURL):
                 if port != self.DEFAULT_PORT:
                     new_uri.append(':')
                     new_uri.append("%i" % int(self.port))
-        if self.abs_path is not None:
-            if not self.abs_path:
-                new_uri.append("/")
-            else:
-                new_uri.append(uri.canonicalize_data(self.abs_path))
+        if self.abs_path:
+            new_uri.append(uri.canonicalize_data(self.abs_path))
         elif self.rel_path is not None:
             new_uri.append(uri.canonicalize_data(self.rel_path))
+        elif self.authority is not None:
+            new_uri.append("/")
         if self.query is not None:
             new_uri.append('?')
             new_uri.append(uri.canonicalize_data(self.query))
-- 
2.43.0


From 4daa5e4e12b72e7c7518990e5d857e7196ef1a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 051/129] fix: canonical root of a URN is its scheme

---
 pyslet/rfc2396.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 0641ab5..5dac7c9 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1144,6 +1144,9 @@ class URI(CmpMixin, PEP8Compatibility):
         returned."""
         if self.is_absolute():
             canonical_uri = self.canonicalize()
+            if canonical_uri.opaque_part is not None:
+                # just the scheme, incomplete for classes like URN
+                return URI(canonical_uri.scheme + ':')
             result = [canonical_uri.scheme, ':']
             if canonical_uri.authority is not None:
                 result.append('//')
-- 
2.43.0


From 9d5f7646dc50b450935a98a2a8f900a50748bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 052/129] fix: canonical URNs keep their fragment

---
 pyslet/urn.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/urn.py b/pyslet/urn.py
index 324510d..97b5539 100755
--- a/pyslet/urn.py
+++ b/pyslet/urn.py
@@ -212,9 +212,12 @@ class URN(uri.URI):
             raise uri.URIException("NID value of 'urn' is not allowed in URN")
 
     def canonicalize(self):
-        return uri.URI.from_octets(
-            "%s:%s:%s" % (self.scheme.lower(), self.nid.lower(),
-                          uri.canonicalize_data(self.nss, lambda x: False)))
+        octets = "%s:%s:%s" % (
+            self.scheme.lower(), self.nid.lower(),
+            uri.canonicalize_data(self.nss, lambda x: False))
+        if self.fragment:
+            octets = octets + '#' + self.fragment
+        return uri.URI.from_octets(octets)
 
 
 uri.URI.register('urn', URN)
-- 
2.43.0


From 167841edf0fa801b855cb861a517b105ac38ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 053/129] fix: WSGI dispatcher tries all matching registrations
 before giving up

---
 pyslet/wsgi.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index c9ccc3a..82a285d 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -924,26 +924,30 @@ class WSGIApp(DispatchNode):
             node = self
             wildcard = None
             stack = []
-            while i < len(path):
-                p = path[i]
-                old_node = node
-                wild_node = old_node._nodes.get('*', None)
-                node = old_node._nodes.get(p, None)
-                if node:
-                    if wild_node:
-                        # this is a fall-back node, push it
-                        stack.append((i, wild_node, wildcard))
-                elif wild_node:
-                    node = wild_node
-                elif wildcard:
-                    # if there is an active wildcard, use it
-                    break
-                elif stack:
-                    i, node, wildcard = stack.pop()
+            while True:
+                if i >= len(path):
+                    if node._handler is not None or not stack:
+                        break
+                    # no handler here, try the nearest fall-back
+                    i, node = stack.pop()
                 else:
-                    break
+                    p = path[i]
+                    wild_node = node._nodes.get('*', None)
+                    node = node._nodes.get(p, None)
+                    if node:
+                        if wild_node:
+                            # this is a fall-back node, push it
+                            stack.append((i, wild_node))
+                    elif wild_node:
+                        node = wild_node
+                    elif stack:
+                        i, node = stack.pop()
+                    else:
+                        break
                 if node._wildcard is not None:
+                    # takes precedence over the fall-backs pushed so far
                     wildcard = node._wildcard
+                    stack = []
                 i += 1
             if node and node._handler is not None:
                 return node._handler(context)
-- 
2.43.0


From 5a5a2b6535519da9415acaaf50250d5a675d7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 054/129] fix: URLs of WSGI requests with non-ASCII paths

---
 pyslet/wsgi.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 82a285d..c782d5e 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -142,6 +142,19 @@ def key60(src):
     return long2(sha256(src).hexdigest()[0:15], 16)
 
 
+def _quote_path(path):
+    """Quotes a path from the WSGI environment
+
+    WSGI requires that text strings in the environment are bytes decoded
+    using ISO-8859-1, whatever the path's actual encoding."""
+    if is_unicode(path):
+        try:
+            path = path.encode('iso-8859-1')
+        except UnicodeEncodeError:
+            path = path.encode('utf-8')
+    return urlquote(path)
+
+
 class WSGIContext(object):
 
     """A class used for managing WSGI calls
@@ -257,7 +270,7 @@ class WSGIContext(object):
         for the above example.  This is preferable to using absolute
         paths which would strip away the SCRIPT_NAME prefix when used."""
         url = [self._canonical_root]
-        script = urlquote(self.environ.get('SCRIPT_NAME', ''))
+        script = _quote_path(self.environ.get('SCRIPT_NAME', ''))
         if not script:
             url.append('/')
         else:
@@ -293,8 +306,8 @@ class WSGIContext(object):
         respond on the service script's URL without a slash but generate
         incorrect relative links to the contained feeds as a result."""
         url = [self._canonical_root]
-        url.append(urlquote(self.environ.get('SCRIPT_NAME', '')))
-        url.append(urlquote(self.environ.get('PATH_INFO', '')))
+        url.append(_quote_path(self.environ.get('SCRIPT_NAME', '')))
+        url.append(_quote_path(self.environ.get('PATH_INFO', '')))
         query = self.environ.get('QUERY_STRING', '')
         if query:
             url += ['?', query]
-- 
2.43.0


From e418756e16f0c13d4c554668751563d0ed3c45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 055/129] fix: get_form_long returns None for missing
 parameters, as documented

---
 pyslet/wsgi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index c782d5e..a0e6888 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -470,6 +470,8 @@ class WSGIContext(object):
         If the parameter is missing from the form then None is returned,
         if the parameter is present but is not a valid integer then
         :class:`BadRequest` is raised."""
+        if name not in self.get_form():
+            return None
         value = self.get_form_string(name, 256)
         try:
             return long2(value)
-- 
2.43.0


From 2b2d86ea5926c99df89551fec104a158af05c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:34 +0000
Subject: [PATCH 056/129] fix: static pages with non-ASCII names are not found,
 not an error

---
 pyslet/wsgi.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index a0e6888..9c46d3c 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -982,6 +982,13 @@ class WSGIApp(DispatchNode):
             logger.exception(context.environ['PATH_INFO'])
             return self.internal_error(context, e)
 
+    @staticmethod
+    def _is_static_label(label):
+        try:
+            return cookie.is_ldh_label(label.encode('ascii'))
+        except UnicodeError:
+            return False
+
     def static_page(self, context):
         """Returns a static page
 
@@ -1013,7 +1020,7 @@ class WSGIApp(DispatchNode):
                 # ldb-label test from the cookie module to ensure we
                 # have a very limited syntax.  Apologies if you wanted
                 # fancy URLs.
-                if not cookie.is_ldh_label(p.encode('ascii')):
+                if not self._is_static_label(p):
                     raise PageNotFound
                 target_path = os.path.join(target_path, p)
                 if not os.path.isdir(target_path):
@@ -1026,8 +1033,8 @@ class WSGIApp(DispatchNode):
                 # last component must be a filename.ext form
                 splitp = p.split('.')
                 if (len(splitp) != 2 or
-                        not cookie.is_ldh_label(splitp[0].encode('ascii')) or
-                        not cookie.is_ldh_label(splitp[1].encode('ascii'))):
+                        not self._is_static_label(splitp[0]) or
+                        not self._is_static_label(splitp[1])):
                     raise PageNotFound
                 filename = p
                 ext = splitp[1]
-- 
2.43.0


From 1b8c4ddbedac41872b853483ccaff08bfe9a20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 057/129] fix: documents created from an existing root element
 register its IDs

---
 pyslet/xml/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 7ce723e..f9bc4db 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -586,21 +586,21 @@ class Document(Node):
         self.root = None
         """The root element or None if no root element has been created
         yet."""
+        self.idTable = {}
         if root:
             if isinstance(root, Element):
                 # created from an instance
                 if root.parent:
                     raise ValueError(
                         "Element must be an orphan in Document constructor")
+                root.attach_to_doc(self)
                 self.root = root
                 root.parent = self
-                self.root.attach_to_doc(self)
             elif not issubclass(root, Element):
                 raise ValueError
             else:
                 self.root = root(self)
         self.set_base(base_uri)
-        self.idTable = {}
 
     def get_children(self):
         """Yields the root element"""
-- 
2.43.0


From 22fd2c76d2a8204f461d9428013c1e581bf3879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 058/129] fix: set_id changes nothing if the ID is taken; None
 removes the ID

---
 pyslet/xml/structures.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index f9bc4db..92d77a1 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -1502,14 +1502,19 @@ class Element(Node):
         """Sets the id of the element
 
         The change is registered with the enclosing document.  If the id
-        is already taken then :class:`XMLIDClashError` is raised."""
-        if not self.is_valid_name(id):
+        is already taken then :class:`XMLIDClashError` is raised and the
+        element's id is unchanged.  If *id* is None the id is removed."""
+        if id is not None and not self.is_valid_name(id):
             raise XMLIDValueError(id)
         doc = self.get_document()
         if doc:
+            clash = None if id is None else doc.get_element_by_id(id)
+            if clash is not None and clash is not self:
+                raise XMLIDClashError
             doc.unregister_element(self)
             self.id = id
-            doc.register_element(self)
+            if id is not None:
+                doc.register_element(self)
         else:
             self.id = id
 
-- 
2.43.0


From 705ddf8b71cfb29315513f2fc3e12425bc6f52d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 059/129] fix: attaching elements: refuse cycles, no partial
 registration of IDs

---
 pyslet/xml/structures.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 92d77a1..e910559 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -2176,8 +2176,17 @@ class Element(Node):
         registrations are made."""
         if self.parent:
             raise XMLParentError("Expected orphan")
+        ancestor = parent
+        while ancestor is not None:
+            if ancestor is self:
+                raise XMLParentError("Element can't be its own ancestor")
+            ancestor = ancestor.parent
         self.parent = parent
-        self.attach_to_doc()
+        try:
+            self.attach_to_doc()
+        except XMLIDClashError:
+            self.parent = None
+            raise
 
     @old_method('AttachToDocument')
     def attach_to_doc(self, doc=None):
@@ -2197,11 +2206,21 @@ class Element(Node):
         if doc is None:
             doc = self.get_document()
         if doc:
-            if self.id:
-                doc.register_element(self)
-            for child in self.get_children():
-                if isinstance(child, Element):
-                    child.attach_to_doc(doc)
+            attached = []
+            try:
+                if self.id:
+                    doc.register_element(self)
+                for child in self.get_children():
+                    if isinstance(child, Element):
+                        child.attach_to_doc(doc)
+                        attached.append(child)
+            except XMLIDClashError:
+                # leave no trace of this element in the document
+                for child in attached:
+                    child.detach_from_doc(doc)
+                if self.id and doc.get_element_by_id(self.id) is self:
+                    doc.unregister_element(self)
+                raise
 
     @old_method('DetachFromParent')
     def detach_from_parent(self):
-- 
2.43.0


From b20783141146c4d45982d5f8ff851fd4a59ce3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 060/129] fix: remove_child raises XMLUnknownChild for single
 children, as documented

---
 pyslet/xml/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index e910559..d839722 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -2009,6 +2009,8 @@ class Element(Node):
                 child.detach_from_doc()
                 child.parent = None
                 setattr(self, factory_name, None)
+            elif isinstance(factory, Element):
+                raise XMLUnknownChild(child.xmlname)
             else:
                 raise TypeError("%s.%s in Element.remove_child" %
                                 (type(self).__name__, factory_name))
-- 
2.43.0


From 5bc81799c05a3d49373d525aae137e4e1ecf077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 061/129] fix: get_or_add_child in Python 3

---
 pyslet/xml/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index d839722..e2921fc 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -1870,7 +1870,7 @@ class Element(Node):
         If there is no child of that class then a new child is added."""
         children = self.find_children_depth_first(child_class, max_depth=1)
         try:
-            return children.next()
+            return next(children)
         except StopIteration:
             return self.add_child(child_class)
 
-- 
2.43.0


From 7b5011965037c8f2911a89be642c40cbee4198f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 062/129] fix: find_children apply max_depth and sub_match at
 all levels

---
 pyslet/xml/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index e2921fc..85952ab 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -2106,7 +2106,7 @@ class Element(Node):
                 if isinstance(child, Element) and (
                         sub_match or not isinstance(child, child_class)):
                     for c in child.find_children_breadth_first(
-                            child_class, max_depth):
+                            child_class, sub_match, max_depth):
                         yield c
 
     @old_method('FindChildrenDepthFirst')
@@ -2140,7 +2140,7 @@ class Element(Node):
                     continue
             if isinstance(child, Element) and max_depth > 0:
                 for c in child.find_children_depth_first(
-                        child_class, max_depth):
+                        child_class, sub_match, max_depth):
                     yield c
 
     @old_method('FindParent')
-- 
2.43.0


From 88ca68f06f575c8ba8e1c8d36540a95191866a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 063/129] fix: deepcopy to a descendant, and leave nothing
 behind on ID clashes

---
 pyslet/xml/structures.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 85952ab..5c51a4f 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -2524,20 +2524,36 @@ class Element(Node):
         deserialisation (without the need to generate markup).  As a
         result, element attributes are serialised and deserialised to
         strings during the copy process."""
+        # the copy may be added to this element, or to a descendant
+        source = self._copy_source()
         if parent:
             e = parent.add_child(self.__class__, self.get_xmlname())
         else:
             e = self.__class__(None)
+        try:
+            self._copy_from(source, e)
+        except XMLIDClashError:
+            if isinstance(parent, Element):
+                parent.remove_child(e)
+            raise
+        return e
+
+    def _copy_source(self):
+        # a list of (child, source of child) or (text, None)
+        return [(child, None if is_text(child) else child._copy_source())
+                for child in self.get_children()]
+
+    def _copy_from(self, source, e):
         attrs = self.get_attributes()
         for aname in dict_keys(attrs):
             e.set_attribute(aname, attrs[aname])
-        for child in self.get_children():
+        for child, child_source in source:
             if is_text(child):
                 e.add_data(child)
             else:
-                child.deepcopy(e)
+                child._copy_from(child_source, e.add_child(
+                    child.__class__, child.get_xmlname()))
         e.content_changed()
-        return e
 
     def get_base(self):
         """Returns the value of the xml:base attribute as a string."""
-- 
2.43.0


From 6b292474a8f13f334867699b56ac291602000fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 064/129] fix: back links of associations between entities of
 the same type

---
 pyslet/odata2/csdl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index c27f3a9..b623d74 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3954,6 +3954,8 @@ class NavigationProperty(CSDLElement):
 
     def mark_as_ambiguous(self):
         self.ambiguous = True
+        if self.backLink is not None:
+            self.backLink.backLink = None
         self.backLink = None
 
 
@@ -4302,8 +4304,11 @@ class Association(NameTableMixin, CSDLElement):
         # association Once we find them, set the back-link
         np_list = []
         for iEnd in self.AssociationEnd:
+            if iEnd.entityType is None:
+                continue
             for np in iEnd.entityType.NavigationProperty:
-                if scope[np.relationship] is self and not np.ambiguous:
+                if (scope.get(np.relationship) is self and
+                        np.fromRole == iEnd.name and not np.ambiguous):
                     np_list.append(np)
                     break
         if len(np_list) == 2:
-- 
2.43.0


From 1f07d9c39130b35aa5630ccacd0f5db1df8a1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 065/129] fix: ambiguous navigation to an entity set not named
 after its type

---
 pyslet/odata2/csdl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index b623d74..3a5c9f2 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -4657,7 +4657,10 @@ class EntitySet(CSDLElement):
                         raise ModelConstraintError(
                             "Property %s.%s has an ambiguous target set" %
                             (self.name, np.name))
-                    # eset = esets[0]
+                    if not esets:
+                        raise ModelIncomplete(
+                            "Property %s.%s has no target set" %
+                            (self.name, np.name))
                 else:
                     continue
                 # create a unique name
@@ -4677,7 +4680,7 @@ class EntitySet(CSDLElement):
                 from_end.entitySetName = self.name
                 to_end = association_set.add_child(AssociationSetEnd)
                 to_end.name = np.to_end.name
-                to_end.entitySetName = np.to_end.entityType.name
+                to_end.entitySetName = esets[0].name
                 # add the auto-generated set to the container
                 # automatically updates set references
                 container.add_auto_aset(association_set)
-- 
2.43.0


From b27ed9b38437fb9d956291dccecfc0e5494b3cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:00 +0000
Subject: [PATCH 066/129] fix: navigation over associations of the same name in
 two schemas

---
 pyslet/odata2/csdl.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 3a5c9f2..206d412 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -4179,13 +4179,11 @@ class EntityType(Type):
         # AssociationSets to be created in any container that binds the
         # type to an EntitySet
         aroles = {}
-        # aroles maps AssociationEnds onto navigation properties
+        # aroles maps AssociationEnds onto navigation properties, by
+        # identity as schemas may have associations of the same name
         for p in self.NavigationProperty:
             if p.from_end is not None:
-                if p.from_end not in aroles:
-                    aroles[p.from_end] = [p]
-                else:
-                    aroles[p.from_end].append(p)
+                aroles.setdefault(id(p.from_end), []).append(p)
         # now if there are any duplicates these are ambiguous references
         # and need to be marked as such
         for arole, plist in dict_items(aroles):
-- 
2.43.0


From 70966f32fd3c9af0b7998d755c8d1df955216f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 067/129] fix: GzipEncoder lost encoded data that did not fit
 in the caller's buffer

---
 pyslet/http/messages.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1f1b0f0..9df049c 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -41,16 +41,19 @@ class GzipEncoder(io.RawIOBase):
 
     def readinto(self, b):
         nbytes = len(b)
+        if not nbytes:
+            # an empty read is not the end of src
+            return 0
         while True:
             if self.buffstr:
                 # we have some buffered data left over
                 if len(self.buffstr) > nbytes:
-                    self.buffstr = data[nbytes:]
-                    b[:] = data[:nbytes]
+                    b[:nbytes] = self.buffstr[:nbytes]
+                    self.buffstr = self.buffstr[nbytes:]
                 else:
                     nbytes = len(self.buffstr)
                     b[:nbytes] = self.buffstr
-                self.buffstr = None
+                    self.buffstr = None
                 return nbytes
             elif self.src is not None:
                 data = self.src.read(nbytes)
-- 
2.43.0


From cacbef9f46223d0bf5c588f80c995268c63233ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 068/129] fix: ChunkedReader lost its place when its source
 returned a short read

---
 pyslet/http/messages.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 9df049c..b815151 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -182,7 +182,17 @@ class ChunkedReader(io.RawIOBase):
         nbytes = len(b)
         if nbytes > self.chunk_left:
             nbytes = self.chunk_left
-        b[:nbytes] = self.src.read(nbytes)
+        if not nbytes:
+            return 0
+        data = self.src.read(nbytes)
+        if data is None:
+            # src is blocked
+            return None
+        if not data:
+            raise IOError("ChunkedReader: unexpected end of data")
+        # src may return less than we asked for
+        nbytes = len(data)
+        b[:nbytes] = data
         self.chunk_left -= nbytes
         return nbytes
 
-- 
2.43.0


From aaae338a78e8d7628dc6ca18d06765192bafadd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 069/129] fix: WSGIInputWrapper seek beyond the buffer skipped
 too little or read too much

---
 pyslet/http/messages.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index b815151..d13b4a9 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -269,7 +269,7 @@ class WSGIInputWrapper(io.RawIOBase):
                     self.pos + n > self.inputLength:
                 # application should not attempt to read past the
                 # CONTENT_LENGTH
-                n = self.inputLength - self.pos
+                n = max(0, self.inputLength - self.pos)
             idata = self.input_stream.read(n)
             if len(idata) == 0:
                 self.input_stream = None
@@ -312,8 +312,6 @@ class WSGIInputWrapper(io.RawIOBase):
                 data = self.read(n)
                 if len(data) == 0:
                     break
-                else:
-                    self.pos += len(data)
         # new_pos may be beyond the end of the input stream, that's OK
         self.pos = new_pos
 
-- 
2.43.0


From 0042f4cc67c922666b9968d84f6db94d2ec6ebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 070/129] fix: WSGIInputWrapper.readinto in Python 3

---
 pyslet/http/messages.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index d13b4a9..c8ae6c5 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -345,12 +345,8 @@ class WSGIInputWrapper(io.RawIOBase):
         return b''.join(result)
 
     def readinto(self, b):
-        n = len(b)
-        data = self.read(n)
-        i = 0
-        for d in data:
-            b[i] = ord(d)
-            i = i + 1
+        data = self.read(len(b))
+        b[:len(data)] = data
         return len(data)
 
     def readline(self, limit=-1):
-- 
2.43.0


From 831a08f3f86121c757f5c8fcfd71798c064779c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:58 +0000
Subject: [PATCH 071/129] fix: a failed seek changed the position of
 BufferedStreamWrapper

---
 pyslet/streams.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index c3d84e8..c36ba41 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -119,15 +119,17 @@ class BufferedStreamWrapper(io.RawIOBase):
         if self.overflow:
             raise io.UnsupportedOperation
         elif whence == io.SEEK_SET:
-            self.pos = offset
+            new_pos = offset
         elif whence == io.SEEK_CUR:
-            self.pos += offset
+            new_pos = self.pos + offset
         elif whence == io.SEEK_END:
-            self.pos = self.length + offset
+            new_pos = self.length + offset
         else:
             raise ValueError("unrecognized whence value in seek: %s" %
                              repr(whence))
-        self.buff.seek(self.pos)
+        # may raise ValueError, leaving the position as it was
+        self.buff.seek(new_pos)
+        self.pos = new_pos
 
     def readinto(self, b):
         if self.pos < self.bsize:
-- 
2.43.0


From fe09e1fe1e4b70493af6a437f09d1527bac0f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:58 +0000
Subject: [PATCH 072/129] fix: ChunkedReader reports missing data as an IOError

---
 pyslet/http/messages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index c8ae6c5..80a922a 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -155,7 +155,10 @@ class ChunkedReader(io.RawIOBase):
         if self.chunk_left == 0:
             self.src.readline()
         p = params.ParameterParser(self.src.readline().strip())
-        self.chunk_left = int(p.parse_token(), 16)
+        token = p.parse_token()
+        if token is None:
+            raise IOError("ChunkedReader: chunk size expected")
+        self.chunk_left = int(token, 16)
         if self.chunk_left == 0:
             self.eof = True
             # read the trailing headers and CRLF
-- 
2.43.0


From da88e5dcb485f2a61c3df7b00fdf79e11a13a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:34 +0000
Subject: [PATCH 073/129] fix: streams opened to append could not be written

---
 pyslet/blockstore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 32f5e9e..3f46466 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -628,7 +628,7 @@ class BlockStream(io.RawIOBase):
         self.ss = ss
         self.stream = stream
         self.r = "r" in mode or "+" in mode
-        self.w = "w" in mode or "+" in mode
+        self.w = "w" in mode or "+" in mode or "a" in mode
         self.size = stream['size'].value
         self.block_size = self.ss.bs.max_block_size
         self._bdata = None
-- 
2.43.0


From 6f2f72fd2dd354d884507a9923972c3495e623e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:34 +0000
Subject: [PATCH 074/129] fix: BlockStream accepted seeks to before the start

---
 pyslet/blockstore.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 3f46466..7c4a0b9 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -666,13 +666,16 @@ class BlockStream(io.RawIOBase):
 
     def seek(self, offset, whence=io.SEEK_SET):
         if whence == io.SEEK_SET:
-            self.pos = offset
+            new_pos = offset
         elif whence == io.SEEK_CUR:
-            self.pos += offset
+            new_pos = self.pos + offset
         elif whence == io.SEEK_END:
-            self.pos = self.size + offset
+            new_pos = self.size + offset
         else:
             raise IOError("bad value for whence in seek")
+        if new_pos < 0:
+            raise ValueError("negative seek position %i" % new_pos)
+        self.pos = new_pos
         new_bnum = self.pos // self.block_size
         if new_bnum != self._bnum:
             self.flush()
-- 
2.43.0


From 00d9f4c733245fa85de6a3a74008a938311a457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:34 +0000
Subject: [PATCH 075/129] fix: reading and writing beyond the end of a
 BlockStream

---
 pyslet/blockstore.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 7c4a0b9..8098b87 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -685,11 +685,10 @@ class BlockStream(io.RawIOBase):
         self._set_btop()
 
     def _set_btop(self):
-        if self.size // self.block_size == self._bnum:
-            # we're pointing to the last block
-            self._btop = self.size % self.block_size
-        else:
-            self._btop = self.block_size
+        # the number of bytes of the stream in the current block: this is
+        # 0 if we're pointing beyond the last block
+        self._btop = max(0, min(self.block_size, self.size -
+                                self._bnum * self.block_size))
 
     def flush(self):
         if self._bdirty:
@@ -743,24 +742,35 @@ class BlockStream(io.RawIOBase):
         self.seek(nbytes, io.SEEK_CUR)
         return nbytes
 
+    def _fill_gap(self):
+        # ensures that all blocks before the current one are full
+        last_block = len(self.blocks)
+        if self.size < self._bnum * self.block_size:
+            if self.size % self.block_size:
+                # pad the existing last block
+                data = bytearray(self.block_size)
+                last_data = self.ss.retrieve_block(self.blocks[-1])
+                data[:len(last_data)] = last_data
+                self.ss.update_block(self.blocks[-1], bytes(data))
+            while last_block < self._bnum:
+                self.blocks.append(self.ss.store_block(
+                    self.stream, last_block, bytearray(self.block_size)))
+                last_block += 1
+            self.size = self._bnum * self.block_size
+            # the checksum does not include the padding
+            self._md5 = None
+
     def write(self, b):
         if not self.w:
             raise IOError("stream not open for writing")
+        if not len(b):
+            return 0
         # we can always write something in the block, nbytes > 0
         nbytes = self.block_size - self._bpos
         if self._bdata is None:
             if self._btop <= 0:
-                # add a new empty blocks first
-                last_block = len(self.blocks)
-                while last_block < self._bnum:
-                    self.blocks.append(self.ss.store_block(
-                        self.stream, last_block, bytearray(self.block_size)))
-                    last_block += 1
-                    self.size = last_block * self.block_size
-                # force the new size to be written
+                self._fill_gap()
                 self._bdata = bytearray(self.block_size)
-                self._bdirty = True
-                self.flush()
                 # finally add the last block, but don't store it yet
                 with self.stream['Blocks'].open() as blist:
                     new_block = blist.new_entity()
-- 
2.43.0


From 6305853d83224fbbf86ec8ac505bae4dfd016faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:34 +0000
Subject: [PATCH 076/129] fix: opening a stream with mode w did not truncate it

---
 pyslet/blockstore.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 8098b87..9683992 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -647,6 +647,10 @@ class BlockStream(io.RawIOBase):
                 self.blocks = []
                 self._md5 = hashlib.md5()
                 self._md5num = 0
+                if self.size:
+                    self.size = 0
+                    self._set_btop()
+                    self._commit_stream()
             else:
                 self.blocks = list(self.ss.retrieve_blocklist(self.stream))
 
@@ -706,17 +710,21 @@ class BlockStream(io.RawIOBase):
                     self._md5num += 1
                 else:
                     self._md5 = None
-            if self.size != self.stream['size'].value:
-                self.stream['size'].set_from_value(self.size)
-            now = TimePoint.from_now_utc()
-            self.stream['modified'].set_from_value(now)
-            if self._md5 is not None:
-                self.stream['md5'].set_from_value(self._md5.digest())
-            else:
-                self.stream['md5'].set_null()
-            self.stream.commit()
+            self._commit_stream()
             self._bdirty = False
 
+    def _commit_stream(self):
+        # writes the details of the stream
+        if self.size != self.stream['size'].value:
+            self.stream['size'].set_from_value(self.size)
+        now = TimePoint.from_now_utc()
+        self.stream['modified'].set_from_value(now)
+        if self._md5 is not None:
+            self.stream['md5'].set_from_value(self._md5.digest())
+        else:
+            self.stream['md5'].set_null()
+        self.stream.commit()
+
     def tell(self):
         return self.pos
 
-- 
2.43.0


From 8e788b253221e01f19ef002b7d4598c7ba72630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:34 +0000
Subject: [PATCH 077/129] fix: two streams exchanging the contents of blocks
 could deadlock

---
 pyslet/blockstore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 9683992..25c1234 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -570,8 +570,10 @@ class StreamStore(object):
         filter.add_operand(core.LiteralExpression(hash_value))
         # filter is: hash eq <hash_value>
         with self.block_set.open() as base_coll:
-            with self.ls.lock(hash_key):
-                with self.ls.lock(new_hash):
+            # always lock in the same order to prevent deadlocks
+            hash1, hash2 = sorted((hash_key, new_hash))
+            with self.ls.lock(hash1):
+                with self.ls.lock(hash2):
                     self.bs.store(data)
                     block['hash'].set_from_value(new_hash)
                     base_coll.update_entity(block)
-- 
2.43.0


From 0a0743350425e5a4c96e65b65670d82ef2459fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:28 +0000
Subject: [PATCH 078/129] fix: SQLite and MySQL stream stores put blocks in the
 wrong place

---
 pyslet/mysqldbds.py    | 4 ++--
 pyslet/odata2/sqlds.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/mysqldbds.py b/pyslet/mysqldbds.py
index 461b6d5..390f8d9 100644
--- a/pyslet/mysqldbds.py
+++ b/pyslet/mysqldbds.py
@@ -270,10 +270,10 @@ class MySQLStreamStore(blockstore.StreamStore):
                                               container=self.container_def,
                                               **kwargs)
         if dpath is None:
-            bs = blockstore.FileBlockStore(dpath)
-        else:
             bs = blockstore.EDMBlockStore(
                 entity_set=self.container_def['Blocks'])
+        else:
+            bs = blockstore.FileBlockStore(dpath)
         ls = blockstore.LockStore(entity_set=self.container_def['Locks'])
         blockstore.StreamStore.__init__(
             self, bs, ls, self.container_def['Streams'])
diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index bca0abe..e02cacb 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5841,10 +5841,10 @@ class SQLiteStreamStore(blockstore.StreamStore):
         if create:
             self.container.create_all_tables()
         if dpath is None:
-            bs = blockstore.FileBlockStore(dpath)
-        else:
             bs = blockstore.EDMBlockStore(
                 entity_set=self.container_def['Blocks'])
+        else:
+            bs = blockstore.FileBlockStore(dpath)
         ls = blockstore.LockStore(entity_set=self.container_def['Locks'])
         blockstore.StreamStore.__init__(
             self, bs, ls, self.container_def['Streams'])
-- 
2.43.0


From d2fe77b20877d70e6d7995b8c08a8f75dfbb769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 079/129] fix: connection pool cleaner and close failed in
 Python 3.9 (isAlive)

---
 pyslet/odata2/sqlds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index e02cacb..918a640 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4879,7 +4879,7 @@ class SQLEntityContainer(object):
         with self.cpool_lock:
             locked_list = list(dict_values(self.cpool_locked))
             for cpool_item in locked_list:
-                if not cpool_item.thread.isAlive():
+                if not cpool_item.thread.is_alive():
                     logging.error(
                         "Thread[%i] failed to release database connection "
                         "before terminating", cpool_item.thread_id)
@@ -4887,7 +4887,7 @@ class SQLEntityContainer(object):
                     to_close.append(cpool_item.dbc)
             unlocked_list = list(dict_values(self.cpool_unlocked))
             for cpool_item in unlocked_list:
-                if not cpool_item.thread.isAlive():
+                if not cpool_item.thread.is_alive():
                     logging.debug(
                         "pool_cleaner moving database connection to idle "
                         "after Thread[%i] terminated",
@@ -4993,7 +4993,7 @@ class SQLEntityContainer(object):
                             "before closing container", cpool_item.thread_id)
                         del self.cpool_locked[cpool_item.thread_id]
                         to_close.append(cpool_item.dbc)
-                    elif not cpool_item.thread.isAlive():
+                    elif not cpool_item.thread.is_alive():
                         logging.error(
                             "Thread[%i] failed to release database connection "
                             "before terminating", cpool_item.thread_id)
-- 
2.43.0


From 61471f48d8e808f4768e1d2f89fac13580a2d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 080/129] fix: connections of dead threads were never replaced
 in the pool

---
 pyslet/odata2/sqlds.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 918a640..0da94d1 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4903,7 +4903,6 @@ class SQLEntityContainer(object):
                         "after Thread[%i] timed out",
                         cpool_item.thread_id)
                     del self.cpool_unlocked[cpool_item.thread_id]
-                    self.cpool_size -= 1
                     to_close.append(cpool_item.dbc)
             i = len(self.cpool_idle)
             while i:
@@ -4913,10 +4912,16 @@ class SQLEntityContainer(object):
                     logging.info("pool_cleaner removed idle connection")
                     to_close.append(cpool_item.dbc)
                     del self.cpool_idle[i]
-                    self.cpool_size -= 1
-        for dbc in to_close:
-            if dbc is not None:
-                self.close_connection(dbc)
+        try:
+            for dbc in to_close:
+                if dbc is not None:
+                    self.close_connection(dbc)
+        finally:
+            if to_close:
+                # once closed they can be replaced: tell anyone waiting
+                with self.cpool_lock:
+                    self.cpool_size -= len(to_close)
+                    self.cpool_lock.notify_all()
 
     def open(self):
         """Creates and returns a new connection object.
-- 
2.43.0


From a3c4fff105f18d83045afe704872b51a36bc5a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 081/129] fix: failing to open a database connection used up a
 place in the pool

---
 pyslet/odata2/sqlds.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 0da94d1..a0afd68 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4764,11 +4764,21 @@ class SQLEntityContainer(object):
                 cpool_item.last_seen = time.time()
                 self.cpool_locked[thread_id] = cpool_item
         if cpool_item:
-            if close_flag:
-                self.close_connection(cpool_item.dbc)
-                cpool_item.dbc = None
-            if cpool_item.dbc is None:
-                cpool_item.dbc = self.open()
+            try:
+                if close_flag:
+                    old_dbc, cpool_item.dbc = cpool_item.dbc, None
+                    self.close_connection(old_dbc)
+                if cpool_item.dbc is None:
+                    cpool_item.dbc = self.open()
+            except Exception:
+                # give up our place in the pool
+                with self.cpool_lock:
+                    if self.cpool_locked.get(thread_id, None) is cpool_item:
+                        del self.cpool_locked[thread_id]
+                    self.cpool_size -= 1
+                    self.module_lock.release()
+                    self.cpool_lock.notify()
+                raise
             return cpool_item
         # we are defeated, no database connection for the caller
         # release lock on the module as there is no connection to release
-- 
2.43.0


From a8b37f1e460185648f2b20c18634508ea8b06749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 082/129] fix: thread inheriting its id from one that died
 holding a connection

---
 pyslet/odata2/sqlds.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index a0afd68..66a5c75 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4709,7 +4709,16 @@ class SQLEntityContainer(object):
                     return None
             # we have the module lock
             cpool_item = self.cpool_locked.get(thread_id, None)
-            if cpool_item:
+            if cpool_item and cpool_item.thread is not thread:
+                # left locked by a terminated thread with the same id
+                logging.error(
+                    "Thread[%i] failed to release database connection "
+                    "before terminating", thread_id)
+                cpool_item.locked = 1
+                cpool_item.thread = thread
+                cpool_item.last_seen = now
+                close_flag = True
+            elif cpool_item:
                 # our thread_id is in the locked table
                 cpool_item.locked += 1
                 cpool_item.last_seen = now
-- 
2.43.0


From dead971b2e6076a1ab79071a4dfbfc6cdbad4d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 083/129] fix: closing a database while threads wait for
 connections

---
 pyslet/odata2/sqlds.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 66a5c75..51bfde9 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4707,6 +4707,8 @@ class SQLEntityContainer(object):
                         "Thread[%i] timed out waiting for the the database "
                         "module lock", thread_id)
                     return None
+                if self.closing.is_set():
+                    return None
             # we have the module lock
             cpool_item = self.cpool_locked.get(thread_id, None)
             if cpool_item and cpool_item.thread is not thread:
@@ -4766,6 +4768,8 @@ class SQLEntityContainer(object):
                     logging.debug(
                         "Thread[%i] resuming search for database connection",
                         thread_id)
+                    if self.closing.is_set():
+                        break
                     continue
                 cpool_item.locked += 1
                 cpool_item.thread = thread
@@ -4786,7 +4790,7 @@ class SQLEntityContainer(object):
                         del self.cpool_locked[thread_id]
                     self.cpool_size -= 1
                     self.module_lock.release()
-                    self.cpool_lock.notify()
+                    self.notify_pool()
                 raise
             return cpool_item
         # we are defeated, no database connection for the caller
@@ -4808,7 +4812,7 @@ class SQLEntityContainer(object):
                     if not cpool_item.locked:
                         del self.cpool_locked[thread_id]
                         self.cpool_unlocked[thread_id] = cpool_item
-                        self.cpool_lock.notify()
+                        self.notify_pool()
                     return
             # it seems likely that some other thread is going to leave a
             # locked connection now, let's try and find it to correct
@@ -4826,7 +4830,7 @@ class SQLEntityContainer(object):
                 if not bad_item.locked:
                     del self.cpool_locked[bad_thread]
                     self.cpool_unlocked[bad_item.thread_id] = bad_item
-                    self.cpool_lock.notify()
+                    self.notify_pool()
                     logging.error(
                         "Thread[%i] released database connection originally "
                         "acquired by Thread[%i]", thread_id, bad_thread)
@@ -4855,6 +4859,13 @@ class SQLEntityContainer(object):
         if close_flag:
             self.close_connection(release_item.dbc)
 
+    def notify_pool(self):
+        # called with the cpool lock
+        if self.closing.is_set():
+            self.cpool_lock.notify_all()
+        else:
+            self.cpool_lock.notify()
+
     def connection_stats(self):
         """Return information about the connection pool
 
@@ -5002,13 +5013,12 @@ class SQLEntityContainer(object):
             while True:
                 while self.cpool_idle:
                     cpool_item = self.cpool_idle.pop()
-                    logging.error(
-                        "Thread[%i] failed to release database connection "
-                        "before terminating", cpool_item.thread_id)
                     to_close.append(cpool_item.dbc)
                 while self.cpool_unlocked:
                     unlocked_id, cpool_item = self.cpool_unlocked.popitem()
                     to_close.append(cpool_item.dbc)
+                # anyone waiting for a connection must give up now
+                self.cpool_lock.notify_all()
                 locked_list = list(dict_values(self.cpool_locked))
                 for cpool_item in locked_list:
                     if cpool_item.thread_id == thread_id:
@@ -5023,20 +5033,24 @@ class SQLEntityContainer(object):
                             "before terminating", cpool_item.thread_id)
                         del self.cpool_locked[cpool_item.thread_id]
                         to_close.append(cpool_item.dbc)
-                    else:
+                    elif cpool_item.dbc is not None:
                         # thread is alive, try and interrupt it if it is
                         # stuck in a slow query
                         self.break_connection(cpool_item.dbc)
-                if self.cpool_locked and (nlocked is None or
-                                          nlocked > len(self.cpool_locked)):
+                now = time.time()
+                if nlocked is None or nlocked > len(self.cpool_locked):
+                    wait_until = None if timeout is None else now + timeout
+                if self.cpool_locked and (wait_until is None or
+                                          wait_until > now):
                     # if this is the first time around the loop, or...
                     # if the size of the locked pool is actually
                     # shrinking, wait for locked connections to be
-                    # released
+                    # released.  (We may be woken for other reasons.)
                     nlocked = len(self.cpool_locked)
                     logging.warning(
                         "Waiting to break unreleased database connections")
-                    self.cpool_lock.wait(timeout)
+                    self.cpool_lock.wait(
+                        None if wait_until is None else wait_until - now)
                     continue
                 # we're not getting anywhere, force-close these
                 # connections
-- 
2.43.0


From 9382a0ec17b36bad4f25f80f68da6a8fbd59381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:37 +0000
Subject: [PATCH 084/129] fix: literals of large numbers could not be read back

---
 pyslet/odata2/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 6fc9254..fc30916 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -924,9 +924,10 @@ class LiteralExpression(CommonExpression):
             elif self.value.type_code == edm.SimpleType.Decimal:
                 result = result + "M"
             elif self.value.type_code == edm.SimpleType.Double:
-                result = result + "D"
+                # no '+' is allowed in the exponent of a literal
+                result = result.replace("+", "") + "D"
             elif self.value.type_code == edm.SimpleType.Single:
-                result = result + "F"
+                result = result.replace("+", "") + "F"
             elif self.value.type_code == edm.SimpleType.Guid:
                 result = "guid'%s'" % result
             elif self.value.type_code == edm.SimpleType.Int64:
-- 
2.43.0


From a2cb8259581c7d459e84a29666c032d8668d2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 085/129] fix: signatures could be moved to another message;
 empty messages

---
 pyslet/wsgi.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 9c46d3c..4c58d38 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1814,18 +1814,23 @@ class AppCipher(object):
             num = int(num)
             salt = binascii.unhexlify(salt)
             hash = binascii.unhexlify(hash)
-            if smessage:
+            if len(salt) != 4:
+                # the boundary between salt and message has been moved
+                raise ValueError
+            if smessage is not None:
                 smessage = unescape_data(smessage)
-                if message:
+                if message is not None:
                     # must match exactly!
                     if message != smessage:
                         raise ValueError
                 else:
                     message = smessage
             with self.lock:
-                cipher = self._get_cipher(num)
-                if cipher is None:
-                    return ValueError
+                try:
+                    cipher = self._get_cipher(num)
+                except RuntimeError:
+                    # no such key, or it is too old
+                    raise ValueError
                 if cipher.hash(salt + message) == hash:
                     return message
                 else:
@@ -1873,7 +1878,7 @@ class AppCipher(object):
             if new_pos < 0:
                 result.append(signature[pos:])
                 while len(result) < 4:
-                    result.append('')
+                    result.append(None)
                 return result
             result.append(signature[pos:new_pos])
             pos = new_pos + 1
-- 
2.43.0


From 800b54f56cf22f398cb782089dfa53ee7cf3073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 086/129] fix: AppCipher could not be restarted before a
 change-over; overlapping key changes

---
 pyslet/wsgi.py | 62 +++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 4c58d38..606b142 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1593,27 +1593,33 @@ class AppCipher(object):
         self.key_num = key_num
         self.key = key
         self.ciphers = {key_num: self.new_cipher(key)}
+        #: the (number, expiry time) of previous keys that are still to
+        #: be used, oldest first
+        self.old_keys = []
         if when:
-            # we need to find a key that hasn't expired
+            # we need to find the keys that haven't expired
+            now = time.time()
+            when = when.get_unixtime()
             with key_set.open() as keys:
                 t = edm.EDMValue.from_type(edm.SimpleType.DateTime)
-                t.set_from_value(time.time())
+                t.set_from_value(int(now))
                 filter = odata.CommonExpression.from_str(
-                    "Expires gte :t", {'t': t})
+                    "Expires ge :t", {'t': t})
                 keys.set_filter(filter)
-                # Only interested in keys that haven't expired
-                old_keys = keys.values()
-                if not old_keys:
-                    raise RuntimeError("AppCipher: no current key")
-                old_key = old_keys[0]
-                self.old_num = old_key['KeyNum'].value
-                self.old_key = self.decrypt(old_key['KeyString'])
-                self.old_expires = when.get_unixtime()
-                self.ciphers[self.old_num] = self.new_cipher(self.old_key)
-        else:
-            self.old_num = None
-            self.old_key = None
-            self.old_expires = None
+                keys.set_orderby(
+                    odata.CommonExpression.orderby_from_str("Expires asc"))
+                for old_key in keys.values():
+                    if old_key['KeyNum'].value == key_num:
+                        # our own successor has been chosen already
+                        break
+                    self.old_keys.append(
+                        (old_key['KeyNum'].value,
+                         old_key['Expires'].value.with_zone(
+                             0).get_unixtime()))
+            if self.old_keys:
+                self.old_keys[-1] = (self.old_keys[-1][0], when)
+            elif when > now:
+                raise RuntimeError("AppCipher: no current key")
 
     def new_cipher(self, key):
         """Returns a new cipher object with the given key
@@ -1694,9 +1700,10 @@ class AppCipher(object):
         Eventually you will have to update encrypted data in the data
         store."""
         with self.lock:
-            self.old_num = self.key_num
-            self.old_key = self.key
-            self.old_expires = when.get_unixtime()
+            old_num = self.key_num
+            old_key = self.key
+            # until then any earlier keys still have their time
+            self.old_keys.append((old_num, when.get_unixtime()))
             # we should already have a cipher for this key
             self.key_num = key_num
             self.key = key
@@ -1705,10 +1712,10 @@ class AppCipher(object):
             # use of the new key
             old_key_encrypted = "%i:%s" % (
                 key_num, force_ascii(base64.b64encode(cipher.encrypt(
-                    self.old_key))))
+                    old_key))))
         with self.key_set.open() as keys:
             e = keys.new_entity()
-            e.set_key(self.old_num)
+            e.set_key(old_num)
             e['KeyString'].set_from_value(old_key_encrypted)
             e['Expires'].set_from_value(when)
             try:
@@ -1717,18 +1724,17 @@ class AppCipher(object):
                 # Presumably this entity already exists, possible race
                 # condition on change_key - load the entity from the old
                 # key number to raise KeyError if not
-                e = keys[self.old_num]
+                e = keys[old_num]
 
     def _get_current_cipher(self):
-        if self.old_expires:
-            if time.time() > self.old_expires:
+        while self.old_keys:
+            old_num, old_expires = self.old_keys[0]
+            if time.time() > old_expires:
                 # the old key has finally expired
-                self.old_num = None
-                self.old_key = None
-                self.old_expires = None
+                del self.old_keys[0]
             else:
                 # use the old key
-                return self.old_num, self.ciphers[self.old_num]
+                return old_num, self._get_cipher(old_num)
         return self.key_num, self.ciphers[self.key_num]
 
     def _get_cipher(self, num):
-- 
2.43.0


From 81acf3d5b2e43f5d9e8e779ed2f72c70a9b321e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 087/129] fix: default metadata had no Expires property for
 application keys

---
 pyslet/wsgi_metadata.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/wsgi_metadata.xml b/pyslet/wsgi_metadata.xml
index 9a8261d..7e4e013 100755
--- a/pyslet/wsgi_metadata.xml
+++ b/pyslet/wsgi_metadata.xml
@@ -16,6 +16,8 @@
                 <Property Name="KeyNum" Nullable="false" Type="Edm.Int32"/>
                 <Property Name="KeyString" Nullable="false"
                     Type="Edm.String" MaxLength="256" Unicode="false"/>
+                <Property Name="Expires" Nullable="false"
+                    Type="Edm.DateTime" Precision="0"/>
             </EntityType>
         </Schema>
     </edmx:DataServices>
-- 
2.43.0


From e4b7a8a46176b1aaa1a1f7054e5ca29985250c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:35 +0000
Subject: [PATCH 088/129] fix: expiry of application keys given in zones other
 than UTC

---
 pyslet/wsgi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 606b142..d6375e0 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1717,7 +1717,8 @@ class AppCipher(object):
             e = keys.new_entity()
             e.set_key(old_num)
             e['KeyString'].set_from_value(old_key_encrypted)
-            e['Expires'].set_from_value(when)
+            # stored without a zone, in UTC
+            e['Expires'].set_from_value(when.shift_zone(0))
             try:
                 keys.insert_entity(e)
             except edm.ConstraintError:
-- 
2.43.0


From cb3562198d3cf870dc95517ff9fab8e62cec0a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:13 +0000
Subject: [PATCH 089/129] fix: child elements of elements declared EMPTY
 crashed the validating parser

---
 pyslet/xml/parser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index dec55de..7300148 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -524,11 +524,15 @@ class ContentParticleCursor(object):
         expected = {}
         end_tag = None
         if self.state == ContentParticleCursor.START_STATE:
-            for name in dict_keys(self.element_type.particle_map):
-                if name:
-                    expected[name] = True
-                else:
-                    end_tag = "</%s>" % self.element_type.name
+            if self.element_type.particle_map is None:
+                # EMPTY (or ANY)
+                end_tag = "</%s>" % self.element_type.name
+            else:
+                for name in dict_keys(self.element_type.particle_map):
+                    if name:
+                        expected[name] = True
+                    else:
+                        end_tag = "</%s>" % self.element_type.name
         elif self.state == ContentParticleCursor.PARTICLE_STATE:
             for p in self.plist:
                 for name in dict_keys(p.particle_map):
-- 
2.43.0


From 79ca2e24c2d5a4cec9820e613c6828d51ee8b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:13 +0000
Subject: [PATCH 090/129] fix: required children missing from empty-element
 tags were not reported

---
 pyslet/xml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 7300148..8bf6290 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2244,6 +2244,8 @@ class XMLParser(PEP8Compatibility):
                     production +
                     ": element implied by PCDATA had empty content %s" %
                     self.element)
+        else:
+            self.check_expected_particle('')
         self.element.content_changed()
         self.element = save_element
         self.elementType = save_element_type
-- 
2.43.0


From 04e5c98eff277ab1814fae1ff0a5f7061bfef2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:13 +0000
Subject: [PATCH 091/129] fix: comments in undeclared elements crashed the
 validating parser

---
 pyslet/xml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 8bf6290..36d4b44 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2625,6 +2625,7 @@ class XMLParser(PEP8Compatibility):
                         self.parse_required_literal('--')
                         self.parse_comment(True)
                         if (self.check_validity and
+                                self.elementType and
                                 self.elementType.content_type ==
                                 xml.ElementType.Empty):
                             self.validity_error(
@@ -2649,6 +2650,7 @@ class XMLParser(PEP8Compatibility):
                     self.next_char()
                     self.parse_pi(True)
                     if (self.check_validity and
+                            self.elementType and
                             self.elementType.content_type ==
                             xml.ElementType.Empty):
                         self.validity_error(
-- 
2.43.0


From 2a306c057eabcfb6b9c6a5bab0b5b267bb9f3e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:13 +0000
Subject: [PATCH 092/129] fix: empty CDATA sections in element content were not
 reported

---
 pyslet/xml/parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 36d4b44..73155da 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2641,7 +2641,19 @@ class XMLParser(PEP8Compatibility):
                             self.buff_text(xml.CDATA_START)
                             self.unhandled_data('')
                         else:
+                            data_count = self.dataCount
                             self.parse_cdsect(True)
+                            if (self.check_validity and
+                                    self.elementType and
+                                    self.elementType.content_type in (
+                                        xml.ElementType.EMPTY,
+                                        xml.ElementType.ELEMENT_CONTENT) and
+                                    self.dataCount == data_count):
+                                # not allowed, even though it is empty
+                                self.validity_error(
+                                    "Element Valid: CDATA section not "
+                                    "allowed in element %s" %
+                                    self.elementType.name)
                     else:
                         self.well_formedness_error(
                             "Expected Comment or CDSect")
-- 
2.43.0


From 1abe7b182c1a6ef9cbc0758194e018b57dd2203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:52 +0000
Subject: [PATCH 093/129] fix: second reference to an empty entity reported as
 recursive

---
 pyslet/xml/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 73155da..d0e855d 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -834,6 +834,9 @@ class XMLParser(PEP8Compatibility):
             # entity used UTF-16 but it was completely empty (not even a
             # BOM) then that is an error.
             self.check_encoding(entity, None)
+            if entity is not self.docEntity:
+                # there's nothing to parse
+                entity.close()
         if entity.buff_text:
             self.buff_text(entity.buff_text)
 
-- 
2.43.0


From a356d09e58533fa7d440c1959f67f8a0f93c4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:21 +0000
Subject: [PATCH 094/129] fix: offsets of times by, or with, fractions

---
 pyslet/iso8601.py | 40 ++++++++++++----------------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 133de00..af0194b 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1464,42 +1464,26 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             if second is None:
                 raise DateTimeError("second precision required")
             second = second + seconds
-            if isinstance(second, float):
-                fs, s = modf(second)
-                s = int(s)
-                minutes += s // 60
-                second = float(s % 60) + fs
-            else:
-                minutes += second // 60
-                second = second % 60
+            carry = int(second // 60)
+            minutes += carry
+            second -= 60 * carry
         minute = self.minute
         if minutes:
             if minute is None:
                 raise DateTimeError("minute or second precision required")
             minute = minute + minutes
-            if isinstance(minute, float):
-                if second is not None:
-                    raise DateTimeError("minute precision required")
-                fm, m = modf(minute)
-                m = int(m)
-                hours += minute // 60
-                minute = float(minute % 60) + fm
-            else:
-                hours += minute // 60
-                minute = minute % 60
+            if isinstance(minute, float) and second is not None:
+                raise DateTimeError("minute precision required")
+            carry = int(minute // 60)
+            hours += carry
+            minute -= 60 * carry
         hour = self.hour
         if hours:
             hour = hour + hours
-            if isinstance(hour, float):
-                if minute is not None:
-                    raise DateTimeError("hour precision required")
-                fh, h = modf(hour)
-                h = int(h)
-                days += float(h // 24)
-                hour = float(hour % 24) + fh
-            else:
-                days += hour // 24
-                hour = hour % 24
+            if isinstance(hour, float) and minute is not None:
+                raise DateTimeError("hour precision required")
+            days = int(hour // 24)
+            hour -= 24 * days
         # always copy time zone from base
         zdirection, zhour, zminute = self.get_zone3()
         return type(self)(hour=hour, minute=minute, second=second,
-- 
2.43.0


From b74d2029a9db1ac980e86f4688ed9494ca11487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:21 +0000
Subject: [PATCH 095/129] fix: zone shifts of times with fractions, and by more
 than a day

---
 pyslet/iso8601.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index af0194b..7cae461 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1545,21 +1545,12 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         hour = self.hour
         if minute is not None:
             minute = minute + zshift % 60
-            if minute > 59:
+            if minute >= 60:
                 hour += 1
                 minute -= 60
-            elif minute < 0:
-                hour -= 1
-                minute += 60
         hour = hour + zshift // 60
-        if hour > 23:
-            hour -= 24
-            overflow = 1
-        elif hour < 0:
-            hour += 24
-            overflow = -1
-        else:
-            overflow = 0
+        overflow = int(hour // 24)
+        hour -= 24 * overflow
         return type(self)(hour=hour, minute=minute, second=second,
                           zdirection=zdirection, zhour=zhour,
                           zminute=zminute), overflow
-- 
2.43.0


From 339391a1a3f3fea687b2c3ed4f9be6abbf9df745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:21 +0000
Subject: [PATCH 096/129] fix: 24:00 is the same instant as 00:00 on the
 following day

---
 pyslet/iso8601.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 7cae461..82939ba 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -2411,6 +2411,12 @@ class TimePoint(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if self.time.get_zone_offset():
             # force UTC for comparisons and hashing
             return self.shift_zone(zdirection=0).sortkey()
+        elif (self.time.hour == 24 and
+                self.date.get_calendar_day() != (99, 99, 12, 31)):
+            # the same instant as 00:00 on the following day
+            t = self.time.offset(hours=-24)[0]
+            return tuple(list(self.date.offset(days=1).sortkey()) +
+                         list(t.sortkey()))
         else:
             # no zone, or Zulu time
             return tuple(list(self.date.sortkey()) + list(self.time.sortkey()))
-- 
2.43.0


From e7dece0927fe5bc55ba4cf6e7796eff6bca97704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:30 +0000
Subject: [PATCH 097/129] fix: day 0, ordinal day 000 and week 00 were taken
 for other dates

---
 pyslet/iso8601.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 82939ba..9da70e2 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -224,12 +224,12 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         absolute_day = kwargs.get('absoluteDay', absolute_day)
         if src is None:
             # explicit form
-            if absolute_day:
+            if absolute_day is not None:
                 self._set_from_absolute_day(absolute_day)
-            elif decade or week or weekday:
+            elif decade or week is not None or weekday is not None:
                 self._set_from_week_day(
                     century, decade, year, week, weekday, base)
-            elif ordinal_day:
+            elif ordinal_day is not None:
                 self._set_from_ordinal_day(century, year, ordinal_day, base)
             elif century is None and base is None:
                 # use the origin, but everything else must be None too
@@ -449,7 +449,7 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         else:
             if weekday <= 0 or weekday > 7:
                 raise DateTimeError("weekday %i out of range" % weekday)
-        if week is not None and (week < 0 or week > 53):
+        if week is not None and (week < 1 or week > 53):
             raise DateTimeError("week %i out of range" % week)
         if year is not None and (year < 0 or year > 9):
             raise DateTimeError("year %i within decade is out of range")
-- 
2.43.0


From ca1186f0f1ff4d91409b017e74b94bf7364254cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:30 +0000
Subject: [PATCH 098/129] fix: times in the last minute of an hour with
 fractions of a minute

---
 pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 9da70e2..12c819d 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1908,7 +1908,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             return
         if not isinstance(self.hour, int):
             raise DateTimeError("bad fractional hour %s" % str(self.hour))
-        if self.minute < 0 or self.minute > 59:
+        if self.minute < 0 or self.minute >= 60:
             raise DateTimeError("minute out of range %s" % str(self.minute))
         if self.second is None:
             return
-- 
2.43.0


From 883cd9d24698f164d1b8546963d1299989a80256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:30 +0000
Subject: [PATCH 099/129] fix: dates with century precision could not be offset

---
 pyslet/iso8601.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 12c819d..3a31573 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -707,6 +707,12 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
                 return type(self)(century=century, year=year)
             else:
                 raise DateTimeError("offset incompatible with year precision")
+        elif precision == Precision.Century:
+            if not days and not weeks and not months and not years:
+                return type(self)(century=self.century + centuries)
+            else:
+                raise DateTimeError(
+                    "offset incompatible with century precision")
 
     @classmethod
     def from_str(cls, src, base=None):
-- 
2.43.0


From 31634be0f5277943a841c14a6a44b981ef556697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 100/129] fix: a cookie path matches an identical request path,
 an empty request path is /

---
 pyslet/http/cookie.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index c352d3c..2e67343 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1140,15 +1140,12 @@ class CookieStore(object):
                         continue
                     if c.domain is None and not host_match:
                         continue
-                    # do a path match
-                    if url.abs_path is None:
-                        continue
-                    if len(url.abs_path) < len(c.path):
-                        continue
-                    if not (url.abs_path.startswith(c.path) and
+                    # do a path match, an empty path is requested as /
+                    abs_path = url.abs_path or '/'
+                    if not (abs_path.startswith(c.path) and
                             (c.path[-1] == '/' or
-                             url.abs_path[len(c.path):len(c.path) + 1] ==
-                             '/')):
+                             abs_path[len(c.path):len(c.path) + 1] in
+                             ('', '/'))):
                         continue
                     # we have a domain and path match
                     if c.secure and not isinstance(url, params.HTTPSURL):
-- 
2.43.0


From 5353fd72e2b38bbe0bd13f924eda1fb32c3e06f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 101/129] fix: a cookie does not inherit its creation time from
 an expired cookie

---
 pyslet/http/cookie.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 2e67343..ca40579 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1092,7 +1092,8 @@ class CookieStore(object):
                         "Cookie for public domain %s ignored" % domain_str)
             old_cookie = dnode.cookies.get((c.name, c.path), None)
             if old_cookie is not None:
-                c.creation_time = old_cookie.creation_time
+                if not old_cookie.expired():
+                    c.creation_time = old_cookie.creation_time
                 del dnode.cookies[(c.name, c.path)]
             if not c.expired():
                 dnode.cookies[(c.name, c.path)] = c
-- 
2.43.0


From a45d1bb57445b54585274f186c2d6596d8efc0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 102/129] fix: cookies with a domain attribute were accepted
 from IP addresses that merely end with it

---
 pyslet/http/cookie.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index ca40579..f6c66bc 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -146,6 +146,25 @@ def split_domain(domain_str, allow_wildcard=False):
     return [r.decode('ascii') for r in result]
 
 
+def split_host(host_str):
+    """Splits a host into a *reversed* list of labels
+
+    host_str
+        A character string, the host from a URL.
+
+    An IP address (or any other string that isn't a domain name) is not
+    split, it can only be matched as a whole and is returned as a list
+    containing a single string."""
+    try:
+        host = split_domain(host_str)
+    except ValueError:
+        return [host_str]
+    if host[-1].isdigit():
+        return [host_str]
+    host.reverse()
+    return host
+
+
 def domain_in_domain(subdomain, domain):
     """Returns try if subdomain is a sub-domain of domain.
 
@@ -1043,21 +1062,15 @@ class CookieStore(object):
             raise CookieError(
                 "Can't set http_only cookie with this protocol: %s" %
                 url.scheme)
-        try:
-            host_str = url.host
-            host = split_domain(host_str)
-            host.reverse()
-        except ValueError:
-            # the domain is an IP address, match whole
-            host = [host]
+        host_str = url.host
+        host = split_host(host_str)
         domain = c.domain
         if domain is None:
             domain_str = host_str
             domain = host
         else:
             domain_str = domain
-            domain = split_domain(domain)
-            domain.reverse()
+            domain = split_host(domain)
             if not domain_in_domain(domain, host):
                 # you can't set this cookie from host
                 raise CookieError(
@@ -1113,13 +1126,8 @@ class CookieStore(object):
         Expired cookies are automatically removed from the repository
         and all cookies returned have their access time updated to the
         current time."""
-        try:
-            host_str = url.host
-            host = split_domain(host_str)
-            host.reverse()
-        except ValueError:
-            # the domain is an IP address, match whole
-            host = [host]
+        host_str = url.host
+        host = split_host(host_str)
         matched = []
         dpos = 0
         now = time.time()
-- 
2.43.0


From 802276f69212e1060793cb57c7341a9aca5f7ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 103/129] fix: a public suffix does not make the domains above
 it public

---
 pyslet/http/cookie.py | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index f6c66bc..4473e49 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1264,8 +1264,9 @@ class CookieStore(object):
                     else:
                         # create a new node
                         dnode = self._expand_node(old_node, d)
-                        # force this to be public
-                        dnode.public = True
+                        if dcount == 1 and not dnode.private:
+                            # force this to be public
+                            dnode.public = True
                 elif dcount == 1:
                     # this is the last label in the suffix, mark it
                     # as public if it isn't explicitly private
@@ -1470,33 +1471,29 @@ class CookieStore(object):
         with self.lock:
             dnode = self
             dcount = len(domain)
-            matched = []
+            # the number of labels in the longest matching public suffix
+            suffix_len = 0
             for d in domain:
                 old_node = dnode
                 dnode = old_node.nodes.get(d, None)
                 if dnode is None:
                     # dcount is the number of labels left in domain
-                    if dcount > old_node.public_depth:
-                        # private domain with public prefix
-                        matched = matched + domain[
-                            -dcount:len(domain) - dcount +
-                            old_node.public_depth + 1]
-                    else:
-                        # public domain
-                        matched = None
+                    if old_node.public_depth:
+                        suffix_len = (len(domain) - dcount +
+                                      min(dcount, old_node.public_depth))
                     break
-                elif not dnode.public:
-                    # that's it, don't add any more labels after this one
-                    matched.append(d)
-                    break
-                elif dcount == 1:
-                    # last label, this domain matches this rule exactly
-                    matched = None
-                    break
-                matched.append(d)
                 dcount -= 1
-        if matched is None:
+                if dnode.private:
+                    # an exception, don't add any more labels after this one
+                    suffix_len = len(domain) - dcount - 1
+                    break
+                elif dnode.public:
+                    suffix_len = len(domain) - dcount
+        if suffix_len >= len(domain):
+            # public domain
             return None
+        # private domain with public prefix
+        matched = domain[:suffix_len + 1]
         matched.reverse()
         if u_labels:
             matched = [u[4:].decode('punycode') if is_a_label(u) else
-- 
2.43.0


From 089feb1b32e7d7bdf7bcc13a46ec1371bb26865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 104/129] fix: domains within a private domain are private
 whatever the default depth

---
 pyslet/http/cookie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 4473e49..61bcce8 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1321,11 +1321,13 @@ class CookieStore(object):
                             # private node
                             dnode.private = True
                             dnode.public = False
+                            dnode.public_depth = 0
                 elif dcount == 1:
                     # this is the last label in the suffix, mark it
                     # as private
                     dnode.private = True
                     dnode.public = False
+                    dnode.public_depth = 0
                     if d == '*':
                         # mark all children public too
                         for child in dict_values(old_node.nodes):
-- 
2.43.0


From d751cf5de670abea3736c69a7ddd5d5ee1a84260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 105/129] fix: get_registered_domain with u_labels or a leading
 dot failed in Python 3

---
 pyslet/http/cookie.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 61bcce8..4263364 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1465,11 +1465,11 @@ class CookieStore(object):
         :meth:`set_public_list`)."""
         if domain_str is None:
             return None
-        domain = split_domain(domain_str)
-        domain.reverse()
-        if domain and domain[-1] == '':
+        if domain_str[:1] in (b'.', '.'):
             # ignore domains with a leading '.'
             return None
+        domain = split_domain(domain_str)
+        domain.reverse()
         with self.lock:
             dnode = self
             dcount = len(domain)
@@ -1498,8 +1498,9 @@ class CookieStore(object):
         matched = domain[:suffix_len + 1]
         matched.reverse()
         if u_labels:
-            matched = [u[4:].decode('punycode') if is_a_label(u) else
-                       u.decode('utf-8') for u in matched]
+            matched = [u[4:].encode('ascii').decode('punycode')
+                       if is_a_label(u.encode('ascii')) else u
+                       for u in matched]
         return '.'.join(matched)
 
     def check_public_suffix(self, domain_str, match_str):
-- 
2.43.0


From a762e6e35e695fa90bea71a1527cc3a5d69063d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 106/129] fix: week dates truncated to the year of the decade
 were refused at the end of a century

---
 pyslet/iso8601.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 3a31573..b52528d 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -494,6 +494,9 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
                                self.day is not None and
                                self.day < base_weekday)))):
                         self.year += (baseDecade + 1) * 10
+                        if self.year > 99:
+                            self.year -= 100
+                            self._add_century()
                     else:
                         self.year += baseDecade * 10
             else:
-- 
2.43.0


From 4e7f7218b6e761a37247f8a0ddb36b1a9c2ef113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 107/129] fix: removing one of several credentials from a
 client raised IndexError

---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 3db3ac5..08446b2 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1575,6 +1575,7 @@ class Client(PEP8Compatibility, object):
             for i in range3(len(self.credentials)):
                 if self.credentials[i] is credentials:
                     del self.credentials[i]
+                    break
 
     def dnslookup(self, host, port):
         """Given a host name (string) and a port number performs a DNS lookup
-- 
2.43.0


From 643164242c66423246657f3bd4c8d4714a93e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 108/129] fix: credentials with a realm couldn't be matched
 with a challenge

---
 pyslet/http/auth.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 3941177..b68fd6b 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -170,7 +170,10 @@ class Credentials(Parameter):
         if self.protectionSpace != challenge.protectionSpace:
             return False
         if self.realm:
-            if self.realm != challenge.realm:
+            realm = self.realm
+            if not isinstance(realm, bytes):
+                realm = realm.encode('iso-8859-1')
+            if realm != challenge["realm"]:
                 return False
         return True
 
-- 
2.43.0


From dca6ebdef5bc27db05f6b3af1700d6ac3bf4723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 109/129] fix: a client answers just one of the challenges of a
 response

---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 08446b2..c693073 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1980,6 +1980,7 @@ class ClientRequest(messages.Request):
                 if self.tried_credentials:
                     self.set_authorization(self.tried_credentials)
                     self.resend()  # to the same URL
+                    break
 
 
 class ClientResponse(messages.Response):
-- 
2.43.0


From 479ff5f62202cdb504e36343b55567f9a132af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 110/129] fix: parsing lists of challenges with several schemes

---
 pyslet/http/auth.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index b68fd6b..4dfe97e 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -332,11 +332,17 @@ class AuthorizationParser(ParameterParser):
         auth_scheme = self.require_token("auth scheme").decode('ascii')
         params = []
         self.parse_sp()
+        savepos = None
         while self.the_word is not None:
-            param_name = self.parse_token().decode('ascii')
+            param_name = self.parse_token()
             if param_name is not None:
                 self.parse_sp()
-                self.require_separator(EQUALS_SIGN)
+                if not self.parse_separator(EQUALS_SIGN):
+                    if savepos is None:
+                        self.parser_error("auth-param")
+                    # not a parameter, the scheme of the next challenge
+                    self.setpos(savepos)
+                    break
                 self.parse_sp()
                 if self.is_token():
                     param_value = self.parse_token()
@@ -345,11 +351,14 @@ class AuthorizationParser(ParameterParser):
                     param_value = self.require_production(
                         self.parse_quoted_string(), "auth-param value")
                     forceq = True
-                params.append((param_name, param_value, forceq))
+                params.append((param_name.decode('ascii'), param_value,
+                               forceq))
             self.parse_sp()
+            savepos = self.pos
             if not self.parse_separator(COMMA):
                 break
+            self.parse_sp()
         if auth_scheme.lower() == "basic":
             return BasicChallenge(*params)
         else:
-            return Challenge(*params)
+            return Challenge(auth_scheme, *params)
-- 
2.43.0


From 8451ef504eec57ea55f3ce310f30c9c00b2db61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 111/129] fix: basic credentials may have a colon in the
 password

---
 pyslet/http/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 4dfe97e..0ed7552 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -221,7 +221,7 @@ class BasicCredentials(Credentials):
         self.path_prefixes = []
 
     def set_basic_credentials(self, basic_credentials):
-        credentials = base64.b64decode(basic_credentials).split(b':')
+        credentials = base64.b64decode(basic_credentials).split(b':', 1)
         if len(credentials) == 2:
             self.userid = credentials[0].decode('iso-8859-1')
             self.password = credentials[1].decode('iso-8859-1')
-- 
2.43.0


From ce2d3efe2e0cfb7c551af79ac24f2201137b13e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 112/129] fix: BasicCredentials.match called a method that
 doesn't exist

---
 pyslet/http/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 0ed7552..773b405 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -231,7 +231,7 @@ class BasicCredentials(Credentials):
     def match(self, challenge=None, url=None):
         if challenge is not None:
             # must match the challenge
-            if not super(BasicCredentials, self).match(challenge):
+            if not self.match_challenge(challenge):
                 return False
         if url is not None:
             # must match the url
-- 
2.43.0


From a8dce546fbb15d0d77b4c043e09561cf9753a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 113/129] fix: matching credentials with a URL with no path

---
 pyslet/http/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 773b405..7fca49c 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -249,7 +249,7 @@ class BasicCredentials(Credentials):
         if not url.is_absolute():
             raise ValueError("test_url requires an absolute URL")
         if (self.protectionSpace == url.get_canonical_root() and
-                self.test_path(url.abs_path)):
+                self.test_path(url.abs_path or "/")):
             return True
         else:
             return False
-- 
2.43.0


From 79e56d4e43e8fb6480aff6b4984dc61e4d313452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 114/129] fix: only the last segment of a path prefix of
 credentials matches anything

---
 pyslet/http/auth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 7fca49c..857f5e4 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -308,8 +308,9 @@ class BasicCredentials(Credentials):
             return False
         i = 0
         while i < len(prefix):
-            # note that an empty segment matches anything (except nothing)
-            if prefix[i] and prefix[i] != path[i]:
+            # note that an empty last segment matches anything (except
+            # nothing)
+            if prefix[i] != path[i] and (prefix[i] or i + 1 < len(prefix)):
                 return False
             i = i + 1
         return True
-- 
2.43.0


From a34371dc5228f734a9bae6a6c9852c2fe7cd08ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:17 +0000
Subject: [PATCH 115/129] fix: a badly formed challenge escaped as an exception
 from the client

---
 pyslet/http/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index c693073..107b2a7 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1973,7 +1973,11 @@ class ClientRequest(messages.Request):
                     location = location.resolve(self.url)
                 self.resend(location)
         elif self.status == 401:
-            challenges = self.response.get_www_authenticate()
+            try:
+                challenges = self.response.get_www_authenticate()
+            except ValueError as e:
+                logging.warning("Ignored bad WWW-Authenticate: %s", str(e))
+                challenges = []
             for c in challenges:
                 c.protectionSpace = self.url.get_canonical_root()
                 self.tried_credentials = self.manager.find_credentials(c)
-- 
2.43.0


From 673ccd553b93bf1bedb3770786e272b3da2b4422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:31 +0000
Subject: [PATCH 116/129] fix: following a redirection to a relative URL

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 107b2a7..b76fa15 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1968,7 +1968,7 @@ class ClientRequest(messages.Request):
             # confirmed by the user
             location = self.response.get_location()
             if location:
-                if not location.host:
+                if not location.is_absolute():
                     # This is an error but a common one (thanks IIS!)
                     location = location.resolve(self.url)
                 self.resend(location)
-- 
2.43.0


From db1c85ee3b9309122bdcef5dc9193ff5830f6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:17 +0000
Subject: [PATCH 117/129] fix: redirected requests were sent with
 'Authorization: None'

---
 pyslet/http/messages.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 80a922a..3eeace7 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1204,8 +1204,11 @@ class Message(PEP8Compatibility, object):
         """Sets the "Authorization" header
 
         credentials
-                a :py:class:`~pyslet.http.auth.Credentials` instance"""
-        self.set_header("Authorization", str(credentials))
+                a :py:class:`~pyslet.http.auth.Credentials` instance or
+                None to remove the header"""
+        if credentials is not None:
+            credentials = str(credentials)
+        self.set_header("Authorization", credentials)
 
     def get_cache_control(self):
         """Returns an :py:class:`CacheControl` instance or None if no
-- 
2.43.0


From 0ae0956ea1bd1f141d7c390dde7ae2185c3b3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:54 +0000
Subject: [PATCH 118/129] fix: a request was finished by an informational
 response

---
 pyslet/http/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index b76fa15..3b67394 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1898,6 +1898,9 @@ class ClientRequest(messages.Request):
             else:
                 self.res_body = self.response.entity_body.getvalue()
             if self.response.status >= 100 and self.response.status <= 199:
+                if self.response.status != 101:
+                    # this is not our final status
+                    self.status = 0
                 """Received after a 100 continue or other 1xx status
                 response, we may be waiting for the connection to call
                 our send_body method.  We need to tell it not to
-- 
2.43.0


From de85616e2e3d950cde9bf54ea5703dbe8f232ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:54 +0000
Subject: [PATCH 119/129] fix: an early error response corrupted the rest of
 the request's body

---
 pyslet/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 3b67394..c9881c5 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1922,7 +1922,8 @@ class ClientRequest(messages.Request):
                 # finished with us
                 if self.status >= 300:
                     # Some type of error condition....
-                    if isinstance(self.send_body(), str):
+                    data = self.send_body()
+                    if data or data is None:
                         # There was more data to send in the request but we
                         # don't plan to send it so we have to hang up!
                         self.connection.request_disconnect()
-- 
2.43.0


From 562d7479760ac7e0d2e2fa63b133f44b63a117e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:54 +0000
Subject: [PATCH 120/129] fix: an early 2xx response raised TypeError

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index c9881c5..25d6e5d 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1929,7 +1929,7 @@ class ClientRequest(messages.Request):
                         self.connection.request_disconnect()
                     # else, we were finished anyway... the connection will
                     # discover this itself
-                elif self.response >= 200:
+                elif self.status >= 200:
                     # For 2xx result codes we let the connection finish
                     # spooling and disconnect from us when it is done
                     pass
-- 
2.43.0


From 8ce1d670f21d0c876cbeebba8e4e067953f06378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 121/129] fix: truncated responses were reported as complete

---
 pyslet/http/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 25d6e5d..f657491 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2035,6 +2035,10 @@ class ClientResponse(messages.Response):
         may be expected behaviour and *err* may be None.
 
         We pass this information on to the request."""
+        if err is None and (self.status is None or
+                            self.recv_mode() != self.RECV_ALL):
+            err = messages.HTTPException(
+                "connection closed before the response was complete")
         if err is not None:
             self.reason = str(err)
         self.request.response_finished(err)
-- 
2.43.0


From 572b96228c2544bb8285c9b894ed1d33dc390720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 122/129] fix: no more requests on a connection that can't send

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index f657491..756c390 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -797,7 +797,7 @@ class Connection(SortableMixin):
                 # requests!
                 self.request.disconnect(self.sent_bytes)
                 self.request = None
-                self.request_mode == self.CLOSE_WAIT
+                self.request_mode = self.CLOSE_WAIT
                 self.send_buffer = []
             elif nbytes < len(data):
                 # Some of the data went:
-- 
2.43.0


From f32d8f60924aab317560f7b1962cd30ba6eaee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:55 +0000
Subject: [PATCH 123/129] fix: a finished response was resent when sending was
 blocked

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 756c390..e743a5c 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -340,7 +340,7 @@ class Connection(SortableMixin):
                     recv_done, recv_rbusy, recv_wbusy = self._recv_task()
                     rbusy = rbusy or recv_rbusy
                     wbusy = wbusy or recv_wbusy
-                    if rbusy or wbusy:
+                    if (rbusy or wbusy) and not recv_done:
                         if (self.last_rw is not None and
                                 self.timeout is not None and
                                 self.last_rw + self.timeout < time.time()):
-- 
2.43.0


From 99173bef7bcb9e15dd4901f5a12ecde76bf71975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:26 +0000
Subject: [PATCH 124/129] fix: a request sent again could end with the status
 of a previous response

---
 pyslet/http/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index e743a5c..d816832 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1819,6 +1819,9 @@ class ClientRequest(messages.Request):
             request has been (or at least has started to be) sent."""
         self.connection = connection
         self._send_pos = send_pos
+        # forget the outcome of any previous attempt
+        self.status = 0
+        self.response.status = None
 
     def disconnect(self, send_pos):
         """Called when the connection has finished sending us
-- 
2.43.0


From d9314e3cdb85594ae611bc9d46583acab985f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 125/129] fix: a request never ended if the connection broke in
 a 1xx response

---
 pyslet/http/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index d816832..0a0a513 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2044,6 +2044,10 @@ class ClientResponse(messages.Response):
                 "connection closed before the response was complete")
         if err is not None:
             self.reason = str(err)
+        if self.status is not None and self.status // 100 == 1 and \
+                self.status != 101:
+            # we never got the final response
+            self.status = None
         self.request.response_finished(err)
 
     def finished(self):
-- 
2.43.0


From 9e15cfcfcd4e69244bd82c3cebdcb5f572081e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:13 +0000
Subject: [PATCH 126/129] fix: a repeated request closed its new connection if
 the previous response had

---
 pyslet/http/messages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 3eeace7..c3348f6 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1911,6 +1911,8 @@ class Response(Message):
         super(Response, self).start_receiving()
         self.status = None
         self.reason = None
+        # a previous response to the same request is no guide
+        self.keep_alive = True
 
     def recv_start(self, line):
         # Read the status line
-- 
2.43.0


From 377035fb9b758b05db3b123f8925141b905288de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:12 +0000
Subject: [PATCH 127/129] fix: thread_task could block for longer than its
 timeout

---
 pyslet/http/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 0a0a513..7a8f5cb 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1432,7 +1432,7 @@ class Client(PEP8Compatibility, object):
         for c in connections:
             try:
                 r, w, tmax = c.connection_task()
-                if wait_time is None or (tmax is not None and
+                if tmax is not None and (wait_time is None or
                                          wait_time > tmax):
                     # shorten the timeout
                     wait_time = tmax
@@ -1445,9 +1445,8 @@ class Client(PEP8Compatibility, object):
                 pass
         if readers or writers:
             if timeout is not None:
-                if wait_time is not None:
-                    if timeout < wait_time:
-                        wait_time = timeout
+                if wait_time is None or timeout < wait_time:
+                    wait_time = timeout
             try:
                 logging.debug("thread_task waiting for select: "
                               "readers=%s, writers=%s, timeout=%s",
@@ -1457,6 +1456,8 @@ class Client(PEP8Compatibility, object):
                 logging.error("Socket error from select: %s", str(err))
         elif wait_time is not None:
             # not waiting for i/o, let time pass
+            if timeout is not None and timeout < wait_time:
+                wait_time = timeout
             logging.debug("thread_task waiting to retry: %f", wait_time)
             time.sleep(wait_time)
         return True
-- 
2.43.0


From f1bb19a85c79e9ea02f98dfc8deb8a95ea958261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 128/129] fix: a client without a timeout failed requests that
 wait for 100-continue

---
 pyslet/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 7a8f5cb..31b93a4 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -390,7 +390,8 @@ class Connection(SortableMixin):
                     break
                 self.manager._deactivate_connection(self)
                 break
-        if (rbusy or wbusy) and (tbusy is None or tbusy > self.timeout):
+        if ((rbusy or wbusy) and self.timeout is not None and
+                (tbusy is None or tbusy > self.timeout)):
             # waiting for i/o, make sure the timeout is capped
             tbusy = self.timeout
         if rbusy:
-- 
2.43.0


From 4d79ac9e1050d58b938ac7a4a15fe94d056295f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:12 +0000
Subject: [PATCH 129/129] fix: pipelined responses received together were not
 processed

---
 pyslet/http/client.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 31b93a4..057fcf8 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -179,6 +179,8 @@ class Connection(SortableMixin):
         self.sent_bytes = 0
         self.recv_buffer = []
         self.recv_buffer_size = 0
+        #: True if recv_buffer may have data for the current response
+        self.recv_pending = False
 
     def thread_target_key(self):
         return (self.thread_id, self.scheme, self.host, self.port)
@@ -337,7 +339,12 @@ class Connection(SortableMixin):
                 # get here once the buffer is empty or we're blocked on
                 # sending.
                 if self.response:
-                    recv_done, recv_rbusy, recv_wbusy = self._recv_task()
+                    if self.recv_pending:
+                        # we may have the next response already
+                        self.recv_pending = False
+                        recv_done, recv_rbusy, recv_wbusy = self._recv_data()
+                    else:
+                        recv_done, recv_rbusy, recv_wbusy = self._recv_task()
                     rbusy = rbusy or recv_rbusy
                     wbusy = wbusy or recv_wbusy
                     if (rbusy or wbusy) and not recv_done:
@@ -360,6 +367,7 @@ class Connection(SortableMixin):
                                 self.response = self.response_queue[0]
                                 self.response_queue = self.response_queue[1:]
                                 self.response.start_receiving()
+                                self.recv_pending = bool(self.recv_buffer)
                             elif self.response:
                                 self.response = None
                                 if self.request_mode == self.CLOSE_WAIT:
@@ -662,6 +670,7 @@ class Connection(SortableMixin):
         self.sent_bytes = 0
         self.recv_buffer = []
         self.recv_buffer_size = 0
+        self.recv_pending = False
         self.request_mode = self.REQ_READY
 
     def kill(self):
@@ -849,7 +858,12 @@ class Connection(SortableMixin):
                           "data on ready to read socket", self.host)
             self.close()
             return (True, False, False)
-        # Now loop until we can't satisfy the response anymore (or the response
+        return self._recv_data()
+
+    def _recv_data(self):
+        #   Passes the data we've received to the response
+        err = None
+        # loop until we can't satisfy the response anymore (or the response
         # is done)
         while self.response is not None:
             recv_needs = self.response.recv_mode()
-- 
2.43.0

