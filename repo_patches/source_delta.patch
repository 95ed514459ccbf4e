From 59183423de13f45a6dee5c609af0fad83ef302f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 01/28] fix: subscription intersection with '*' drops event
 types without further subtypes

---
 src_py/hat/event/common/subscription/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/common/subscription/common.py b/src_py/hat/event/common/subscription/common.py
index ef26946..2d45b64 100644
--- a/src_py/hat/event/common/subscription/common.py
+++ b/src_py/hat/event/common/subscription/common.py
@@ -80,15 +80,17 @@ def union(first: Node, second: Node) -> Node:
 
 
 def intersection(first: Node, second: Node) -> Node:
-    is_leaf = first.is_leaf and second.is_leaf
-
+    # '*' matches zero or more subtypes (including leaf)
     if '*' in first.children:
+        is_leaf = second.is_leaf
         children = second.children
 
     elif '*' in second.children:
+        is_leaf = first.is_leaf
         children = first.children
 
     else:
+        is_leaf = first.is_leaf and second.is_leaf
         children = {}
 
         for name, child, other_children in itertools.chain(
-- 
2.43.0


From 8b1c1d600fe34c93277bad0e0aad1a72eb87295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 02/28] fix: empty subscription intersection branches break
 isdisjoint

---
 src_py/hat/event/common/subscription/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src_py/hat/event/common/subscription/common.py b/src_py/hat/event/common/subscription/common.py
index 2d45b64..5db57a4 100644
--- a/src_py/hat/event/common/subscription/common.py
+++ b/src_py/hat/event/common/subscription/common.py
@@ -114,6 +114,10 @@ def intersection(first: Node, second: Node) -> Node:
             for other_name, other_child in candidates.items():
                 result_name = name if name != '?' else other_name
                 result_children = intersection(child, other_child)
+                if (not result_children.is_leaf and
+                        not result_children.children):
+                    continue
+
                 prev_result_children = children.get(result_name)
                 children[result_name] = (
                     union(prev_result_children, result_children)
-- 
2.43.0


From acd67270629c7e868828410fa9746e674af00c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 03/28] fix: event type collection ignores query types
 following already registered one

---
 src_py/hat/event/common/collection/pytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/collection/pytree.py b/src_py/hat/event/common/collection/pytree.py
index cb37721..c57839d 100644
--- a/src_py/hat/event/common/collection/pytree.py
+++ b/src_py/hat/event/common/collection/pytree.py
@@ -26,7 +26,7 @@ class PyTreeEventTypeCollection(common.EventTypeCollection):
                 node = node.children[head]
 
             if value in node.values:
-                return
+                continue
 
             node.values.add(value)
             self._value_nodes[value].append(node)
-- 
2.43.0


From bf5d9fb4842b431a72226a61d5be13975d8a8949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:12 +0000
Subject: [PATCH 04/28] fix: conversion of datetime to timestamp for whole
 negative and distant seconds

---
 src_py/hat/event/common/encoder.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index 6ead782..705a34e 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -107,12 +107,11 @@ def timestamp_from_datetime(dt: datetime.datetime) -> Timestamp:
     if not dt.tzinfo:
         dt = dt.replace(tzinfo=datetime.timezone.utc)
 
-    s = int(dt.timestamp())
+    epoch = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
+    delta = dt - epoch
 
-    if dt.timestamp() < 0:
-        s = s - 1
-
-    return Timestamp(s=s, us=dt.microsecond)
+    return Timestamp(s=delta.days * 24 * 60 * 60 + delta.seconds,
+                     us=delta.microseconds)
 
 
 def timestamp_to_sbs(t: Timestamp) -> sbs.Data:
-- 
2.43.0


From 09b8df2b50f4f954739c3f91e853f1d02d598d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:10 +0000
Subject: [PATCH 05/28] fix: timeseries query doesn't order registered events
 not yet written to database

---
 .../hat/event/backends/lmdb/timeseriesdb.py   | 120 +++++-------------
 1 file changed, 35 insertions(+), 85 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/timeseriesdb.py b/src_py/hat/event/backends/lmdb/timeseriesdb.py
index 0d2210c..36c4e08 100644
--- a/src_py/hat/event/backends/lmdb/timeseriesdb.py
+++ b/src_py/hat/event/backends/lmdb/timeseriesdb.py
@@ -1,6 +1,7 @@
 from collections.abc import Iterable
 import collections
 import functools
+import heapq
 import itertools
 import typing
 
@@ -149,9 +150,6 @@ class TimeseriesDb:
 
     async def _query_partition(self, partition_id, params, subscription,
                                max_results):
-        events = collections.deque()
-        changes = self._changes
-
         filter = _Filter(subscription=subscription,
                          t_from=params.t_from,
                          t_to=params.t_to,
@@ -160,26 +158,12 @@ class TimeseriesDb:
                          max_results=max_results + 1,
                          last_event_id=params.last_event_id)
 
-        if params.order == common.Order.DESCENDING:
-            events.extend(_query_partition_changes(
-                changes[partition_id], params, filter))
-
-            if not filter.done:
-                events.extend(await self._env.execute(
-                    _ext_query_partition_events, self._env, self._conditions,
-                    partition_id, params, filter))
-
-        elif params.order == common.Order.ASCENDING:
-            events.extend(await self._env.execute(
-                _ext_query_partition_events, self._env, self._conditions,
-                partition_id, params, filter))
+        changes = self._changes.get(partition_id)
+        changes = list(changes) if changes else []
 
-            if not filter.done:
-                events.extend(_query_partition_changes(
-                    changes[partition_id], params, filter))
-
-        else:
-            raise ValueError('unsupported order')
+        events = await self._env.execute(
+            _ext_query_partition_events, self._env, self._conditions,
+            partition_id, changes, params, filter)
 
         more_follows = len(events) > max_results
         while len(events) > max_results:
@@ -226,8 +210,8 @@ def _ext_init_partitions(env, txn, partitions):
         yield partition_id, partition
 
 
-def _ext_query_partition_events(env, conditions, partition_id, params,
-                                filter):
+def _ext_query_partition_events(env, conditions, partition_id, changes,
+                                params, filter):
     if params.order_by == common.OrderBy.TIMESTAMP:
         events = _ext_query_partition_events_range(
             env, partition_id, params.t_from, params.t_to, params.order)
@@ -241,6 +225,14 @@ def _ext_query_partition_events(env, conditions, partition_id, params,
         raise ValueError('unsupported order by')
 
     events = (event for event in events if conditions.matches(event))
+
+    # registered events, which are not yet written to database, are not
+    # mutually ordered and can precede events from database
+    changes_events = _query_partition_changes(changes, params)
+    events = heapq.merge(events, changes_events,
+                         key=lambda event: _get_order_key(event, params),
+                         reverse=params.order == common.Order.DESCENDING)
+
     events = filter.process(events)
     return collections.deque(events)
 
@@ -393,65 +385,27 @@ def _ext_cleanup_partition(env, txn, now, partition_id, limit, max_results):
                                  entries_count - result_count)
 
 
-def _query_partition_changes(changes, params, filter):
-    if params.order == common.Order.DESCENDING:
-        events = (event for _, event in reversed(changes))
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_to is not None):
-            events = itertools.dropwhile(
-                lambda i: params.t_to < i.timestamp,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_to is not None):
-            events = itertools.dropwhile(
-                lambda i: params.source_t_to < i.source_timestamp,
-                events)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_from is not None):
-            events = itertools.takewhile(
-                lambda i: params.t_from <= i.timestamp,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_from is not None):
-            events = itertools.takewhile(
-                lambda i: params.source_t_from <= i.source_timestamp,
-                events)
-
-    elif params.order == common.Order.ASCENDING:
-        events = (event for _, event in changes)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_from is not None):
-            events = itertools.dropwhile(
-                lambda i: i.timestamp < params.t_from,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_from is not None):
-            events = itertools.dropwhile(
-                lambda i: i.source_timestamp < params.source_t_from,
-                events)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_to is not None):
-            events = itertools.takewhile(
-                lambda i: i.timestamp <= params.t_to,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_to is not None):
-            events = itertools.takewhile(
-                lambda i: i.source_timestamp <= params.source_t_to,
-                events)
+def _query_partition_changes(changes, params):
+    t_from, t_to = ((params.t_from, params.t_to)
+                    if params.order_by == common.OrderBy.TIMESTAMP
+                    else (params.source_t_from, params.source_t_to))
+
+    events = (event for timestamp, event in changes
+              if (t_from is None or t_from <= timestamp) and
+              (t_to is None or timestamp <= t_to))
+
+    return sorted(events,
+                  key=lambda event: _get_order_key(event, params),
+                  reverse=params.order == common.Order.DESCENDING)
 
-    else:
-        raise ValueError('unsupported order')
 
-    return filter.process(events)
+def _get_order_key(event, params):
+    timestamp = (event.timestamp
+                 if params.order_by == common.OrderBy.TIMESTAMP
+                 else event.source_timestamp)
+
+    # same order as encoded database keys
+    return timestamp, event.id
 
 
 class _Filter:
@@ -472,10 +426,6 @@ class _Filter:
         self._max_results = max_results
         self._last_event_id = last_event_id
 
-    @property
-    def done(self):
-        return self._max_results < 1
-
     def process(self, events: Iterable[common.Event]):
         for event in events:
             if self._max_results < 1:
-- 
2.43.0


From 4f09852b59cea20e71d3e36915f948f7eac2ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:49 +0000
Subject: [PATCH 06/28] fix: server query duplicates events when referenced
 latest data is overwritten

---
 src_py/hat/event/backends/lmdb/refdb.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/refdb.py b/src_py/hat/event/backends/lmdb/refdb.py
index 3441c45..b0ba751 100644
--- a/src_py/hat/event/backends/lmdb/refdb.py
+++ b/src_py/hat/event/backends/lmdb/refdb.py
@@ -194,14 +194,15 @@ def _ext_query_events(env, server_id, max_results, last_event_id):
             while (available and
                     len(events) < max_results and
                     bytes(cursor.key()) < encoded_stop_key):
-                value = db_def.decode_value(cursor.value())
-                ref = util.first(value)
-                if not ref:
-                    continue
-
-                event = _ext_get_event(env, txn, ref)
+                event_id = db_def.decode_key(cursor.key())
+                refs = db_def.decode_value(cursor.value())
+
+                # referenced latest data can be overwritten by other event
+                # (in case when configuration is changed)
+                event = util.first(
+                    (_ext_get_event(env, txn, ref) for ref in refs),
+                    lambda i: i is not None and i.id == event_id)
                 if event:
-                    # TODO decode key and check event_id == event.id
                     events.append(event)
 
                 available = cursor.next()
-- 
2.43.0


From 2625b801dfe78507bfae51b112594fdd1220b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 07/28] fix: recover from crash during creation of lmdb backend
 database

Database file was left without (some of) databases if process was
terminated between file creation and creation of last database. Such file
could not be opened again.
---
 src_py/hat/event/backends/lmdb/common.py      |  5 +++--
 src_py/hat/event/backends/lmdb/environment.py | 17 +++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/common.py b/src_py/hat/event/backends/lmdb/common.py
index 1e9aa78..4f337cb 100644
--- a/src_py/hat/event/backends/lmdb/common.py
+++ b/src_py/hat/event/backends/lmdb/common.py
@@ -156,9 +156,10 @@ def ext_create_env(path: Path,
 
 def ext_open_db(env: lmdb.Environment,
                 db_type: DbType,
-                create: bool = True
+                create: bool = True,
+                txn: lmdb.Transaction | None = None
                 ) -> lmdb._Database:
-    return env.open_db(db_type.name.encode('utf-8'), create=create)
+    return env.open_db(db_type.name.encode('utf-8'), create=create, txn=txn)
 
 
 def _encode_uint(value):
diff --git a/src_py/hat/event/backends/lmdb/environment.py b/src_py/hat/event/backends/lmdb/environment.py
index a17c1b1..f023eac 100644
--- a/src_py/hat/event/backends/lmdb/environment.py
+++ b/src_py/hat/event/backends/lmdb/environment.py
@@ -90,11 +90,16 @@ class Environment(aio.Resource):
         await self._executor.async_close()
 
     def _ext_init(self, db_path, max_size):
-        create = not db_path.exists()
-
         self._env = common.ext_create_env(path=db_path,
                                           max_size=max_size)
-        self._dbs = {db_type: common.ext_open_db(env=self._env,
-                                                 db_type=db_type,
-                                                 create=create)
-                     for db_type in common.DbType}
+
+        # all databases are created at once - file without databases is
+        # result of interrupted creation
+        create = self._env.stat()['entries'] == 0
+
+        with self._env.begin(write=True) as txn:
+            self._dbs = {db_type: common.ext_open_db(env=self._env,
+                                                     db_type=db_type,
+                                                     create=create,
+                                                     txn=txn)
+                         for db_type in common.DbType}
-- 
2.43.0


From 7f66c60792b67c0bed1723bdc0db6bf0d4bec068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:27 +0000
Subject: [PATCH 08/28] fix: prevent gap in lmdb backend history after failed
 flush

Changes of failed flush are lost. Flushing of newer changes while closing
backend caused missing events in sequence of persisted events.
---
 src_py/hat/event/backends/lmdb/backend.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/backend.py b/src_py/hat/event/backends/lmdb/backend.py
index edad17f..6bc5dfb 100644
--- a/src_py/hat/event/backends/lmdb/backend.py
+++ b/src_py/hat/event/backends/lmdb/backend.py
@@ -59,6 +59,7 @@ async def create(conf: json.Data,
     backend._flush_queue = aio.Queue(flush_queue_size)
     backend._registered_count = 0
     backend._registered_queue = collections.deque()
+    backend._flush_failed = False
     backend._async_group = aio.Group()
 
     backend._env = await environment.create(Path(conf['db_path']))
@@ -289,7 +290,9 @@ class LmdbBackend(common.Backend):
             self.close()
 
     async def _flush(self):
-        if not self._env.is_open:
+        # changes of failed flush are lost - flushing of newer changes would
+        # result in missing events
+        if not self._env.is_open or self._flush_failed:
             return
 
         self._registered_count = 0
@@ -305,7 +308,12 @@ class LmdbBackend(common.Backend):
         #      (timeseries and ref must write changes before new queries are
         #      allowed)
 
-        await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+        try:
+            await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+
+        except Exception:
+            self._flush_failed = True
+            raise
 
         if not self._flushed_events_cb:
             return
-- 
2.43.0


From 82aa0cd33062838b7ba6884ffefe88ebf50bb16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 09/28] fix: closing of eventer connection ends waiting for
 acknowledgments of other connections

Once one connection is closed, only acknowledgments expected from that
connection can't be received any more.
---
 src_py/hat/event/eventer/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/eventer/server.py b/src_py/hat/event/eventer/server.py
index 2b989dd..60de755 100644
--- a/src_py/hat/event/eventer/server.py
+++ b/src_py/hat/event/eventer/server.py
@@ -202,8 +202,8 @@ class Server(aio.Resource):
             conn.close()
             self._conn_infos.pop(conn, None)
 
-            for future in self._conn_conv_futures.values():
-                if not future.done():
+            for (i, _), future in self._conn_conv_futures.items():
+                if i is conn and not future.done():
                     future.set_exception(ConnectionError())
 
             if self._disconnected_cb and info:
-- 
2.43.0


From c8a13b329622f55321c57f60d206a5c9a25aa26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:56 +0000
Subject: [PATCH 10/28] fix: module is not closed if creation of engine is
 cancelled once module is created

Closing of module is bound to the engine in the task which creates the
module, so that cancellation of create_engine can not happen in between.
---
 src_py/hat/event/server/engine.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index f7d779c..ac4968e 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -50,10 +50,7 @@ async def create_engine(backend: common.Backend,
                                    id=source_id)
 
             module = await engine.async_group.spawn(
-                aio.call, info.create, module_conf, engine, source)
-            engine.async_group.spawn(aio.call_on_cancel, module.async_close)
-            engine.async_group.spawn(aio.call_on_done, module.wait_closing(),
-                                     engine.close)
+                engine._create_module, info, module_conf, source)
 
             engine._source_modules.append((source, module))
 
@@ -108,6 +105,20 @@ class Engine(common.Engine):
     def reset_monitor_ready(self):
         self._reset_monitor_ready_cb()
 
+    async def _create_module(self, info, module_conf, source):
+        module = await aio.call(info.create, module_conf, self, source)
+
+        try:
+            self.async_group.spawn(aio.call_on_cancel, module.async_close)
+            self.async_group.spawn(aio.call_on_done, module.wait_closing(),
+                                   self.close)
+
+        except BaseException:
+            await aio.uncancellable(module.async_close())
+            raise
+
+        return module
+
     async def _register_loop(self):
         future = None
         mlog.debug("starting register loop")
-- 
2.43.0


From 06f242a87d5a1b5ebd92ffe22e4b2a829ae36fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:03 +0000
Subject: [PATCH 11/28] fix: reconnect if eventer connection is closed while
 runner is being created

Runner created at the moment of cancellation was not closed.
---
 src_py/hat/event/component.py | 44 ++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index 7526480..4bd8394 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -248,27 +248,34 @@ class Component(aio.Resource):
 
                 try:
                     mlog.debug("connected to server")
-                    runner = await client.async_group.spawn(
+                    runner_task = client.async_group.spawn(
                         aio.call, self._runner_cb, self, server_data, client)
 
                     try:
-                        async with async_group.create_subgroup() as subgroup:
-                            client_closing_task = subgroup.spawn(
-                                client.wait_closing)
-                            runner_closing_task = subgroup.spawn(
-                                runner.wait_closing)
+                        await asyncio.wait([runner_task])
 
-                            await asyncio.wait(
-                                [client_closing_task, runner_closing_task],
-                                return_when=asyncio.FIRST_COMPLETED)
+                        # creation of runner is cancelled if client is closed
+                        if not runner_task.cancelled():
+                            runner = runner_task.result()
 
-                            if (runner_closing_task.done() and
-                                    not client_closing_task.done()):
-                                self.close()
-                                return
+                            async with async_group.create_subgroup() as subgroup:  # NOQA
+                                client_closing_task = subgroup.spawn(
+                                    client.wait_closing)
+                                runner_closing_task = subgroup.spawn(
+                                    runner.wait_closing)
+
+                                await asyncio.wait(
+                                    [client_closing_task, runner_closing_task],
+                                    return_when=asyncio.FIRST_COMPLETED)
+
+                                if (runner_closing_task.done() and
+                                        not client_closing_task.done()):
+                                    self.close()
+                                    return
 
                     finally:
-                        await aio.uncancellable(runner.async_close())
+                        await aio.uncancellable(
+                            _close_runner(client, runner_task))
 
                 finally:
                     await aio.uncancellable(client.async_close())
@@ -282,3 +289,12 @@ class Component(aio.Resource):
 
         finally:
             async_group.close()
+
+
+async def _close_runner(client, runner_task):
+    if not runner_task.done():
+        client.close()
+        await asyncio.wait([runner_task])
+
+    if not runner_task.cancelled() and not runner_task.exception():
+        await runner_task.result().async_close()
-- 
2.43.0


From 05d66099fb91be003793a88580e5e0527d09f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 12/28] fix: memory backend accesses non-existing event
 attributes

---
 src_py/hat/event/backends/memory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 464ccbe..277430b 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -24,8 +24,8 @@ class MemoryBackend(common.Backend):
         return self._async_group
 
     async def get_last_event_id(self, server_id):
-        event_ids = (e.event_id for e in self._events
-                     if e.server == server_id)
+        event_ids = (e.id for e in self._events
+                     if e.id.server == server_id)
         default = common.EventId(server=server_id, session=0, instance=0)
         return max(event_ids, default=default)
 
@@ -174,5 +174,5 @@ def _filter_source_t_to(events, source_t_to):
 
 def _filter_server_id(events, server_id):
     for event in events:
-        if event.event_id.server == server_id:
+        if event.id.server == server_id:
             yield event
-- 
2.43.0


From f8f4d07afa64d2d102e268f6a82a05c53b57d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 13/28] fix: memory backend timeseries query fails because of
 invalid sort key

---
 src_py/hat/event/backends/memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 277430b..6337ba9 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -89,9 +89,9 @@ class MemoryBackend(common.Backend):
             events = _filter_source_t_to(events, params.source_t_to)
 
         if params.order_by == common.OrderBy.TIMESTAMP:
-            sort_key = lambda event: event.timestamp, event  # NOQA
+            sort_key = lambda event: (event.timestamp, event)  # NOQA
         elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
-            sort_key = lambda event: event.source_timestamp, event  # NOQA
+            sort_key = lambda event: (event.source_timestamp, event)  # NOQA
         else:
             raise ValueError('invalid order by')
 
-- 
2.43.0


From 13134757de1fbb9e223844e2ba9e0db5039c1481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 14/28] fix: memory backend timeseries query fails on events
 without source timestamp

---
 src_py/hat/event/backends/memory.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 6337ba9..8da077a 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -91,6 +91,7 @@ class MemoryBackend(common.Backend):
         if params.order_by == common.OrderBy.TIMESTAMP:
             sort_key = lambda event: (event.timestamp, event)  # NOQA
         elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
+            events = _filter_source_timestamp(events)
             sort_key = lambda event: (event.source_timestamp, event)  # NOQA
         else:
             raise ValueError('invalid order by')
@@ -162,13 +163,21 @@ def _filter_t_to(events, t_to):
 
 def _filter_source_t_from(events, source_t_from):
     for event in events:
-        if event.source_timestamp >= source_t_from:
+        if (event.source_timestamp is not None and
+                event.source_timestamp >= source_t_from):
             yield event
 
 
 def _filter_source_t_to(events, source_t_to):
     for event in events:
-        if event.source_timestamp <= source_t_to:
+        if (event.source_timestamp is not None and
+                event.source_timestamp <= source_t_to):
+            yield event
+
+
+def _filter_source_timestamp(events):
+    for event in events:
+        if event.source_timestamp is not None:
             yield event
 
 
-- 
2.43.0


From f3354d2ba03cea3cc1caf27ece784e83ec84a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 15/28] fix: memory backend server query returns last event
 which is not greater than last event id

---
 src_py/hat/event/backends/memory.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 8da077a..da39351 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -123,11 +123,9 @@ class MemoryBackend(common.Backend):
     def _query_server(self, params):
         events = sorted(_filter_server_id(self._events, params.server_id))
 
-        if params.last_event_id and events:
-            for i, event in enumerate(events):
-                if event.id > params.last_event_id:
-                    break
-            events = events[i:]
+        if params.last_event_id:
+            events = [event for event in events
+                      if event.id > params.last_event_id]
 
         if params.max_results is not None and len(events) > params.max_results:
             more_follows = True
-- 
2.43.0


From 487ce9a4f3185179ec0c98688a3bfb8b4e71c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 16/28] fix: memory backend timeseries query breaks natural
 order of events with same timestamp

---
 src_py/hat/event/backends/memory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index da39351..ce059b0 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -89,10 +89,10 @@ class MemoryBackend(common.Backend):
             events = _filter_source_t_to(events, params.source_t_to)
 
         if params.order_by == common.OrderBy.TIMESTAMP:
-            sort_key = lambda event: (event.timestamp, event)  # NOQA
+            sort_key = lambda event: event.timestamp  # NOQA
         elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
             events = _filter_source_timestamp(events)
-            sort_key = lambda event: (event.source_timestamp, event)  # NOQA
+            sort_key = lambda event: event.source_timestamp  # NOQA
         else:
             raise ValueError('invalid order by')
 
@@ -103,7 +103,10 @@ class MemoryBackend(common.Backend):
         else:
             raise ValueError('invalid order by')
 
-        events = sorted(events, key=sort_key, reverse=sort_reverse)
+        # stable sort keeps registration order of events with same timestamp
+        events = sorted(events, key=sort_key)
+        if sort_reverse:
+            events.reverse()
 
         if params.last_event_id and events:
             for i, event in enumerate(events):
-- 
2.43.0


From 8d34d07c17c8559a8ec21546a9e9e3de5a5c9b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:59 +0000
Subject: [PATCH 17/28] fix: lmdb backend json condition does not distinguish
 boolean from number values

---
 src_py/hat/event/backends/lmdb/conditions.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/backends/lmdb/conditions.py b/src_py/hat/event/backends/lmdb/conditions.py
index f1e3b77..47b9508 100644
--- a/src_py/hat/event/backends/lmdb/conditions.py
+++ b/src_py/hat/event/backends/lmdb/conditions.py
@@ -93,7 +93,18 @@ class _JsonCondition:
                     return False
 
         if 'data_value' in self._conf:
-            if self._conf['data_value'] != data:
+            if not _equals(self._conf['data_value'], data):
                 return False
 
         return True
+
+
+def _equals(a, b):
+    if isinstance(a, list) and isinstance(b, list):
+        return len(a) == len(b) and all(_equals(i, j) for i, j in zip(a, b))
+
+    if isinstance(a, dict) and isinstance(b, dict):
+        return (a.keys() == b.keys() and
+                all(_equals(a[key], b[key]) for key in a.keys()))
+
+    return json.equals(a, b)
-- 
2.43.0


From 7548d33c32f36acd5149c0d9cb5ba12fdfe599fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:20 +0000
Subject: [PATCH 18/28] fix: adminer client closes connection when response to
 cancelled request is received

---
 src_py/hat/event/adminer/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/adminer/client.py b/src_py/hat/event/adminer/client.py
index 1077b7e..b27225e 100644
--- a/src_py/hat/event/adminer/client.py
+++ b/src_py/hat/event/adminer/client.py
@@ -99,7 +99,7 @@ class Client(aio.Resource):
                 res_msg_type, future = self._conv_msg_type_futures.get(
                     msg.conv, (None, None))
                 if not future or future.done():
-                    return
+                    continue
 
                 if res_msg_type != msg_type:
                     raise Exception('invalid response message type')
-- 
2.43.0


From 7d8383ecbbe17de3519c98652f174980bee017ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 19/28] fix: lmdb manager query of event references fails

---
 src_py/hat/event/backends/lmdb/manager/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index f2e7764..b8300d2 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -57,7 +57,7 @@ def query(args):
                     _print_result(result)
 
             elif args.subaction == 'ref':
-                for result in _query_ref(dbs, txn):
+                for result in _query_ref(dbs, txn, args.server_id):
                     _print_result(result)
 
             elif args.subaction == 'latest':
@@ -144,7 +144,7 @@ def _query_ref(dbs, txn, server_id):
 
         for event_ref in event_refs:
             if isinstance(event_ref, common.LatestEventRef):
-                latest_type_key = latest_type_db_def.encoded_key(event_ref.key)
+                latest_type_key = latest_type_db_def.encode_key(event_ref.key)
                 latest_type_value = txn.get(latest_type_key, db=latest_type_db)
 
                 event_type = latest_type_db_def.decode_value(latest_type_value)
-- 
2.43.0


From 31f2715e1722e0e36f749b2b2b1e788d4d562e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 20/28] fix: lmdb manager query of latest events queries
 references

---
 src_py/hat/event/backends/lmdb/manager/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index b8300d2..a13cd8f 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -63,7 +63,7 @@ def query(args):
             elif args.subaction == 'latest':
                 event_types = ([tuple(i.split('/')) for i in args.event_types]
                                if args.event_types is not None else None)
-                for result in _query_ref(dbs, txn, event_types):
+                for result in _query_latest(dbs, txn, event_types):
                     _print_result(result)
 
             elif args.subaction == 'partition':
@@ -173,7 +173,7 @@ def _query_latest(dbs, txn, event_types):
         if not subscription.matches(event.type):
             continue
 
-        yield common.event_to_json(value)
+        yield common.event_to_json(event)
 
 
 def _query_partition(dbs, txn, partition_id):
-- 
2.43.0


From 638e1dda9dea440eafa9f619806bed5d6e98f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:38 +0000
Subject: [PATCH 21/28] fix: manager query of server events fails

---
 src_py/hat/event/manager/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 9be0e81..95e7fcf 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -180,7 +180,7 @@ def main():
                 last_event_id=args.last_event_id)
 
         elif args.query_type == 'server':
-            params = common.QueryTimeseriesParams(
+            params = common.QueryServerParams(
                 server_id=args.server_id,
                 persisted=args.persisted,
                 max_results=args.max_results,
-- 
2.43.0


From 1e809339c3df62dcb21560975efcbdc7fc34001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:38 +0000
Subject: [PATCH 22/28] fix: manager does not parse event id

---
 src_py/hat/event/manager/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 95e7fcf..b8362a6 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -305,7 +305,10 @@ def _parse_event_type(event_type):
 
 
 def _parse_event_id(event_id):
-    return common.EventId(event_id.split(','))
+    server_id, session_id, instance_id = event_id.split(',')
+    return common.EventId(server=int(server_id),
+                          session=int(session_id),
+                          instance=int(instance_id))
 
 
 def _parse_order(order):
-- 
2.43.0


From c86820b7976e93b9f341c25c6ba3f646ce9c3f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:52 +0000
Subject: [PATCH 23/28] fix: manager does not accept any value of order and
 order by arguments

---
 src_py/hat/event/manager/main.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index b8362a6..e99d5dd 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -84,13 +84,12 @@ def create_argument_parser() -> argparse.ArgumentParser:
         default=None,
         help="to source timestamp")
     query_timeseries_parser.add_argument(
-        '--order', type=_parse_order, choices=[i.name for i in common.Order],
-        default=common.Order.DESCENDING,
+        '--order', choices=[i.name for i in common.Order],
+        default=common.Order.DESCENDING.name,
         help="order (default 'DESCENDING')")
     query_timeseries_parser.add_argument(
-        '--order-by', type=_parse_order_by,
-        choices=[i.name for i in common.OrderBy],
-        default=common.OrderBy.TIMESTAMP,
+        '--order-by', choices=[i.name for i in common.OrderBy],
+        default=common.OrderBy.TIMESTAMP.name,
         help="order (default 'TIMESTAMP')")
     query_timeseries_parser.add_argument(
         '--max-results', metavar='N', type=int, default=None,
@@ -174,8 +173,8 @@ def main():
                 t_to=args.t_to,
                 source_t_from=args.source_t_from,
                 source_t_to=args.source_t_to,
-                order=args.order,
-                order_by=args.order_by,
+                order=_parse_order(args.order),
+                order_by=_parse_order_by(args.order_by),
                 max_results=args.max_results,
                 last_event_id=args.last_event_id)
 
-- 
2.43.0


From ac2da716fd593509422687b3b6d3943d12afe541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:52 +0000
Subject: [PATCH 24/28] fix: manager does not wait for response of event
 registration

---
 src_py/hat/event/manager/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index e99d5dd..b17a93f 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -230,7 +230,8 @@ async def register(addr: tcp.Address,
                                    client_token=client_token)
 
     try:
-        result = await client.register([register_event])
+        result = await client.register([register_event],
+                                       with_response=True)
 
         if result is None:
             return 1
-- 
2.43.0


From 5937f62a4e762098fce99f2a7eab821db0a66ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:41 +0000
Subject: [PATCH 25/28] fix: C subscription reports disjoint subscriptions as
 overlapping

---
 src_c/py/subscription/_csubscription.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index d9605e8..31b967e 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -214,11 +214,8 @@ static bool isdisjoint(node_t *first, node_t *second) {
     if (second->has_star)
         return !first->is_leaf && !first->children;
 
-    if (!first->children)
-        return !first->is_leaf || !second->children;
-
-    if (!second->children)
-        return !second->is_leaf || !first->children;
+    if (!first->children || !second->children)
+        return true;
 
     node_t *first_child;
     node_t *second_child;
-- 
2.43.0


From 82df7fa444b5e0e15899b573d8806c5e6d4dc6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:41 +0000
Subject: [PATCH 26/28] fix: C subscription does not release last '*' subtype

---
 src_c/py/subscription/_csubscription.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index 31b967e..46cc44c 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -59,6 +59,7 @@ static int add_query_type(node_t *node, PyObject *query_type_iter) {
             PyErr_SetString(PyExc_ValueError, "invalid query event type");
             return 1;
         }
+        Py_DECREF(subtype);
 
         node->is_leaf = true;
         node->has_star = true;
-- 
2.43.0


From e91a70eea2d11504d84720b2c523b93d14fbc952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:41 +0000
Subject: [PATCH 27/28] fix: C subscription takes subtype '*' followed by zero
 character as '*'

---
 src_c/py/subscription/_csubscription.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index 46cc44c..c455460 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -51,7 +51,7 @@ static int add_query_type(node_t *node, PyObject *query_type_iter) {
         return 1;
     }
 
-    if (strcmp(key, "*") == 0) {
+    if (key_size == 1 && key[0] == '*') {
         PyObject *next = PyIter_Next(query_type_iter);
         if (next) {
             Py_DECREF(next);
-- 
2.43.0


From c81e9dcd1e37b0317e86ddfd5b1b16fa93649a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:38 +0000
Subject: [PATCH 28/28] fix: C collection does not set exception when
 allocation fails

---
 src_c/py/collection/_ctree.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src_c/py/collection/_ctree.c b/src_c/py/collection/_ctree.c
index b70bf48..350a2b8 100644
--- a/src_c/py/collection/_ctree.c
+++ b/src_c/py/collection/_ctree.c
@@ -66,8 +66,10 @@ static void free_tree_node(tree_node_t *node) {
 
 static tree_node_t *create_tree_node() {
     tree_node_t *result = PyMem_Malloc(sizeof(tree_node_t));
-    if (!result)
+    if (!result) {
+        PyErr_NoMemory();
         return NULL;
+    }
 
     *result = (tree_node_t){.values = {.head = NULL},
                             .asterisk_values = {.head = NULL},
@@ -89,12 +91,16 @@ static PyObject *add_value_to_list(obj_list_t *list, PyObject *value) {
     ref_t *ref = NULL;
 
     new_obj_node = PyMem_Malloc(sizeof(obj_node_t));
-    if (!new_obj_node)
+    if (!new_obj_node) {
+        PyErr_NoMemory();
         goto error;
+    }
 
     ref = PyMem_Malloc(sizeof(ref_t));
-    if (!ref)
+    if (!ref) {
+        PyErr_NoMemory();
         goto error;
+    }
 
     PyObject *ref_obj = PyCapsule_New(ref, NULL, ref_obj_destructor);
     if (!ref_obj)
@@ -152,7 +158,7 @@ static PyObject *add_value_to_tree(tree_node_t *node, PyObject *query_type,
     if (!node->children) {
         node->children = hat_ht_create(&hat_py_allocator);
         if (!node->children)
-            return NULL;
+            return PyErr_NoMemory();
     }
 
     tree_node_t *child = hat_ht_get(node->children, (void *)query_type_head_str,
@@ -165,7 +171,7 @@ static PyObject *add_value_to_tree(tree_node_t *node, PyObject *query_type,
         if (hat_ht_set(node->children, (void *)query_type_head_str,
                        query_type_head_len, child)) {
             free_tree_node(child);
-            return NULL;
+            return PyErr_NoMemory();
         }
     }
 
-- 
2.43.0

