From 0cb5841b5892d7dda7de7ed6738bfab2f0eb2a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 01/49] fix: heartbeat and offset commit v1 parts could not be
 built or encoded

The heartbeat parts were flat tuples instead of (name, class) pairs and the
v1 commit topic declared its array of partitions as a single partition.
---
 kiel/protocol/heartbeat.py     | 8 ++++----
 kiel/protocol/offset_commit.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kiel/protocol/heartbeat.py b/kiel/protocol/heartbeat.py
index aa8d518..edfc193 100644
--- a/kiel/protocol/heartbeat.py
+++ b/kiel/protocol/heartbeat.py
@@ -24,9 +24,9 @@ class HeartbeatRequest(Request):
     api = "heartbeat"
 
     parts = (
-        "group_id", String,
-        "generation_id", Int32,
-        "member_id", String,
+        ("group_id", String),
+        ("generation_id", Int32),
+        ("member_id", String),
     )
 
 
@@ -40,5 +40,5 @@ class HeartbeatResponse(Response):
     api = "heartbeat"
 
     parts = (
-        "error_code", Int16
+        ("error_code", Int16),
     )
diff --git a/kiel/protocol/offset_commit.py b/kiel/protocol/offset_commit.py
index e611f15..5f7ff8a 100644
--- a/kiel/protocol/offset_commit.py
+++ b/kiel/protocol/offset_commit.py
@@ -78,7 +78,7 @@ class TopicV1Request(Part):
     """
     parts = (
         ("name", String),
-        ("partitions", PartitionV1Request),
+        ("partitions", Array.of(PartitionV1Request)),
     )
 
 
-- 
2.43.0


From 7aae890c7e96464da086f7354f92b7f6d505a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 02/49] fix: snappy.decompress dropped a final block of less
 than 12 bytes

The loop compared the offset with the length less the header, so a last block
whose compressed form ended within 16 bytes of the end was never read.
---
 kiel/compression/snappy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/compression/snappy.py b/kiel/compression/snappy.py
index e3c3ef0..553e1df 100644
--- a/kiel/compression/snappy.py
+++ b/kiel/compression/snappy.py
@@ -65,11 +65,11 @@ def decompress(data):
         raise RuntimeError("Snappy compression unavailable.")
 
     buff_offset = len(raw_header)  # skip the header
-    length = len(data) - len(raw_header)
+    length = len(data)
 
     output = BytesIO()
 
-    while buff_offset <= length:
+    while buff_offset < length:
         block_size = struct.unpack_from("!i", data, buff_offset)[0]
         buff_offset += struct.calcsize("!i")
 
-- 
2.43.0


From 5c8c2ab5a2a420e078345b9c1d7a67399cd0bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 03/49] fix: a message whose CRC32 is exactly 2**31 could not
 be sent

---
 kiel/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 9becef2..f13162b 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -174,7 +174,7 @@ class Message(Part):
         payload = struct.pack("!" + fmt, *data)
 
         crc = zlib.crc32(payload)
-        if crc > (2**31):
+        if crc >= (2**31):
             crc -= 2**32
 
         fmt = "i%ds" % len(payload)
-- 
2.43.0


From 8029cf7ba51fe6c8d0dbe08c8e179a582a677e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 04/49] fix: a cut off message swallowed what follows its
 message set

A partial trailing message was only noticed when the whole buffer ended, so
with another partition behind it the parser read on into that partition's
bytes and lost its place.  Messages are now bounded by their set.
---
 kiel/protocol/messages.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index f13162b..6c98a70 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -126,15 +126,20 @@ class MessageSet(object):
         end = offset + size
 
         messages = []
-        while not offset == end:
+        while offset < end:
             try:
                 message_offset, offset = Int64.parse(buff, offset)
-                _, offset = Int32.parse(buff, offset)  # message size
-                message, offset = Message.parse(buff, offset)
+                message_size, offset = Int32.parse(buff, offset)
             except struct.error:
                 # ending messages can sometimes be cut off
                 break
 
+            if max(offset, offset + message_size) > end:
+                # cut off as well, what follows is not part of this set
+                break
+
+            message, offset = Message.parse(buff, offset)
+
             if message.attributes:  # compression involved, set is nested
                 set_size = len(message.value)
                 nested_set, _ = cls.parse(message.value, 0, size=set_size)
@@ -142,7 +147,7 @@ class MessageSet(object):
             else:
                 messages.append((message_offset, message))
 
-        return cls(messages), offset
+        return cls(messages), end
 
 
 class Message(Part):
-- 
2.43.0


From 945ab69d24e36249bae88056d236257e0d1a48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 05/49] fix: requests outstanding on a lost connection were
 never settled

A closed stream or a local close() left pending futures unresolved forever,
and abort() used Future.set_exc_info(), which tornado 6 no longer has (so the
abort itself died half way).  All pending futures are now failed.
---
 kiel/connection.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/kiel/connection.py b/kiel/connection.py
index b0ec3d1..2878e25 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -77,22 +77,38 @@ class Connection(object):
         """
         Sets the ``closing`` attribute to ``True`` and calls ``close()`` on the
         underlying stream.
+
+        Any pending futures are failed with a ``BrokerConnectionError``, no
+        response can reach them anymore.
         """
         self.closing = True
         self.stream.close()
+        self.fail_pending(BrokerConnectionError(self.host, self.port))
+
+    def fail_pending(self, error):
+        """
+        Puts all pending futures into an error state with the given exception.
+        """
+        self.api_correlation.clear()
+        while self.pending:
+            _, pending = self.pending.popitem()
+            if not pending.done():
+                pending.set_exception(error)
 
     @contextlib.contextmanager
     def socket_error_handling(self, failure_message):
         """
         helper contextmanager for handling errors during IOStream operations.
 
-        Handles the StreamClosedError case by setting the ``closing`` flag,
-        logs any unexpected exceptions with a failure message.
+        Handles the StreamClosedError case by setting the ``closing`` flag and
+        failing pending futures, logs any unexpected exceptions with a failure
+        message.
         """
         try:
             yield
         except iostream.StreamClosedError:
             self.closing = True
+            self.fail_pending(BrokerConnectionError(self.host, self.port))
         except Exception:
             if not self.closing:
                 log.exception(failure_message)
@@ -155,25 +171,19 @@ class Connection(object):
         Aborts a connection and puts all pending futures into an error state.
 
         If ``sys.exc_info()`` is set (i.e. this is being called in an exception
-        handler) then pending futures will have that exc info set.  Otherwise
+        handler) then pending futures will have that exception set.  Otherwise
         a ``BrokerConnectionError`` is used.
         """
+        self.fail_pending(
+            sys.exc_info()[1] or BrokerConnectionError(self.host, self.port)
+        )
+
         if self.closing:
             return
 
         log.warn("Aborting connection to %s:%s", self.host, self.port)
 
         self.close()
-        self.api_correlation.clear()
-        while self.pending:
-            _, pending = self.pending.popitem()
-            exc_info = sys.exc_info()
-            if any(exc_info):
-                pending.set_exc_info(sys.exc_info())
-            else:
-                pending.set_exception(
-                    BrokerConnectionError(self.host, self.port)
-                )
 
     @gen.coroutine
     def read_message(self):
-- 
2.43.0


From 8be1a0f65746e42f365fd266c6274cfe7f47e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 06/49] fix: correlation ids outgrew the 32-bit field they are
 sent in

---
 kiel/protocol/request.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/protocol/request.py b/kiel/protocol/request.py
index 7980488..d83216c 100644
--- a/kiel/protocol/request.py
+++ b/kiel/protocol/request.py
@@ -25,11 +25,12 @@ def generate_correlation_id():
     Creates a new ``correlation_id`` for requests.
 
     Increments the ``last_id`` value so each generated ID is unique for
-    this machine and process.
+    this machine and process.  Wraps around once the range of the signed 32-bit
+    integer used on the wire is exhausted.
     """
     global last_id
 
-    last_id += 1
+    last_id = (last_id + 1) & 0x7fffffff
 
     return last_id
 
-- 
2.43.0


From 42957aec2199e4670bdde06437149b5c9c1ccaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 07/49] fix: a bootstrap host failing after it accepted kept
 the next ones untried

Only errors of connect() moved start() on to the next host, one dying before
or while answering the metadata request made the whole start fail.
---
 kiel/cluster.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index e399be3..89e2e5a 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -92,6 +92,7 @@ class Cluster(object):
 
             try:
                 yield conn.connect()
+                response = yield conn.send(metadata.MetadataRequest(topics=[]))
             except (iostream.StreamClosedError, BrokerConnectionError):
                 log.warn("Could not connect to bootstrap %s:%s", host, port)
                 continue
@@ -99,8 +100,6 @@ class Cluster(object):
                 log.exception("Error connecting to bootstrap host '%s'", host)
                 continue
 
-            response = yield conn.send(metadata.MetadataRequest(topics=[]))
-
             conn.close()
             break
 
-- 
2.43.0


From 55514288b34cc86bca0b1fd9e739b673195cfe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 08/49] fix: healing one topic made the cluster forget all the
 others

While some topic had no leader its metadata alone was asked for again, and
processing that response replaced the topics and leaders known so far.
---
 kiel/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 89e2e5a..eb5ef7b 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -138,7 +138,9 @@ class Cluster(object):
         missing_topics = self.process_topics(response.topics)
 
         while missing_conns or missing_topics:
-            response = yield self.get_metadata(topics=list(missing_topics))
+            # everything is asked for again, processing a response replaces
+            # what is known about all topics
+            response = yield self.get_metadata()
             missing_conns = yield self.process_brokers(response.brokers)
             missing_topics = self.process_topics(response.topics)
 
-- 
2.43.0


From db4fc1fde5e3929cc5e0d3d5753c6bf2b2a79339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 09/49] fix: an undecodable metadata response kept other
 brokers from being asked

---
 kiel/cluster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index eb5ef7b..829fb4c 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -158,7 +158,7 @@ class Cluster(object):
             topics = []
 
         response = None
-        for conn in self.conns.values():
+        for conn in list(self.conns.values()):
             try:
                 response = yield conn.send(
                     metadata.MetadataRequest(topics=topics)
@@ -166,6 +166,9 @@ class Cluster(object):
                 break
             except (iostream.StreamClosedError, BrokerConnectionError):
                 continue
+            except Exception:
+                log.exception("Error getting metadata.")
+                continue
 
         if not response:
             raise NoBrokersError
-- 
2.43.0


From ab4fb36e948f0b0eeed01997fa6901969b8457c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 10/49] fix: overlapping heals broke each other and could
 outlive stop()

Two heal() calls in progress altered the connections the other one was
iterating over or about to abort, both connected to the same new brokers and
leaked one of the connections, and the older metadata could win.  One in
progress during stop() left new connections open.
---
 kiel/cluster.py | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 829fb4c..37c0272 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -1,7 +1,7 @@
 import collections
 import logging
 
-from tornado import gen, iostream
+from tornado import concurrent, gen, iostream
 
 from kiel.protocol import metadata, errors
 from kiel.constants import DEFAULT_KAFKA_PORT
@@ -30,6 +30,10 @@ class Cluster(object):
         self.topics = collections.defaultdict(list)
         self.leaders = collections.defaultdict(dict)
 
+        # future of the heal in progress, if any
+        self.healing = None
+        self.stopped = False
+
     def __getitem__(self, broker_id):
         """
         Proxies to the ``__getitem__`` of the underlying conns dictionary.
@@ -78,6 +82,8 @@ class Cluster(object):
         request.  Once a metadata request is successful the `heal()` method
         is called.
         """
+        self.stopped = False
+
         response = None
 
         for host in self.bootstrap_hosts:
@@ -121,6 +127,24 @@ class Cluster(object):
         cluster.  This is followed by repeated calls to `process_brokers()` and
         `process_topics()` until both signal that there are no missing brokers
         or topics.
+
+        Overlapping calls are carried out one after another, since each of them
+        alters the same connections and topics over several steps.
+        """
+        while self.healing:
+            yield self.healing
+
+        healing = self.healing = concurrent.Future()
+        try:
+            yield self.refresh(response)
+        finally:
+            self.healing = None
+            healing.set_result(None)
+
+    @gen.coroutine
+    def refresh(self, response=None):
+        """
+        Carries out the steps of a single `heal()` call.
         """
         if not response:
             response = yield self.get_metadata()
@@ -193,9 +217,14 @@ class Cluster(object):
             if broker.broker_id in self.conns:
                 continue
 
+            if self.stopped:
+                raise NoBrokersError
+
             try:
                 conn = Connection(broker.host, broker.port)
                 yield conn.connect()
+                if self.stopped:
+                    conn.close()
                 self.conns[broker.broker_id] = conn
             except iostream.StreamClosedError:
                 log.warn(
@@ -269,6 +298,10 @@ class Cluster(object):
     def stop(self):
         """
         Simple method that calls ``close()`` on each connection.
+
+        A `heal()` still in progress establishes no further connections.
         """
+        self.stopped = True
+
         for conn in self.conns.values():
             conn.close()
-- 
2.43.0


From 7bd19ad38ebf03cd2678f5c1f98e8f19a52adab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 11/49] fix: send() lost the results of healthy brokers when
 another one was gone

A request for a broker no longer in the cluster raised KeyError before or
after others were sent, and a failing heal discarded results whose offsets had
already been advanced.
---
 kiel/clients/client.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index aeff3c1..e68c3bc 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -73,10 +73,15 @@ class Client(object):
         Responses are handled in the order they come in, but this method does
         not yield a value until all responses are handled.
         """
-        iterator = gen.WaitIterator(**{
-            str(broker_id): self.cluster[broker_id].send(request)
-            for broker_id, request in six.iteritems(request_by_broker)
-        })
+        pending = {}
+        for broker_id, request in six.iteritems(request_by_broker):
+            if broker_id not in self.cluster:
+                log.info("Broker %s is not in the cluster.", broker_id)
+                self.heal_cluster = True
+                continue
+            pending[str(broker_id)] = self.cluster[broker_id].send(request)
+
+        iterator = gen.WaitIterator(**pending)
 
         results = {}
         while not iterator.done():
@@ -102,7 +107,14 @@ class Client(object):
             results[int(iterator.current_index)] = result
 
         if self.heal_cluster:
-            yield self.cluster.heal()
             self.heal_cluster = False
+            try:
+                yield self.cluster.heal()
+            except Exception:
+                self.heal_cluster = True
+                if not results:
+                    raise
+                # what was received is not to be lost, healing has to wait
+                log.exception("Could not heal the cluster.")
 
         raise gen.Return(results)
-- 
2.43.0


From 29f1e4c2f9111ac24542099e846ef6d7925653ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 12/49] fix: an error code missing from ERROR_CODES raised
 KeyError in handlers

The lookup was only meant for the log message, but it made the whole operation
fail and dropped what the other partitions had returned.
---
 kiel/clients/consumer.py | 2 +-
 kiel/clients/grouped.py  | 5 +++--
 kiel/clients/producer.py | 2 +-
 kiel/clients/single.py   | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 98863ba..4739c2f 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -169,7 +169,7 @@ class BaseConsumer(Client):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code), topic, partition.partition_id
                 )
 
         return messages
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index d996804..f8b603b 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -203,7 +203,8 @@ class GroupedConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    constants.ERROR_CODES[code], topic, partition.partition_id
+                    constants.ERROR_CODES.get(code, code), topic,
+                    partition.partition_id
                 )
                 raise exc.NoOffsetsError
 
@@ -276,7 +277,7 @@ class GroupedConsumer(BaseConsumer):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        constants.ERROR_CODES[code],
+                        constants.ERROR_CODES.get(code, code),
                         topic, partition.partition_id
                     )
 
diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index a70a4b3..03e8dc6 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -217,7 +217,7 @@ class Producer(Client):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        ERROR_CODES[code], topic.name, partition.partition_id
+                        ERROR_CODES.get(code, code), topic.name, partition.partition_id
                     )
 
         self.sent.pop(response.correlation_id)
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 3f749e6..7a3f018 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -115,7 +115,7 @@ class SingleConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code), topic, partition.partition_id
                 )
                 raise NoOffsetsError
 
-- 
2.43.0


From 77a0876b360f76511f844455ed4eaa32b23acf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 13/49] fix: consume() raised KeyError for a partition without
 a known leader

---
 kiel/clients/consumer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 4739c2f..f9fc8f9 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -105,7 +105,12 @@ class BaseConsumer(Client):
 
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
+            try:
+                leader = self.cluster.get_leader(topic, partition_id)
+            except KeyError:
+                log.warn("No leader known for %s|%s", topic, partition_id)
+                self.heal_cluster = True
+                continue
             ordered[leader].append(partition_id)
 
         requests = {}
-- 
2.43.0


From 0a822e7745d3b2665dca03010a07d8a981a86561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 14/49] fix: consume() dropped messages like 0, false, "", {}
 and []

Only None values were meant to be skipped, the offsets of the others had been
advanced so that they were lost.
---
 kiel/clients/consumer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index f9fc8f9..aa6bd57 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -136,8 +136,7 @@ class BaseConsumer(Client):
 #        log.debug(results)
         raise gen.Return([
             msg for messageset in results.values() for msg in messageset
-            if msg # Skip empty messages
-            # BUG: troubleshoot why there are None values
+            if msg is not None  # null values carry no message
         ])
 
     def handle_fetch_response(self, response):
-- 
2.43.0


From 3f28ce25ca1c0b47d1a2c5b240665b76ae6236c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 15/49] fix: connections to brokers no longer reported stayed
 in the cluster

---
 kiel/cluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 37c0272..77430da 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -243,6 +243,7 @@ class Cluster(object):
 
         for broker_id in to_drop:
             self.conns[broker_id].abort()
+            self.conns.pop(broker_id, None)
 
         raise gen.Return(missing)
 
-- 
2.43.0


From 6604ff6290f2127f62d73bd1f6bef42e9a30d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 16/49] fix: a connection lost while a heal was retrying stayed
 in the cluster

---
 kiel/cluster.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 77430da..c4bb9f1 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -149,15 +149,7 @@ class Cluster(object):
         if not response:
             response = yield self.get_metadata()
 
-        broker_ids = list(self.conns.keys())
-        for broker_id in broker_ids:
-            if self.conns[broker_id].closing:
-                log.debug(
-                    "Removing %s:%s from cluster",
-                    self.conns[broker_id].host, self.conns[broker_id].port
-                )
-                self.conns.pop(broker_id)
-
+        self.drop_closed_conns()
         missing_conns = yield self.process_brokers(response.brokers)
         missing_topics = self.process_topics(response.topics)
 
@@ -165,9 +157,23 @@ class Cluster(object):
             # everything is asked for again, processing a response replaces
             # what is known about all topics
             response = yield self.get_metadata()
+            self.drop_closed_conns()
             missing_conns = yield self.process_brokers(response.brokers)
             missing_topics = self.process_topics(response.topics)
 
+    def drop_closed_conns(self):
+        """
+        Removes any closing/aborted connections from the cluster.
+        """
+        broker_ids = list(self.conns.keys())
+        for broker_id in broker_ids:
+            if self.conns[broker_id].closing:
+                log.debug(
+                    "Removing %s:%s from cluster",
+                    self.conns[broker_id].host, self.conns[broker_id].port
+                )
+                self.conns.pop(broker_id)
+
     @gen.coroutine
     def get_metadata(self, topics=None):
         """
-- 
2.43.0


From 5bba948dd32f16ded9ab826f5f227afb9eb3e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 17/49] fix: messages sent over a connection that was lost were
 dropped

---
 kiel/clients/producer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 03e8dc6..c62eabb 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -187,7 +187,15 @@ class Producer(Client):
         for topic, msgs in six.iteritems(to_retry):
             self.queue_retries(topic, msgs)
 
-        yield self.send(requests)
+        try:
+            yield self.send(requests)
+        finally:
+            # whatever is left did not get a response
+            for request in six.itervalues(requests):
+                unanswered = self.sent.pop(request.correlation_id, {})
+                for topic, partitions in six.iteritems(unanswered):
+                    for msgs in six.itervalues(partitions):
+                        self.queue_retries(topic, msgs)
 
     def handle_produce_response(self, response):
         """
-- 
2.43.0


From 7ef84fe7a3df26531ffcbbb2c75277d9970cf3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 18/49] fix: flushing messages for a topic that vanished lost
 pending messages

---
 kiel/clients/producer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index c62eabb..e476b55 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -150,10 +150,13 @@ class Producer(Client):
         to_retry = collections.defaultdict(list)
 
         for topic, msgs in drain(self.unsent):
+            partition_ids = self.cluster.topics.get(topic)
+            if not partition_ids:
+                log.warn("No partitions known for topic %s", topic)
+                to_retry[topic].extend(msgs)
+                continue
             for msg in msgs:
-                partition = self.partitioner(
-                    msg.key, self.cluster.topics[topic]
-                )
+                partition = self.partitioner(msg.key, partition_ids)
                 leader = self.cluster.get_leader(topic, partition)
                 if leader not in self.cluster:
                     to_retry[topic].append(msg)
-- 
2.43.0


From 3a10643f39ad57011df0a16b64b5a957ca5b1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 19/49] fix: close() left connections open when winding down
 failed

---
 kiel/clients/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index e68c3bc..6420be7 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -40,9 +40,10 @@ class Client(object):
         """
         self.closing = True
 
-        yield self.wind_down()
-
-        self.cluster.stop()
+        try:
+            yield self.wind_down()
+        finally:
+            self.cluster.stop()
 
     @gen.coroutine
     def wind_down(self):
-- 
2.43.0


From 4b1586f9c6fb07b5f0bac987b7b88bfa5c92d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 20/49] fix: closing a producer dropped messages that had to be
 retried

---
 kiel/clients/producer.py | 41 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index e476b55..e5e0085 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -4,7 +4,7 @@ import json
 import random
 
 import six
-from tornado import gen
+from tornado import concurrent, gen
 
 from kiel.protocol import produce as produce_api, messages, errors
 from kiel.constants import SUPPORTED_COMPRESSION, ERROR_CODES
@@ -15,6 +15,9 @@ from .client import Client
 
 log = logging.getLogger(__name__)
 
+# seconds to wait before flushing again when closing down
+RETRY_INTERVAL = 0.1
+
 
 class Producer(Client):
     """
@@ -67,6 +70,8 @@ class Producer(Client):
         self.sent = collections.defaultdict(
             lambda: collections.defaultdict(dict)
         )
+        # futures of the flushes in progress
+        self.flushes = set()
 
     @property
     def unsent_count(self):
@@ -98,6 +103,10 @@ class Producer(Client):
             log.debug("Producing to unknown topic %s, loading metadata", topic)
             yield self.cluster.heal()
 
+        if self.closing:
+            log.warn("Producing to %s topic while closing.", topic)
+            return
+
         if topic not in self.cluster.topics:
             log.error("Unknown topic %s and not auto-created", topic)
             return
@@ -140,6 +149,19 @@ class Producer(Client):
         if not self.unsent:
             return
 
+        flushing = concurrent.Future()
+        self.flushes.add(flushing)
+        try:
+            yield self.send_unsent()
+        finally:
+            self.flushes.discard(flushing)
+            flushing.set_result(None)
+
+    @gen.coroutine
+    def send_unsent(self):
+        """
+        Carries out the steps of a single `flush()` call.
+        """
         # leader -> topic -> partition -> message list
         ordered = collections.defaultdict(
             lambda: collections.defaultdict(
@@ -237,5 +259,20 @@ class Producer(Client):
     def wind_down(self):
         """
         Flushes the unsent messages so that none are lost when closing down.
+
+        Messages that have to be retried are flushed again, only those of
+        topics the cluster does not know (anymore) are given up on.
         """
-        yield self.flush()
+        while self.unsent or self.flushes:
+            if self.flushes:
+                yield list(self.flushes)
+                continue
+
+            yield self.flush()
+
+            if not self.unsent:
+                continue
+            if not any(topic in self.cluster.topics for topic in self.unsent):
+                break
+
+            yield gen.sleep(RETRY_INTERVAL)
-- 
2.43.0


From 3bb80cfc84da0140d5b9f1b4c01f7bdc15d4fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 21/49] fix: topics unknown at first were consumed from offset
 0

---
 kiel/clients/consumer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index aa6bd57..513da0c 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -74,12 +74,12 @@ class BaseConsumer(Client):
         """
         Fetches from a given topics returns a list of deserialized values.
 
-        If the given topic is not known to have synced offsets, a call to
-        `determine_offsets()` is made first.
-
         If a topic is unknown entirely the cluster's ``heal()`` method is
         called and the check retried.
 
+        If the given topic is not known to have synced offsets, a call to
+        `determine_offsets()` is made before fetching.
+
         Since error codes and deserialization are taken care of by
         `handle_fetch_response` this method merely yields to wait on the
         deserialized results and returns a flattened list.
@@ -87,14 +87,6 @@ class BaseConsumer(Client):
         if self.closing:
             return
 
-        if topic not in self.synced_offsets:
-            try:
-                yield self.determine_offsets(topic, start)
-            except NoOffsetsError:
-                log.error("Unable to determine offsets for topic %s", topic)
-                raise gen.Return([])
-            self.synced_offsets.add(topic)
-
         if topic not in self.allocation or not self.allocation[topic]:
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
             yield self.cluster.heal()
@@ -103,6 +95,14 @@ class BaseConsumer(Client):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
+        if topic not in self.synced_offsets:
+            try:
+                yield self.determine_offsets(topic, start)
+            except NoOffsetsError:
+                log.error("Unable to determine offsets for topic %s", topic)
+                raise gen.Return([])
+            self.synced_offsets.add(topic)
+
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
             try:
-- 
2.43.0


From 49b64925573abae4990a3b16d964ea7164414fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 22/49] fix: partitions whose offset lookup failed were
 consumed from offset 0

---
 kiel/clients/consumer.py |  2 ++
 kiel/clients/single.py   | 47 +++++++++++++++++++++++++---------------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 513da0c..9a82148 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -101,6 +101,8 @@ class BaseConsumer(Client):
             except NoOffsetsError:
                 log.error("Unable to determine offsets for topic %s", topic)
                 raise gen.Return([])
+            if self.closing:
+                return
             self.synced_offsets.add(topic)
 
         ordered = collections.defaultdict(list)
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 7a3f018..fb5017e 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -52,7 +52,7 @@ class SingleConsumer(BaseConsumer):
         if need be and used for the "time" parameter for the offset requests.
 
         An offset request is sent to each of the leader brokers for the given
-        topic.
+        topic, repeatedly until each of them came back with offsets.
         """
         log.info("Getting offsets for topic %s with start %s", topic, start)
 
@@ -69,22 +69,29 @@ class SingleConsumer(BaseConsumer):
                 ]
             )
 
-        requests = collections.defaultdict(request_factory)
-
-        for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
-            requests[leader].topics[0].partitions.append(
-                offset.PartitionRequest(
-                    partition_id=partition_id,
-                    time=offset_time,
-                    max_offsets=1
+        determined = False
+        while not determined and not self.closing:
+            requests = collections.defaultdict(request_factory)
+
+            for partition_id in self.allocation.get(topic, []):
+                leader = self.cluster.get_leader(topic, partition_id)
+                requests[leader].topics[0].partitions.append(
+                    offset.PartitionRequest(
+                        partition_id=partition_id,
+                        time=offset_time,
+                        max_offsets=1
+                    )
                 )
-            )
 
-        log.debug(
-            "Sending offset request to %d leaders.", len(requests.keys())
-        )
-        yield self.send(requests)
+            if not requests:
+                raise NoOffsetsError
+
+            log.debug(
+                "Sending offset request to %d leaders.", len(requests.keys())
+            )
+            results = yield self.send(requests)
+            # leaders whose connection got lost have no result
+            determined = all(results.get(leader) for leader in requests)
 
         raise gen.Return(True)
 
@@ -97,8 +104,12 @@ class SingleConsumer(BaseConsumer):
 
         A retriable error code response will cause the cluster's ``heal()``
         method to be called at the end of processing and the offending topic's
-        offsets to be re-evaluated on the next `consume()` call.
+        offsets to be re-evaluated.
+
+        Returns ``True`` if the offsets were determined, ``False`` if not.
         """
+        determined = True
+
         # we only fetch one topic so we can assume only one comes back
         topic = response.topics[0].name
         for partition in response.topics[0].partitions:
@@ -111,7 +122,7 @@ class SingleConsumer(BaseConsumer):
 #                log.debug("%d", self.offsets[topic][partition.partition_id])
             elif code in errors.retriable:
                 self.heal_cluster = True
-                self.synced_offsets.discard(topic)
+                determined = False
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
@@ -119,6 +130,8 @@ class SingleConsumer(BaseConsumer):
                 )
                 raise NoOffsetsError
 
+        return determined
+
     @gen.coroutine
     def wind_down(self):
         """
-- 
2.43.0


From cb1b9e4afdf7eaba571161fa45e77e42190dce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 23/49] fix: datetime and timedelta starts could not be encoded

---
 kiel/clients/single.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index fb5017e..d0501d6 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -148,10 +148,10 @@ def start_to_timestamp(start):
     or one of `SingleConsumer.BEGINNING` or `SingleConsumer.END`.
     """
     if isinstance(start, datetime.datetime):
-        offset_time = (start - EPOCH).total_seconds()
+        offset_time = int((start - EPOCH).total_seconds())
     elif isinstance(start, datetime.timedelta):
         now = calendar.timegm(time.gmtime())
-        offset_time = now - start.total_seconds()
+        offset_time = int(now - start.total_seconds())
     else:
         offset_time = start
 
-- 
2.43.0


From 9e7ea737f351cd86ef59300fca9547d6ab4fc716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 24/49] fix: a partition without an offset at the given start
 raised IndexError

---
 kiel/clients/single.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index d0501d6..8544e48 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -115,6 +115,12 @@ class SingleConsumer(BaseConsumer):
         for partition in response.topics[0].partitions:
             code = partition.error_code
             if code == errors.no_error:
+                if not partition.offsets:
+                    log.error(
+                        "No offset at the given start for topic %s partition %s",
+                        topic, partition.partition_id
+                    )
+                    raise NoOffsetsError
                 offset = partition.offsets[0]
 #                log.debug("offset %d ==> ", self.offsets[topic][partition.partition_id])
                 if offset>=0:
-- 
2.43.0


From 2405b7cbc091ce69e014e1805d5f000b676be6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 25/49] fix: trailing messages that cannot be deserialized were
 fetched forever

---
 kiel/clients/consumer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 9a82148..f1ebf8c 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -188,11 +188,15 @@ class BaseConsumer(Client):
         If an error is encountered when deserializing it is logged and the
         offending message is skipped.
 
-        After each successful deserialization the ``self.offsets`` entry for
-        the particular topic/partition pair is incremented.
+        With each message the ``self.offsets`` entry for the particular
+        topic/partition pair is moved past it, whether or not it could be
+        deserialized.
         """
         messages = []
         for offset, msg in partition.message_set.messages:
+            if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
+                self.offsets[topic_name][partition.partition_id] = offset + 1
+
             try:
                 value = self.deserializer(msg.value)
             except Exception:
@@ -203,9 +207,5 @@ class BaseConsumer(Client):
                 continue
 
             messages.append(value)
-#            log.debug("offset %d => ", self.offsets[topic_name][partition.partition_id])
-            if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
-                self.offsets[topic_name][partition.partition_id] = offset + 1
-#            log.debug("%d", self.offsets[topic_name][partition.partition_id])
 
         return messages
-- 
2.43.0


From 96286808dd30d61f4a6abe4f05fa58cef5886cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 26/49] fix: messages preceding the position were delivered
 from compressed sets

---
 kiel/clients/consumer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index f1ebf8c..3e3a048 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -192,8 +192,17 @@ class BaseConsumer(Client):
         topic/partition pair is moved past it, whether or not it could be
         deserialized.
         """
+        entries = partition.message_set.messages
+        position = self.offsets[topic_name][partition.partition_id]
+        if any(offset >= position for offset, _ in entries):
+            # compressed sets come whole, including what precedes the position
+            entries = [
+                (offset, msg) for offset, msg in entries
+                if not 0 <= offset < position
+            ]
+
         messages = []
-        for offset, msg in partition.message_set.messages:
+        for offset, msg in entries:
             if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
                 self.offsets[topic_name][partition.partition_id] = offset + 1
 
-- 
2.43.0


From 901b3fc897b36682dd650d5d58dfe96201cd89c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 27/49] fix: shared set data could not be stored on python 3

---
 kiel/zookeeper/shared_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kiel/zookeeper/shared_set.py b/kiel/zookeeper/shared_set.py
index 23b4afe..7319a0b 100644
--- a/kiel/zookeeper/shared_set.py
+++ b/kiel/zookeeper/shared_set.py
@@ -83,12 +83,12 @@ class SharedSet(object):
 
     def serialize(self, data):
         """
-        Serializes the set data as a list in a JSON string.
+        Serializes the set data as a list in a JSON byte string.
         """
-        return json.dumps(list(data))
+        return json.dumps(list(data)).encode("utf-8")
 
     def deserialize(self, data):
         """
         Parses a given JSON string as a list, converts to a python set.
         """
-        return set(json.loads(data or "[]"))
+        return set(json.loads((data or b"[]").decode("utf-8")))
-- 
2.43.0


From 7f6e15b44c8052725dba2b46bdb066a085e575d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 28/49] fix: allocation raised KeyError for members without
 partitions

---
 kiel/zookeeper/allocator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 1caf62c..4c2f5e9 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -67,7 +67,7 @@ class PartitionAllocator(object):
         """
         Property representing the topics allocated for a specific consumer.
         """
-        return self.mapping[self.consumer_name]
+        return self.mapping.get(self.consumer_name, {})
 
     @property
     def members_path(self):
-- 
2.43.0


From b610edfc83ce06830481c8ee7cceee055e667360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 29/49] fix: remove_partitions() failed on the documented
 argument

---
 kiel/zookeeper/allocator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 4c2f5e9..940371e 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -239,8 +239,9 @@ class PartitionAllocator(object):
         wait_on_event(self.connected)
 
         self.shared_set.remove_items(set([
-            ":".join([topic, partition_id])
-            for topic, partition_id in six.iteritems(old_partitions)
+            ":".join([topic, str(partition_id)])
+            for topic, partition_ids in six.iteritems(old_partitions)
+            for partition_id in partition_ids
         ]))
 
     def rebalance(self):
-- 
2.43.0


From 75d49548807a2e70a9855485cebd0d382c6d4a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 30/49] fix: overlapping rebalances could leave an outdated
 allocation

---
 kiel/zookeeper/allocator.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 940371e..7f0fc22 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -62,6 +62,9 @@ class PartitionAllocator(object):
 
         self.mapping = {}
 
+        # the callbacks of the two zookeeper watches can overlap
+        self.rebalance_lock = threading.RLock()
+
     @property
     def allocation(self):
         """
@@ -174,9 +177,10 @@ class PartitionAllocator(object):
         log.info("Consumer group '%s' members changed.", self.group_name)
 
         new_members = set(new_members)
-        if new_members != self.members:
-            self.members = new_members
-            self.rebalance()
+        with self.rebalance_lock:
+            if new_members != self.members:
+                self.members = new_members
+                self.rebalance()
 
         self.members_collected.set()
 
@@ -196,9 +200,10 @@ class PartitionAllocator(object):
             self.conn.create(self.partition_path, value=self.partitions)
             return
 
-        if new_partitions != self.partitions:
-            self.partitions = new_partitions
-            self.rebalance()
+        with self.rebalance_lock:
+            if new_partitions != self.partitions:
+                self.partitions = new_partitions
+                self.rebalance()
 
         self.partitions_collected.set()
 
-- 
2.43.0


From 6f948b983bbde3e05f37f3d9c9e935d336656045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 31/49] fix: zookeeper connection stayed open when leaving the
 group failed

---
 kiel/zookeeper/allocator.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 7f0fc22..e004f8a 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -130,13 +130,21 @@ class PartitionAllocator(object):
         log.info("Stopping partitioner for group '%s'", self.group_name)
         f = concurrent.Future()
 
-        attempt = create_attempter(f)
-
-        attempt(self.party.leave)
-        attempt(self.conn.stop)
-        attempt(self.conn.close)
-
-        if not f.done():
+        steps = [self.conn.stop, self.conn.close]
+        if self.connected.is_set():
+            # without a connection the end of the session has to do
+            steps.insert(0, self.party.leave)
+
+        error = None
+        for step in steps:
+            try:
+                step()
+            except Exception as e:
+                error = error or e
+
+        if error:
+            f.set_exception(error)
+        else:
             f.set_result(None)
 
         return f
-- 
2.43.0


From 90644ae49dfbdec29690556f3130f06d28197956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 32/49] fix: a missing shared set could not be created

---
 kiel/zookeeper/allocator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index e004f8a..c45b206 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -205,7 +205,11 @@ class PartitionAllocator(object):
         Sets the `partitions_collected` threading event when done.
         """
         if new_partitions is None:
-            self.conn.create(self.partition_path, value=self.partitions)
+            self.conn.create(
+                self.partition_path,
+                value=self.shared_set.serialize(self.partitions),
+                makepath=True
+            )
             return
 
         with self.rebalance_lock:
-- 
2.43.0


From 502e9c3b31b8faa2fc62c024bfd13b1d6803e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 33/49] fix: joining failed silently when a leftover entry
 expired meanwhile

---
 kiel/zookeeper/party.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/party.py b/kiel/zookeeper/party.py
index f92cf6b..f769f69 100644
--- a/kiel/zookeeper/party.py
+++ b/kiel/zookeeper/party.py
@@ -64,7 +64,12 @@ class Party(object):
             txn = self.client.transaction()
             txn.delete(path)
             txn.create(path, ephemeral=True)
-            txn.commit()
+            results = txn.commit()
+            if isinstance(results, list) and any(
+                    isinstance(result, Exception) for result in results
+            ):
+                log.debug("ZNode at %s changed meanwhile, retrying.", path)
+                self.join()
 
     def leave(self):
         """
-- 
2.43.0


From 7956d39e0dfd71204b7727e96488381d71ae171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 34/49] fix: consumers did not rejoin their group after a lost
 session

---
 kiel/zookeeper/allocator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index c45b206..5cf32fb 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -45,6 +45,7 @@ class PartitionAllocator(object):
 
         self.conn = client.KazooClient(hosts=",".join(self.zk_hosts))
         self.connected = threading.Event()
+        self.session_lost = False
 
         self.members = set()
         self.members_collected = threading.Event()
@@ -162,16 +163,23 @@ class PartitionAllocator(object):
 
         Responsible for updating the ``connected`` threading event such that
         it is only set if/when the kazoo connection is live.
+
+        The membership ends with the session, so the party is joined again
+        once a new one is established.
         """
         if state == client.KazooState.LOST:
             log.info("Zookeeper session lost!")
             self.connected.clear()
+            self.session_lost = True
         elif state == client.KazooState.SUSPENDED:
             log.info("Zookeeper connection suspended!")
             self.connected.clear()
         else:
             log.info("Zookeeper connection (re)established.")
             self.connected.set()
+            if self.session_lost:
+                self.session_lost = False
+                self.conn.handler.spawn(self.conn.retry, self.party.join)
 
     def on_group_members_change(self, new_members):
         """
-- 
2.43.0


From 75888edb37d33634ff639176a7f7eb8e8c8ad3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 35/49] fix: a connection lost while determining the
 coordinator raised KeyError

---
 kiel/clients/grouped.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index f8b603b..cde8118 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -104,16 +104,21 @@ class GroupedConsumer(BaseConsumer):
         contain coordinator metadata so each broker in the cluster is tried
         until one works.
         """
-        request = coordinator.GroupCoordinatorRequest(group=self.group_name)
+        self.coordinator_id = None
+
         determined = False
-        while not determined:
+        while not determined and not self.closing:
             broker_ids = list(self.cluster)
             if not broker_ids:
                 raise exc.NoBrokersError
             for broker_id in broker_ids:
+                request = coordinator.GroupCoordinatorRequest(
+                    group=self.group_name
+                )
                 results = yield self.send({broker_id: request})
-                determined = results[broker_id]
-                if determined:
+                # brokers whose connection got lost have no result
+                determined = results.get(broker_id, False)
+                if determined or self.closing:
                     break
 
     def handle_group_coordinator_response(self, response):
@@ -134,7 +139,12 @@ class GroupedConsumer(BaseConsumer):
             self.heal_cluster = True
             determined = False
         else:
-            log.error("Got error %s when determining coordinator")
+            log.error(
+                "Got error %s when determining coordinator",
+                constants.ERROR_CODES.get(
+                    response.error_code, response.error_code
+                )
+            )
             determined = True
 
         return determined
-- 
2.43.0


From 00173445a57b5fe93a147f9b5b6318a607b0b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 36/49] fix: partitions gained while offsets were looked up
 were consumed from offset 0

---
 kiel/clients/consumer.py | 11 ++++++++---
 kiel/clients/grouped.py  | 22 +++++++++++++---------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 3e3a048..d81b0b6 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -95,18 +95,23 @@ class BaseConsumer(Client):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
-        if topic not in self.synced_offsets:
+        while topic not in self.synced_offsets:
+            # added up front, a rebalance during the lookup drops it again
+            self.synced_offsets.add(topic)
             try:
                 yield self.determine_offsets(topic, start)
             except NoOffsetsError:
+                self.synced_offsets.discard(topic)
                 log.error("Unable to determine offsets for topic %s", topic)
                 raise gen.Return([])
+            except Exception:
+                self.synced_offsets.discard(topic)
+                raise
             if self.closing:
                 return
-            self.synced_offsets.add(topic)
 
         ordered = collections.defaultdict(list)
-        for partition_id in self.allocation[topic]:
+        for partition_id in self.allocation.get(topic, []):
             try:
                 leader = self.cluster.get_leader(topic, partition_id)
             except KeyError:
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index cde8118..aae46f5 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -163,17 +163,21 @@ class GroupedConsumer(BaseConsumer):
           signature remains consistent with the other consumer classes.
         """
         log.info("Fetching offsets for consumer group '%s'", self.group_name)
-        request = offset_fetch.OffsetFetchRequest(
-            group_name=self.group_name,
-            topics=[
-                offset_fetch.TopicRequest(
-                    name=topic, partitions=list(self.allocation[topic])
-                )
-            ]
-        )
 
         retry = True
-        while retry:
+        while retry and not self.closing:
+            partitions = list(self.allocation.get(topic, []))
+            if not partitions:
+                return
+
+            request = offset_fetch.OffsetFetchRequest(
+                group_name=self.group_name,
+                topics=[
+                    offset_fetch.TopicRequest(
+                        name=topic, partitions=partitions
+                    )
+                ]
+            )
             result = yield self.send({self.coordinator_id: request})
             retry = result[self.coordinator_id]
 
-- 
2.43.0


From 2d04debac02794ab0b90f8384d7ca38c0ce135da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 37/49] fix: consume() on a closed grouped consumer committed
 offsets

---
 kiel/clients/grouped.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index aae46f5..211dc22 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -85,6 +85,9 @@ class GroupedConsumer(BaseConsumer):
         """
         result = yield super(GroupedConsumer, self).consume(topic)
 
+        if result is None:  # closing
+            return
+
         if topic not in self.synced_offsets:
             raise gen.Return([])
 
-- 
2.43.0


From 8057fcccd6a2c1ce4623821d6a419d347c8b674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 38/49] fix: a lost or moved coordinator was never determined
 again

---
 kiel/clients/grouped.py | 94 ++++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 29 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 211dc22..47416a1 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -14,6 +14,9 @@ from .consumer import BaseConsumer
 
 log = logging.getLogger(__name__)
 
+#: error codes of brokers that do not coordinate the group (anymore)
+COORDINATOR_MOVED = (errors.coordinator_not_available, errors.not_coordinator)
+
 
 class GroupedConsumer(BaseConsumer):
     """
@@ -107,8 +110,6 @@ class GroupedConsumer(BaseConsumer):
         contain coordinator metadata so each broker in the cluster is tried
         until one works.
         """
-        self.coordinator_id = None
-
         determined = False
         while not determined and not self.closing:
             broker_ids = list(self.cluster)
@@ -152,6 +153,28 @@ class GroupedConsumer(BaseConsumer):
 
         return determined
 
+    @gen.coroutine
+    def send_to_coordinator(self, request):
+        """
+        Sends a request to the coordinator, determining it first if need be.
+
+        Gives the result of the response's handler, ``True`` if there was no
+        response since the connection got lost or ``None`` if there is no
+        coordinator at all.
+        """
+        if self.coordinator_id is None:
+            yield self.determine_coordinator()
+        if self.coordinator_id is None:
+            raise gen.Return(None)
+
+        coordinator_id = self.coordinator_id
+        results = yield self.send({coordinator_id: request})
+
+        if coordinator_id not in results:
+            self.coordinator_id = None
+
+        raise gen.Return(results.get(coordinator_id, True))
+
     @gen.coroutine
     def determine_offsets(self, topic, start=None):
         """
@@ -181,8 +204,10 @@ class GroupedConsumer(BaseConsumer):
                     )
                 ]
             )
-            result = yield self.send({self.coordinator_id: request})
-            retry = result[self.coordinator_id]
+            result = yield self.send_to_coordinator(request)
+            if result is None:
+                raise exc.NoOffsetsError
+            retry = result
 
     def handle_offset_fetch_response(self, response):
         """
@@ -217,6 +242,8 @@ class GroupedConsumer(BaseConsumer):
             elif code in errors.retriable:
                 self.heal_cluster = True
                 retry = True
+                if code in COORDINATOR_MOVED:
+                    self.coordinator_id = None
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
@@ -239,33 +266,40 @@ class GroupedConsumer(BaseConsumer):
             metadata = "committed by %s" % self.name
 
         log.debug("Committing offsets for consumer group %s", self.group_name)
-        request = offset_commit.OffsetCommitV0Request(
-            group=self.group_name,
-            topics=[
-                offset_commit.TopicRequest(
-                    name=topic,
-                    partitions=[
-                        offset_commit.PartitionRequest(
-                            partition_id=partition_id,
-                            offset=self.offsets[topic][partition_id],
-                            metadata=metadata
-                        )
-                        for partition_id in partition_ids
-                    ]
-                )
-                for topic, partition_ids in six.iteritems(self.allocation)
-                if topic in self.topics_to_commit
-            ]
-        )
 
-        results = yield self.send({self.coordinator_id: request})
-        retry, adjust_metadata = results[self.coordinator_id]
+        retry = True
+        while retry and not self.closing:
+            request = offset_commit.OffsetCommitV0Request(
+                group=self.group_name,
+                topics=[
+                    offset_commit.TopicRequest(
+                        name=topic,
+                        partitions=[
+                            offset_commit.PartitionRequest(
+                                partition_id=partition_id,
+                                offset=self.offsets[topic][partition_id],
+                                metadata=metadata
+                            )
+                            for partition_id in partition_ids
+                        ]
+                    )
+                    for topic, partition_ids in six.iteritems(self.allocation)
+                    if topic in self.topics_to_commit
+                ]
+            )
+
+            result = yield self.send_to_coordinator(request)
+            if result is None:
+                log.error("No coordinator to commit offsets to.")
+                return
+            if result is True:
+                continue
+
+            retry, adjust_metadata = result
 
-        if adjust_metadata:
-            log.warn("Offset commit metadata '%s' was too long.", metadata)
-            metadata = ""
-        if retry:
-            yield self.commit_offsets(metadata=metadata)
+            if adjust_metadata:
+                log.warn("Offset commit metadata '%s' was too long.", metadata)
+                metadata = ""
 
     def handle_offset_commit_response(self, response):
         """
@@ -288,6 +322,8 @@ class GroupedConsumer(BaseConsumer):
                 elif code in errors.retriable:
                     retry = True
                     self.heal_cluster = True
+                    if code in COORDINATOR_MOVED:
+                        self.coordinator_id = None
                 elif code == errors.offset_metadata_too_large:
                     retry = True
                     adjust_metadata = True
-- 
2.43.0


From 3fdf09e8538d9ece9257e952a06aa35e56d18bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 39/49] fix: failed commits were not retried if another
 partition's succeeded

---
 kiel/clients/grouped.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 47416a1..1d777c6 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -305,8 +305,8 @@ class GroupedConsumer(BaseConsumer):
         """
         Handles responses from the "offset commit" api.
 
-        For successful responses the affected topics are dropped from the set
-        of topics that need commits.
+        Topics of which all partitions were successful are dropped from the
+        set of topics that need commits.
 
         In the special case of an ``offset_metadata_too_large`` error code
         the commit is retried with a blank metadata string.
@@ -315,10 +315,13 @@ class GroupedConsumer(BaseConsumer):
         adjust_metadata = False
 
         for topic in response.topics:
+            if all(p.error_code == errors.no_error for p in topic.partitions):
+                self.topics_to_commit.discard(topic.name)
+
             for partition in topic.partitions:
                 code = partition.error_code
                 if code == errors.no_error:
-                    self.topics_to_commit.discard(topic.name)
+                    continue
                 elif code in errors.retriable:
                     retry = True
                     self.heal_cluster = True
-- 
2.43.0


From fc43ec63e39258b5f460c0c35b5055b7c0e5d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 40/49] fix: offsets of messages not handed out could be
 committed

---
 kiel/clients/grouped.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 1d777c6..3cdaebf 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -53,9 +53,16 @@ class GroupedConsumer(BaseConsumer):
         self.allocator = PartitionAllocator(
             zk_hosts, self.group_name, self.name,
             allocator_fn=partition_allocator or naive_allocator,
-            on_rebalance=self.synced_offsets.clear
+            on_rebalance=self.on_rebalance
         )
 
+        # number of rebalances so far, and as of a topic's last offset lookup
+        self.rebalances = 0
+        self.positioned = {}
+
+        # next offset per topic/partition as far as messages were handed out
+        self.delivered = {}
+
         self.topics_to_commit = set()
         self.autocommit = autocommit
 
@@ -66,6 +73,13 @@ class GroupedConsumer(BaseConsumer):
         """
         return self.allocator.allocation
 
+    def on_rebalance(self):
+        """
+        Callback of the allocator, all offsets have to be determined again.
+        """
+        self.rebalances += 1
+        self.synced_offsets.clear()
+
     @gen.coroutine
     def connect(self):
         """
@@ -85,15 +99,19 @@ class GroupedConsumer(BaseConsumer):
 
         This is where the ``autocommit`` flag comes into play.  If the flag
         is set we call `commit_offsets()` here right off the bat.
+
+        Messages fetched before a rebalance are dropped, the partitions they
+        are from might belong to another member by now.
         """
         result = yield super(GroupedConsumer, self).consume(topic)
 
         if result is None:  # closing
             return
 
-        if topic not in self.synced_offsets:
+        if self.positioned.get(topic) != self.rebalances:
             raise gen.Return([])
 
+        self.delivered[topic] = dict(self.offsets[topic])
         self.topics_to_commit.add(topic)
 
         if self.autocommit:
@@ -190,6 +208,10 @@ class GroupedConsumer(BaseConsumer):
         """
         log.info("Fetching offsets for consumer group '%s'", self.group_name)
 
+        self.positioned.pop(topic, None)
+        self.delivered.pop(topic, None)
+        rebalances = self.rebalances
+
         retry = True
         while retry and not self.closing:
             partitions = list(self.allocation.get(topic, []))
@@ -209,6 +231,8 @@ class GroupedConsumer(BaseConsumer):
                 raise exc.NoOffsetsError
             retry = result
 
+        self.positioned[topic] = rebalances
+
     def handle_offset_fetch_response(self, response):
         """
         Handler for offset fetch api responses.
@@ -277,16 +301,21 @@ class GroupedConsumer(BaseConsumer):
                         partitions=[
                             offset_commit.PartitionRequest(
                                 partition_id=partition_id,
-                                offset=self.offsets[topic][partition_id],
+                                offset=self.delivered[topic][partition_id],
                                 metadata=metadata
                             )
                             for partition_id in partition_ids
+                            if partition_id in self.delivered[topic]
                         ]
                     )
                     for topic, partition_ids in six.iteritems(self.allocation)
                     if topic in self.topics_to_commit
+                    and topic in self.delivered
+                    and self.positioned.get(topic) == self.rebalances
                 ]
             )
+            if not request.topics:
+                return
 
             result = yield self.send_to_coordinator(request)
             if result is None:
-- 
2.43.0


From 7e10b1c65832758232a5ccd4c1894d9a9f3af839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:57 +0000
Subject: [PATCH 41/49] fix: updates of the shared set could be lost with the
 lock's session

A client paused between reading and writing the set for longer than its
session lives loses the lock.  Its write then replaced what others had
written meanwhile.
---
 kiel/zookeeper/shared_set.py | 52 +++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/kiel/zookeeper/shared_set.py b/kiel/zookeeper/shared_set.py
index 7319a0b..14d0de1 100644
--- a/kiel/zookeeper/shared_set.py
+++ b/kiel/zookeeper/shared_set.py
@@ -1,6 +1,8 @@
 import json
 import logging
 
+from kazoo import exceptions
+
 
 log = logging.getLogger(__name__)
 
@@ -48,19 +50,23 @@ class SharedSet(object):
         Works entirely behind a zookeeper lock to combat resource contention
         among sharers of the set.
         """
-        with self.client.Lock(self.lock_path):
-            existing_items = self.deserialize(self.client.get(self.path)[0])
-            if not existing_items:
-                existing_items = set()
+        try:
+            with self.client.Lock(self.lock_path):
+                data, stat = self.client.get(self.path)
+                existing_items = self.deserialize(data)
 
-            if new_items.issubset(existing_items):
-                return
+                if new_items.issubset(existing_items):
+                    return
 
-            existing_items.update(new_items)
+                existing_items.update(new_items)
 
-            self.client.set(
-                self.path, self.serialize(existing_items)
-            )
+                self.client.set(
+                    self.path, self.serialize(existing_items),
+                    version=stat.version
+                )
+        except exceptions.BadVersionError:
+            log.info("Lock of %s lost to another client, retrying.", self.path)
+            self.add_items(new_items)
 
     def remove_items(self, old_items):
         """
@@ -71,15 +77,23 @@ class SharedSet(object):
         Works entirely behind a zookeeper lock to combat resource contention
         among sharers of the set.
         """
-        with self.client.Lock(self.lock_path):
-            existing_items = self.deserialize(self.client.get(self.path)[0])
-
-            if old_items.isdisjoint(existing_items):
-                return
-
-            existing_items.difference_update(old_items)
-
-            self.client.set(self.path, self.serialize(existing_items))
+        try:
+            with self.client.Lock(self.lock_path):
+                data, stat = self.client.get(self.path)
+                existing_items = self.deserialize(data)
+
+                if old_items.isdisjoint(existing_items):
+                    return
+
+                existing_items.difference_update(old_items)
+
+                self.client.set(
+                    self.path, self.serialize(existing_items),
+                    version=stat.version
+                )
+        except exceptions.BadVersionError:
+            log.info("Lock of %s lost to another client, retrying.", self.path)
+            self.remove_items(old_items)
 
     def serialize(self, data):
         """
-- 
2.43.0


From 8bde4f2584a65def33ba9a8b39442e04a0ddab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:25 +0000
Subject: [PATCH 42/49] fix: partitions gained during a rebalance could be
 consumed before their offset was known

---
 kiel/clients/consumer.py | 12 +++++++++---
 kiel/clients/grouped.py  | 20 ++++++++++++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index d81b0b6..981d25f 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -58,6 +58,12 @@ class BaseConsumer(Client):
         """
         raise NotImplementedError
 
+    def consumable_partitions(self, topic):
+        """
+        Lists the allocated partitions of a topic that can be fetched from.
+        """
+        return self.allocation.get(topic, [])
+
     @gen.coroutine
     def determine_offsets(self, topic, start=None):
         """
@@ -87,11 +93,11 @@ class BaseConsumer(Client):
         if self.closing:
             return
 
-        if topic not in self.allocation or not self.allocation[topic]:
+        if not self.allocation.get(topic):
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
             yield self.cluster.heal()
 
-        if topic not in self.allocation or not self.allocation[topic]:
+        if not self.allocation.get(topic):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
@@ -111,7 +117,7 @@ class BaseConsumer(Client):
                 return
 
         ordered = collections.defaultdict(list)
-        for partition_id in self.allocation.get(topic, []):
+        for partition_id in self.consumable_partitions(topic):
             try:
                 leader = self.cluster.get_leader(topic, partition_id)
             except KeyError:
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 3cdaebf..4129154 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -60,6 +60,9 @@ class GroupedConsumer(BaseConsumer):
         self.rebalances = 0
         self.positioned = {}
 
+        # partitions the last offset lookup of a topic was for
+        self.looked_up = {}
+
         # next offset per topic/partition as far as messages were handed out
         self.delivered = {}
 
@@ -80,6 +83,20 @@ class GroupedConsumer(BaseConsumer):
         self.rebalances += 1
         self.synced_offsets.clear()
 
+    def consumable_partitions(self, topic):
+        """
+        Leaves out partitions that no offset was looked up for (yet).
+
+        The allocator's thread sets a new allocation before it gets to calling
+        `on_rebalance()`, the newly gained partitions can show up in between.
+        """
+        looked_up = self.looked_up.get(topic, [])
+        return [
+            partition_id
+            for partition_id in self.allocation.get(topic, [])
+            if partition_id in looked_up
+        ]
+
     @gen.coroutine
     def connect(self):
         """
@@ -210,6 +227,8 @@ class GroupedConsumer(BaseConsumer):
 
         self.positioned.pop(topic, None)
         self.delivered.pop(topic, None)
+        self.looked_up.pop(topic, None)
+        self.offsets.pop(topic, None)
         rebalances = self.rebalances
 
         retry = True
@@ -231,6 +250,7 @@ class GroupedConsumer(BaseConsumer):
                 raise exc.NoOffsetsError
             retry = result
 
+        self.looked_up[topic] = partitions
         self.positioned[topic] = rebalances
 
     def handle_offset_fetch_response(self, response):
-- 
2.43.0


From 62a0dae9c1bd1392adbe81a3f0ec84816fc4818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 43/49] fix: offsets could be committed for partitions lost
 while the coordinator was determined

---
 kiel/clients/grouped.py | 45 ++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 4129154..bd6aa2d 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -189,20 +189,30 @@ class GroupedConsumer(BaseConsumer):
         return determined
 
     @gen.coroutine
-    def send_to_coordinator(self, request):
+    def ensure_coordinator(self):
         """
-        Sends a request to the coordinator, determining it first if need be.
+        Determines the coordinator if it is not known (anymore).
 
-        Gives the result of the response's handler, ``True`` if there was no
-        response since the connection got lost or ``None`` if there is no
-        coordinator at all.
+        To be called before a request is put together, the group could be
+        rebalanced in the meantime.  Gives whether there is a coordinator.
         """
         if self.coordinator_id is None:
             yield self.determine_coordinator()
-        if self.coordinator_id is None:
-            raise gen.Return(None)
 
+        raise gen.Return(self.coordinator_id is not None)
+
+    @gen.coroutine
+    def send_to_coordinator(self, request):
+        """
+        Sends a request to the coordinator.
+
+        Gives the result of the response's handler or ``True`` if there was
+        no response since the connection got lost.
+        """
         coordinator_id = self.coordinator_id
+        if coordinator_id is None:  # moved just now
+            raise gen.Return(True)
+
         results = yield self.send({coordinator_id: request})
 
         if coordinator_id not in results:
@@ -233,8 +243,12 @@ class GroupedConsumer(BaseConsumer):
 
         retry = True
         while retry and not self.closing:
+            found = yield self.ensure_coordinator()
+            if not found:
+                raise exc.NoOffsetsError
+
             partitions = list(self.allocation.get(topic, []))
-            if not partitions:
+            if not partitions or self.closing:
                 return
 
             request = offset_fetch.OffsetFetchRequest(
@@ -245,10 +259,7 @@ class GroupedConsumer(BaseConsumer):
                     )
                 ]
             )
-            result = yield self.send_to_coordinator(request)
-            if result is None:
-                raise exc.NoOffsetsError
-            retry = result
+            retry = yield self.send_to_coordinator(request)
 
         self.looked_up[topic] = partitions
         self.positioned[topic] = rebalances
@@ -313,6 +324,11 @@ class GroupedConsumer(BaseConsumer):
 
         retry = True
         while retry and not self.closing:
+            found = yield self.ensure_coordinator()
+            if not found:
+                log.error("No coordinator to commit offsets to.")
+                return
+
             request = offset_commit.OffsetCommitV0Request(
                 group=self.group_name,
                 topics=[
@@ -334,13 +350,10 @@ class GroupedConsumer(BaseConsumer):
                     and self.positioned.get(topic) == self.rebalances
                 ]
             )
-            if not request.topics:
+            if not request.topics or self.closing:
                 return
 
             result = yield self.send_to_coordinator(request)
-            if result is None:
-                log.error("No coordinator to commit offsets to.")
-                return
             if result is True:
                 continue
 
-- 
2.43.0


From 96c67d895b17d9d49778a0b0c046f899c956a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 44/49] fix: messages handed out while a commit was under way
 could stay uncommitted

---
 kiel/clients/grouped.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index bd6aa2d..6a2eb5e 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -357,7 +357,16 @@ class GroupedConsumer(BaseConsumer):
             if result is True:
                 continue
 
-            retry, adjust_metadata = result
+            retry, adjust_metadata, accepted = result
+
+            for topic in request.topics:
+                # there could be more messages handed out in the meantime
+                delivered = self.delivered.get(topic.name, {})
+                if topic.name in accepted and all(
+                        delivered.get(p.partition_id) == p.offset
+                        for p in topic.partitions
+                ):
+                    self.topics_to_commit.discard(topic.name)
 
             if adjust_metadata:
                 log.warn("Offset commit metadata '%s' was too long.", metadata)
@@ -367,18 +376,19 @@ class GroupedConsumer(BaseConsumer):
         """
         Handles responses from the "offset commit" api.
 
-        Topics of which all partitions were successful are dropped from the
-        set of topics that need commits.
+        Gives whether to retry, whether to do so with blank metadata and the
+        set of topics of which all partitions were successful.
 
         In the special case of an ``offset_metadata_too_large`` error code
         the commit is retried with a blank metadata string.
         """
         retry = False
         adjust_metadata = False
+        accepted = set()
 
         for topic in response.topics:
             if all(p.error_code == errors.no_error for p in topic.partitions):
-                self.topics_to_commit.discard(topic.name)
+                accepted.add(topic.name)
 
             for partition in topic.partitions:
                 code = partition.error_code
@@ -399,7 +409,7 @@ class GroupedConsumer(BaseConsumer):
                         topic, partition.partition_id
                     )
 
-        return (retry, adjust_metadata)
+        return (retry, adjust_metadata, accepted)
 
     @gen.coroutine
     def wind_down(self):
-- 
2.43.0


From c9ce7bc3ae26d99ecb4bcb05e79d0cd50120f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 45/49] fix: a grouped consumer closed while connecting stayed
 in its group

---
 kiel/clients/grouped.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 6a2eb5e..34be9fd 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -106,6 +106,8 @@ class GroupedConsumer(BaseConsumer):
         and calls `determine_coordinator()`.
         """
         yield super(GroupedConsumer, self).connect()
+        if self.closing:  # the allocator is stopped already
+            return
         yield self.allocator.start(self.cluster.topics)
         yield self.determine_coordinator()
 
-- 
2.43.0


From 097a954cb1e98a6bd3bdcd280c3468532c12ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 46/49] fix: consumers of forked worker processes could have
 the same member name

---
 kiel/clients/consumer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 981d25f..3f0c38d 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -1,6 +1,7 @@
 import collections
 import logging
 import json
+import os
 import socket
 
 import six
@@ -33,7 +34,10 @@ class BaseConsumer(Client):
     ):
         super(BaseConsumer, self).__init__(brokers)
 
-        self.name = ":".join([socket.gethostname(), str(id(self))])
+        # the ID of the process keeps forked workers apart
+        self.name = ":".join([
+            socket.gethostname(), str(os.getpid()), str(id(self))
+        ])
 
         self.deserializer = deserializer or json.loads
 
-- 
2.43.0


From 9fa8e91d41bdcfa2a168b85a36f417ded4a99fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 47/49] fix: messages were lost when their automatic commit
 failed

---
 kiel/clients/grouped.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 34be9fd..13cb6d9 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -134,7 +134,12 @@ class GroupedConsumer(BaseConsumer):
         self.topics_to_commit.add(topic)
 
         if self.autocommit:
-            yield self.commit_offsets()
+            try:
+                yield self.commit_offsets()
+            except Exception:
+                # the positions are past these messages already, they are to
+                # be handed out regardless and committed by a later call
+                log.exception("Could not commit offsets.")
 
         raise gen.Return(result)
 
-- 
2.43.0


From 953dbd7c16b3b161a6118de7df58f8f037e5b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:45 +0000
Subject: [PATCH 48/49] fix: closing a grouped consumer does not wait for
 zookeeper to come back

A connection that is lost just when the group is left makes kazoo queue the
request until it is connected again, close() blocked for as long as that took.
---
 kiel/zookeeper/allocator.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 5cf32fb..267777c 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -134,7 +134,7 @@ class PartitionAllocator(object):
         steps = [self.conn.stop, self.conn.close]
         if self.connected.is_set():
             # without a connection the end of the session has to do
-            steps.insert(0, self.party.leave)
+            steps.insert(0, self.leave_party)
 
         error = None
         for step in steps:
@@ -150,6 +150,30 @@ class PartitionAllocator(object):
 
         return f
 
+    def leave_party(self):
+        """
+        Leaves the ``Party``, unless the connection is lost meanwhile.
+
+        A request made while kazoo tries to reconnect waits for as long as that
+        takes, the end of the session has to do in that case as well.
+        """
+        errors = []
+
+        def leave():
+            try:
+                self.party.leave()
+            except Exception as e:
+                errors.append(e)
+
+        leaving = threading.Thread(target=leave)
+        leaving.daemon = True
+        leaving.start()
+        while leaving.is_alive() and self.connected.is_set():
+            leaving.join(0.1)
+
+        if errors:
+            raise errors[0]
+
     def connect(self):
         """
         Establishes the kazoo connection and registers the connection handler.
-- 
2.43.0


From 4292d4f226bbe05f9bfc6843f404ac7ec8e81221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:17 +0000
Subject: [PATCH 49/49] fix: flushing while a producer closes could lose
 messages

---
 kiel/clients/producer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index e5e0085..a878a44 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -145,8 +145,10 @@ class Producer(Client):
 
         Once the legitimate messages are ordered, instances of ProduceRequest
         are created for each broker and sent.
+
+        While closing down it is up to `wind_down()` to do so.
         """
-        if not self.unsent:
+        if not self.unsent or self.closing:
             return
 
         flushing = concurrent.Future()
@@ -268,7 +270,7 @@ class Producer(Client):
                 yield list(self.flushes)
                 continue
 
-            yield self.flush()
+            yield self.send_unsent()
 
             if not self.unsent:
                 continue
-- 
2.43.0

