PR = "kiel/protocol/primitives.py"
MS = "kiel/protocol/messages.py"
SEEDS = [
 dict(id="s01-empty-string-as-null", property="C01", needs="a request with an empty (not null) string or byte-string field",
      breaks="empty strings and byte strings are encoded as null (-1)",
      edits=[(PR, "        if self.value is None:\n            return size_format, [-1]\n", "        if not self.value:\n            return size_format, [-1]\n")],
      demo='''
from kiel.protocol import offset_commit
r = offset_commit.OffsetCommitV0Request(group="g", topics=[offset_commit.TopicRequest(name="t", partitions=[
    offset_commit.PartitionRequest(partition_id=1, offset=2, metadata="")])])
api, version, corr, client, body = wire.dec_request(r.serialize())
assert body["topics"][0]["partitions"][0]["metadata"] == "", body
'''),
 dict(id="s02-empty-decoded-as-none", property="C02", needs="a response carrying an empty string",
      breaks="empty strings decode to None instead of an empty string",
      edits=[(PR, "        if size == -1:\n", "        if size <= 0:\n")],
      demo='''
import struct
from kiel.protocol import metadata
r = metadata.MetadataResponse.deserialize(wire.enc(wire.RESPONSES["metadata"], {"brokers": [{"broker_id": 1, "host": "", "port": 2}], "topics": []}))
assert r.brokers[0].host == "", r
'''),
 dict(id="s03-nested-offsets", property="C03", needs="a compressed set of several messages stored by a broker",
      breaks="messages of a compressed set all get the wrapper's offset instead of their own",
      edits=[(MS, "                messages.extend(nested_set.messages)\n",
              "                messages.extend([\n                    (message_offset, nested) for _, nested in nested_set.messages\n                ])\n")],
      demo='''
import struct
from kiel.protocol.messages import MessageSet
raw = wire.wrapped(1, [(10, None, b"a"), (11, None, b"b"), (12, None, b"c")])
s, end = MessageSet.parse(struct.pack(">i", len(raw)) + raw, 0)
assert [o for o, _ in s.messages] == [10, 11, 12], s.messages
'''),
 dict(id="s04-cut-in-header", property="C04", needs="the last message set of a response cut inside the 12-byte offset/size header of a message",
      breaks="the whole response becomes undecodable, the complete messages before the cut are not delivered",
      edits=[(MS, """            try:
                message_offset, offset = Int64.parse(buff, offset)
                message_size, offset = Int32.parse(buff, offset)
            except struct.error:
                # ending messages can sometimes be cut off
                break
""", """            message_offset, offset = Int64.parse(buff, offset)
            message_size, offset = Int32.parse(buff, offset)
""")],
      demo='''
from kiel.protocol import fetch
entry = wire.entry(5, wire.message(None, b"x"))
body = {"topics": [{"name": "t", "partitions": [{"partition_id": 0, "error_code": 0, "highwater_mark_offset": 9, "message_set": entry + entry[:7]}]}]}
r = fetch.FetchResponse.deserialize(wire.enc(wire.RESPONSES["fetch"], body))
assert [m.value for _, m in r.topics[0].partitions[0].message_set.messages] == ["x"]
'''),
 dict(id="s05-gzip-members", property="C05", needs="a gzip stream of several members, as concatenating producers write",
      breaks="everything after the first gzip member is dropped",
      edits=[("kiel/compression/gzip.py", """    buff = BytesIO(data)

    with gzip.GzipFile(fileobj=buff, mode='r') as fd:
        result = fd.read()

    buff.close()

    return result
""", """    return zlib.decompressobj(zlib.MAX_WBITS | 16).decompress(data)
"""), ("kiel/compression/gzip.py", "import gzip\n\n", "import gzip\nimport zlib\n\n")],
      demo='''
import gzip as g
from kiel.compression import gzip
assert gzip.decompress(g.compress(b"one") + g.compress(b"two")) == b"onetwo"
'''),
 dict(id="s06-partial-read", property="C06", needs="a response that arrives in more than one segment",
      breaks="a response split over segments is decoded from its first part",
      edits=[("kiel/connection.py", "        raw_payload = yield self.stream.read_bytes(size)\n",
              "        raw_payload = yield self.stream.read_bytes(size, partial=True)\n")],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    cl.part("t", 0).append([(None, b'"%s"' % (b"x" * 500))])
    c = SingleConsumer(cl.hosts)
    await c.connect()
    cl.plan = lambda x: Action(chunks=[4, 4, 30, 100])
    r = await c.consume("t", start=c.BEGINNING)
    assert r == ["x" * 500], r
    await c.close()
run(work)
'''),
 dict(id="s07-pending-after-write", property="C07", needs="a send on a stream that closed but whose read loop has not noticed yet",
      breaks="the request's future is registered after the write already failed and never settles",
      edits=[("kiel/connection.py", "        self.pending[message.correlation_id] = f\n\n        def handle_write", "        def handle_write"),
             ("kiel/connection.py", "            self.stream.write(payload).add_done_callback(handle_write)\n\n        return f",
              "            self.stream.write(payload).add_done_callback(handle_write)\n\n        self.pending[message.correlation_id] = f\n\n        return f")],
      demo='''
import asyncio
async def work(cl):
    from kiel.connection import Connection
    from kiel.protocol import metadata
    c = Connection("127.0.0.1", cl.brokers[1].port)
    await c.connect()
    await settle(cl, 1)
    c.stream.close()
    f = c.send(metadata.MetadataRequest(topics=[]))
    await settle(cl, 3)
    assert f.done() and f.exception() is not None
run(work)
'''),
 dict(id="s08-port-of-previous-host", property="C08", needs="a bootstrap host without a port listed after an unusable host with one",
      breaks="the port of the previous bootstrap host is used instead of the default port",
      edits=[("kiel/cluster.py", """        for host in self.bootstrap_hosts:
            if ":" in host:
                host, port = host.split(":")
            else:
                port = DEFAULT_KAFKA_PORT
""", """        port = DEFAULT_KAFKA_PORT

        for host in self.bootstrap_hosts:
            if ":" in host:
                host, port = host.split(":")
""")],
      demo='''
async def work(cl):
    from kiel import cluster
    # stands in for a host listening on the default port
    cluster.DEFAULT_KAFKA_PORT = cl.brokers[1].port
    dead = cl.add_broker(2, start=False)
    c = cluster.Cluster([dead.addr, "127.0.0.1"])
    cl.reported = [1]
    await c.start()
    assert list(c.conns) == [1]
    c.stop()
run(work)
'''),
 dict(id="s09-idle-broker-not-retried", property="C09", needs="a broker that leads no partition and refuses the connection once",
      breaks="a reachable broker that could not be connected at first stays unconnected after the refresh",
      edits=[("kiel/cluster.py", "        while missing_conns or missing_topics:\n", "        while missing_topics:\n")],
      demo='''
async def work(cl):
    from kiel.cluster import Cluster
    cl.add_topic("t", [1])
    b = cl.brokers[2]
    b.stop()
    cl.reported = [1, 2]
    def plan(x):
        # comes back up while the refresh is retrying
        if x.api == "metadata" and x.api_n >= 2:
            b.start()
    cl.plan = plan
    c = Cluster([cl.brokers[1].addr])
    await c.start()
    assert sorted(c.conns) == [1, 2], list(c.conns)
    c.stop()
run(work, 2)
'''),
 dict(id="s10-out-of-range-drops-others", property="C10", needs="one partition of a broker answers offset-out-of-range after another one returned messages",
      breaks="messages of the other partitions in that response are dropped although their positions moved on",
      edits=[("kiel/clients/consumer.py", """                self.synced_offsets.discard(topic)
            else:""", """                self.synced_offsets.discard(topic)
                return []
            else:""")],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1, 1])
    c = SingleConsumer(cl.hosts)
    await c.connect()
    assert await c.consume("t", start=c.BEGINNING) == []
    cl.part("t", 0).append([(None, b"1")])
    cl.plan = lambda x: Action(errors={("t", 1): 1}) if x.api == "fetch" else None
    r = await c.consume("t", start=c.BEGINNING)
    assert r == [1], r
    await c.close()
run(work)
'''),
 dict(id="s11-retries-overwrite", property="C11", needs="a message produced while a flush with a retriable failure for the same topic is under way",
      breaks="messages queued for retry replace the ones that became pending meanwhile",
      edits=[("kiel/clients/producer.py", "        self.unsent[topic].extend(msgs)\n", "        self.unsent[topic] = msgs\n")],
      demo='''
import asyncio
async def work(cl):
    from kiel.clients import Producer
    cl.add_topic("t", [1])
    p = Producer(cl.hosts, batch_size=2)
    await p.connect()
    state = {"n": 0}
    def plan(x):
        if x.api == "produce":
            state["n"] += 1
            if state["n"] == 1:
                return Action(errors={("t", 0): 7}, delay=.05)
    cl.plan = plan
    await p.produce("t", 1)
    f = asyncio.ensure_future(p.produce("t", 2))
    await settle(cl, 1)
    await p.produce("t", 3)
    await f
    await p.flush()
    have = sorted(r[2] for r in cl.part("t", 0).records())
    assert have == [b"1", b"2", b"3"], have
    await p.close()
run(work)
'''),
 dict(id="s12-empty-value-null", property="C12", needs="a serializer that returns an empty string for some message",
      breaks="the empty value is sent as null",
      edits=[("kiel/clients/producer.py", "                value=self.serializer(message)\n", "                value=self.serializer(message) or None\n")],
      demo='''
async def work(cl):
    from kiel.clients import Producer
    cl.add_topic("t", [1])
    p = Producer(cl.hosts, serializer=lambda m: m)
    await p.connect()
    await p.produce("t", "")
    assert cl.part("t", 0).records()[0][2] == b"", cl.part("t", 0).records()
    await p.close()
run(work)
'''),
 dict(id="s13-batch-per-topic", property="C13", needs="several topics produced to with a batch size above 1",
      breaks="the batch threshold counts the messages of one topic instead of all pending ones",
      edits=[("kiel/clients/producer.py", "        if not self.batch_size or self.unsent_count >= self.batch_size:\n",
              "        pending = len(self.unsent[topic])\n        if not self.batch_size or pending >= self.batch_size:\n")],
      demo='''
async def work(cl):
    from kiel.clients import Producer
    cl.add_topic("a", [1]); cl.add_topic("b", [1])
    p = Producer(cl.hosts, batch_size=2)
    await p.connect()
    await p.produce("a", 1)
    await p.produce("b", 2)
    assert len(cl.part("a", 0).records()) == 1 and len(cl.part("b", 0).records()) == 1
    await p.close()
run(work)
'''),
 dict(id="s14-closing-set-late", property="C14", needs="a message produced while close() waits for the answer to its flush",
      breaks="messages offered after close() was called are still accepted",
      edits=[("kiel/clients/client.py", """        self.closing = True

        try:
            yield self.wind_down()
        finally:
""", """        try:
            yield self.wind_down()
        finally:
            self.closing = True
""")],
      demo='''
import asyncio
async def work(cl):
    from kiel.clients import Producer
    cl.add_topic("t", [1])
    p = Producer(cl.hosts, batch_size=5)
    await p.connect()
    await p.produce("t", 1)
    cl.plan = lambda x: Action(delay=.05)
    f = asyncio.ensure_future(p.close())
    await settle(cl, 1)
    await p.produce("t", 2)
    await f
    assert [r[2] for r in cl.part("t", 0).records()] == [b"1"] and p.unsent_count == 0, p.unsent_count
run(work)
'''),
 dict(id="s15-position-by-count", property="C15", needs="a log with offset gaps, as compaction leaves them",
      breaks="the position advances by the number of messages, so messages after a gap are returned again",
      edits=[("kiel/clients/consumer.py", "                self.offsets[topic_name][partition.partition_id] = offset + 1\n",
              "                self.offsets[topic_name][partition.partition_id] += 1\n")],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    q = cl.part("t", 0)
    q.append([(None, b"1"), (None, b"2")]); q.append([(None, b"3")], gap=5)
    c = SingleConsumer(cl.hosts)
    await c.connect()
    got = []
    for _ in range(4):
        got += await c.consume("t", start=c.BEGINNING)
    assert got == [1, 2, 3], got
    await c.close()
run(work)
'''),
 dict(id="s16-timedelta-days", property="C16", needs="a timedelta start of a day or more",
      breaks="the days of a timedelta start are ignored",
      edits=[("kiel/clients/single.py", "        offset_time = int(now - start.total_seconds())\n", "        offset_time = int(now - start.seconds)\n")],
      demo='''
import datetime, time
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    seen = []
    cl.on_request = lambda x: seen.append(x.body["topics"][0]["partitions"][0]["time"]) if x.api == "offset" else None
    c = SingleConsumer(cl.hosts)
    await c.connect()
    await c.consume("t", start=datetime.timedelta(days=3, seconds=5))
    want = time.time() - 3 * 86400 - 5
    assert abs(seen[0] - want) < 3, (seen, want)
    await c.close()
run(work)
'''),
 dict(id="s17-share-of-all", property="C17", needs="a topic whose partitions are led by several brokers",
      breaks="the byte limit is divided by all partitions instead of those asked of the leader",
      edits=[("kiel/clients/consumer.py", "            max_partition_bytes = int(self.max_bytes / len(partitions))\n",
              "            max_partition_bytes = int(\n                self.max_bytes / len(self.allocation[topic])\n            )\n")],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1, 2, 2])
    seen = {}
    def on(x):
        if x.api == "fetch":
            seen[x.broker.id] = [p["max_bytes"] for p in x.body["topics"][0]["partitions"]]
    cl.on_request = on
    c = SingleConsumer(cl.hosts, max_bytes=900)
    await c.connect()
    await c.consume("t", start=c.BEGINNING)
    assert seen == {1: [900], 2: [450, 450]}, seen
    await c.close()
run(work, 2)
'''),
 dict(id="s26-only-value-errors", property="C26", needs="a deserializer that raises something other than ValueError or TypeError",
      breaks="consume() raises when a message cannot be deserialized",
      edits=[("kiel/clients/consumer.py", """                value = self.deserializer(msg.value)
            except Exception:""", """                value = self.deserializer(msg.value)
            except (TypeError, ValueError):""")],
      demo='''
import json
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    cl.part("t", 0).append([(None, b'{"a": 1}'), (None, b'{"b": 1}'), (None, b'{"a": 2}')])
    c = SingleConsumer(cl.hosts, deserializer=lambda v: json.loads(v)["a"])
    await c.connect()
    r = await c.consume("t", start=c.BEGINNING)
    assert r == [1, 2], r
    await c.close()
run(work)
'''),
 dict(id="s27-empty-entry-left", property="C27", needs="producing twice to a topic, which is created between the two calls",
      breaks="looking the unknown topic up leaves an empty entry behind, so later calls never refresh the metadata again",
      edits=[("kiel/clients/producer.py", """        if topic not in self.cluster.topics:
            log.error("Unknown""", """        if not self.cluster.topics[topic]:
            log.error("Unknown""")],
      demo='''
async def work(cl):
    from kiel.clients import Producer
    p = Producer(cl.hosts)
    await p.connect()
    await p.produce("t", 1)
    cl.add_topic("t", [1])
    await p.produce("t", 2)
    assert [r[2] for r in cl.part("t", 0).records()] == [b"2"]
    await p.close()
run(work)
'''),
]
