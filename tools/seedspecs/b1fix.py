SEEDS = [
 dict(id="s06-oldest-pending", property="C06", needs="two requests in flight on a connection whose responses arrive in another order",
      breaks="a response completes the oldest pending request instead of the one it answers",
      edits=[("kiel/connection.py", "                self.pending.pop(message.correlation_id).set_result(message)\n",
              "                # brokers answer in order\n                oldest = next(iter(self.pending))\n                self.pending.pop(oldest).set_result(message)\n")],
      demo='''
import asyncio
async def work(cl):
    from kiel.connection import Connection
    from kiel.protocol import metadata
    cl.add_topic("a", [1]); cl.add_topic("b", [1])
    cl.in_order = False
    cl.plan = lambda x: Action(delay=.05 if x.body["topics"] == ["a"] else 0)
    c = Connection("127.0.0.1", cl.brokers[1].port)
    await c.connect()
    fa, fb = c.send(metadata.MetadataRequest(topics=["a"])), c.send(metadata.MetadataRequest(topics=["b"]))
    a, b = await fa, await fb
    assert (a.topics[0].name, b.topics[0].name) == ("a", "b")
    c.close()
run(work)
'''),
 dict(id="s07-narrow-except", property="C07", needs="a fetch response whose compressed message cannot be decompressed",
      breaks="the read loop dies without failing the outstanding requests or closing the connection",
      edits=[("kiel/connection.py", """        except Exception:
            if not self.closing:
                log.exception(failure_message)
            self.abort()
""", """        except (LookupError, ValueError, TypeError, struct.error):
            if not self.closing:
                log.exception(failure_message)
            self.abort()
""")],
      demo='''
import asyncio
async def work(cl):
    from kiel.connection import Connection
    from kiel.protocol import fetch
    cl.add_topic("t", [1])
    def edit(body):
        body["topics"][0]["partitions"][0]["message_set"] = wire.entry(0, wire.message(None, b"this is no gzip stream", codec=1))
        return body
    cl.plan = lambda x: Action(edit=edit)
    c = Connection("127.0.0.1", cl.brokers[1].port)
    await c.connect()
    f = c.send(fetch.FetchRequest(replica_id=-1, max_wait_time=1, min_bytes=1, topics=[fetch.TopicRequest(name="t", partitions=[
        fetch.PartitionRequest(partition_id=0, offset=0, max_bytes=1000)])]))
    await settle(cl, 5)
    assert f.done() and f.exception() is not None and c.closing
run(work)
'''),
 dict(id="s08-bootstrap-left-open", property="C08", needs="a bootstrap host that is itself one of the reported brokers",
      breaks="the bootstrap connection is never closed",
      edits=[("kiel/cluster.py", "            conn.close()\n            break\n",
              "            addrs = [(b.host, b.port) for b in response.brokers]\n            if (host, int(port)) not in addrs:\n                conn.close()\n            break\n")],
      demo='''
async def work(cl):
    from kiel.cluster import Cluster
    c = Cluster(cl.hosts)
    await c.start()
    await settle(cl, 3)
    assert len(cl.open_conns()) == 1, cl.open_conns()
    c.stop()
run(work)
'''),
 dict(id="s15-lookup-after-retriable", property="C15", needs="a fetch answered with a retriable code after messages were consumed",
      breaks="a retriable fetch error makes the positions be looked up again, so messages are repeated (or skipped)",
      edits=[("kiel/clients/consumer.py", """            elif code in errors.retriable:
                self.heal_cluster = True
            elif code == errors.offset_out_of_range:
                log.warn("Offset out of range for topic %s", topic)
                self.synced_offsets.discard(topic)
""", """            elif code in errors.retriable or code == errors.offset_out_of_range:
                log.warn("Cannot fetch topic %s at this offset", topic)
                self.heal_cluster = True
                self.synced_offsets.discard(topic)
""")],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    cl.part("t", 0).append([(None, b"1"), (None, b"2")])
    c = SingleConsumer(cl.hosts)
    await c.connect()
    got = await c.consume("t", start=c.BEGINNING)
    n = [0]
    def plan(x):
        if x.api == "fetch":
            n[0] += 1
            if n[0] == 1:
                return Action(errors={("t", 0): 7})
    cl.plan = plan
    for _ in range(3):
        got += await c.consume("t", start=c.BEGINNING)
    assert got == [1, 2], got
    await c.close()
run(work)
'''),
 dict(id="s16-zero-timedelta", property="C16", needs="timedelta(0) as the start",
      breaks="a zero timedelta (now) is looked up as the end of the log",
      edits=[("kiel/clients/single.py", "        if start is None:\n", "        if not start:\n")],
      demo='''
import datetime
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    seen = []
    cl.on_request = lambda x: seen.append(x.body["topics"][0]["partitions"][0]["time"]) if x.api == "offset" else None
    c = SingleConsumer(cl.hosts)
    await c.connect()
    await c.consume("t", start=datetime.timedelta(0))
    assert seen[0] > 10 ** 9, seen
    await c.close()
run(work)
'''),
 dict(id="s17-known-positions-only", property="C17", needs="a topic that gets a new partition while it is being consumed",
      breaks="partitions added later are never fetched",
      edits=[("kiel/clients/consumer.py", "        for partition_id in self.allocation[topic]:\n",
              "        for partition_id in self.offsets.get(topic, self.allocation[topic]):\n")],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    from kv.broker import Partition
    cl.add_topic("t", [1])
    cl.part("t", 0).append([(None, b"1")])
    c = SingleConsumer(cl.hosts)
    await c.connect()
    assert await c.consume("t", start=c.BEGINNING) == [1]
    cl.topics["t"][1] = Partition(1, 1)
    cl.part("t", 1).append([(None, b"2")])
    await c.cluster.heal()
    assert await c.consume("t", start=c.BEGINNING) == [2]
    await c.close()
run(work)
'''),
 dict(id="s26-empty-bypasses", property="C26", needs="a message with an empty value",
      breaks="empty values are returned as they are without asking the deserializer",
      edits=[("kiel/clients/consumer.py", "                value = self.deserializer(msg.value)\n",
              "                value = msg.value and self.deserializer(msg.value)\n")],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    cl.part("t", 0).append([(None, b"1"), (None, b""), (None, b"2")])
    c = SingleConsumer(cl.hosts)
    await c.connect()
    r = await c.consume("t", start=c.BEGINNING)
    assert r == [1, 2], r
    await c.close()
run(work)
'''),
]
