SEEDS = [
 dict(id="s06-small-read-buffer", property="C06", needs="a response of more than one megabyte",
      breaks="a large but valid response kills the connection and fails the request",
      edits=[("kiel/connection.py", "        self.stream = iostream.IOStream(sock)\n",
              "        # responses are bounded by the consumers' max_bytes\n        self.stream = iostream.IOStream(sock, max_buffer_size=1024 * 1024)\n")],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    text = "x" * (1500 * 1024)
    cl.part("t", 0).append([(None, b'"%s"' % text.encode())])
    c = SingleConsumer(cl.hosts, max_bytes=4 * 1024 * 1024)
    await c.connect()
    r = await c.consume("t", start=c.BEGINNING)
    assert r == [text], r
    await c.close()
run(work)
'''),
 dict(id="s07-narrow-except", property="C07", needs="a fetch response whose compressed message cannot be decompressed",
      breaks="the read loop dies without failing the outstanding requests or closing the connection",
      edits=[("kiel/connection.py", """        except Exception:
            if not self.closing:
                log.exception(failure_message)
            self.abort()
""", """        except (LookupError, ValueError, TypeError, struct.error):
            if not self.closing:
                log.exception(failure_message)
            self.abort()
""")],
      demo='''
async def work(cl):
    from kiel.connection import Connection
    from kiel.protocol import fetch
    cl.add_topic("t", [1])
    def edit(body):
        body["topics"][0]["partitions"][0]["message_set"] = wire.entry(0, wire.message(None, b"\\xff\\xfe no gzip stream", codec=1))
        return body
    cl.plan = lambda x: Action(edit=edit)
    c = Connection("127.0.0.1", cl.brokers[1].port)
    await c.connect()
    f = c.send(fetch.FetchRequest(replica_id=-1, max_wait_time=1, min_bytes=1, topics=[fetch.TopicRequest(name="t", partitions=[
        fetch.PartitionRequest(partition_id=0, offset=0, max_bytes=1000)])]))
    await settle(cl, 5)
    assert f.done() and f.exception() is not None and c.closing
run(work)
'''),
 dict(id="s17-leader-zero", property="C17", needs="a partition led by the broker with id 0",
      breaks="partitions led by broker 0 are never fetched",
      edits=[("kiel/clients/consumer.py", "            ordered[leader].append(partition_id)\n",
              "            if leader:\n                ordered[leader].append(partition_id)\n")],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [0, 1])
    c = SingleConsumer(cl.hosts)
    await c.connect()
    for pid in (0, 1):
        cl.part("t", pid).append([(None, b"%d" % pid)])
    r = []
    for _ in range(4):
        r += await c.consume("t", start=c.BEGINNING)
    assert sorted(r) == [0, 1], r
    await c.close()
run(work, ids=[0, 1])
'''),
]
