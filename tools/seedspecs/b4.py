"""Planted bugs of groups as a whole and of clients that lost all brokers."""
import os, runpy
b3 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py"))
GROUPED, CU, CO, GR = (b3[k] for k in ("GROUPED", "CU", "CO", "GR"))

SEEDS = [
 dict(id="s28-closed-meanwhile", property="C28", libs=("zk",),
      needs="close() called while a consume() call waits for its automatic commit to be answered",
      breaks="the messages were committed but are returned to nobody, the next holder of the partition starts behind them",
      edits=[(GR, "        raise gen.Return(result)\n", "        if self.closing:  # not ours anymore\n            return\n\n        raise gen.Return(result)\n")],
      demo=GROUPED + '''
async def work(cl):
    topic(cl, "t", [1])
    c = member(cl)
    await c.connect()
    until(lambda: c.allocation.get("t"), 10)
    cl.plan = lambda x: Action(delay=.05) if x.api == "offset_commit" else None
    call = asyncio.ensure_future(c.consume("t"))
    while not cl.per_api.get("offset_commit"):
        await asyncio.sleep(.001)
    await c.close()
    got = await call
    assert cl.committed[("workers", "t", 0)][0] == 5
    assert got == [2, 3, 4], got
run(work)
'''),
 dict(id="s29-started-already", property="C29", libs=(),
      needs="all brokers lost and back again, then connect()",
      breaks="connect() succeeds without contacting anybody, the client stays without connections",
      edits=[(CU, "        response = None\n\n        for host in self.bootstrap_hosts:\n", "        if self.conns:  # started already\n            return\n\n        response = None\n\n        for host in self.bootstrap_hosts:\n")],
      demo='''
async def work(cl):
    from kiel.clients import Producer
    cl.add_topic("t", [1])
    p = Producer(cl.hosts)
    await p.connect()
    await p.produce("t", 1)
    cl.brokers[1].stop()
    await settle(cl)
    cl.brokers[1].start()
    await p.connect()
    await p.produce("t", 2)
    assert [v for o, k, v in cl.part("t", 0).records()] == [b"1", b"2"]
    await p.close()
run(work)
'''),
 dict(id="s29-dead-hosts", property="C29", libs=(),
      needs="an attempt to connect while the bootstrap hosts are down, and another one once they are up",
      breaks="hosts that failed once are never tried again, connecting fails for good",
      edits=[(CU, "        for host in self.bootstrap_hosts:\n            if", "        for host in list(self.bootstrap_hosts):\n            if"),
             (CU, '''                log.warn("Could not connect to bootstrap %s:%s", host, port)
                continue
''', '''                log.warn("Could not connect to bootstrap %s:%s", host, port)
                self.dead_hosts.add((host, port))
                continue
'''), (CU, "            conn = Connection(host, int(port))\n", "            if (host, port) in self.dead_hosts:\n                continue\n\n            conn = Connection(host, int(port))\n"),
             (CU, "        self.bootstrap_hosts = bootstrap_hosts\n", "        self.bootstrap_hosts = bootstrap_hosts\n        self.dead_hosts = set()\n")],
      demo='''
async def work(cl):
    from kiel.clients import Producer
    cl.add_topic("t", [1])
    p = Producer(cl.hosts)
    cl.brokers[1].stop()
    k, v = await outcome(p.connect())
    assert k == "err", v
    cl.brokers[1].start()
    await p.connect()
    await p.produce("t", 2)
    assert [v for o, k, v in cl.part("t", 0).records()] == [b"2"]
    await p.close()
run(work)
'''),
 dict(id="s29-starts-over", property="C29", libs=(),
      needs="a consumer that has consumed already connecting again",
      breaks="its positions are determined anew, a single consumer skips what arrived meanwhile or repeats everything",
      edits=[(CO, "    @property\n    def allocation(self):\n", '''    @gen.coroutine
    def connect(self):
        """
        Offsets known from an earlier connection are of no use.
        """
        self.synced_offsets.clear()
        yield super(BaseConsumer, self).connect()

    @property
    def allocation(self):
''')],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    cl.part("t", 0).append([(None, b"1"), (None, b"2")])
    c = SingleConsumer(cl.hosts)
    await c.connect()
    assert await c.consume("t", c.BEGINNING) == [1, 2]
    cl.brokers[1].stop()
    await settle(cl)
    cl.brokers[1].start()
    cl.part("t", 0).append([(None, b"3")])
    await c.connect()
    assert await c.consume("t", c.BEGINNING) == [3]
    await c.close()
run(work)
'''),
]
CN = "kiel/connection.py"
SEEDS += [
 dict(id="s30-correlations-kept", property="C30", libs=(),
      needs="many requests over one connection that stays open",
      breaks="an entry per answered request stays in the connection for as long as it lives",
      edits=[(CN, "        api = self.api_correlation.pop(correlation_id)\n", "        api = self.api_correlation[correlation_id]\n")],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    c = SingleConsumer(cl.hosts)
    await c.connect()
    for _ in range(200):
        await c.consume("t")
    n = len(c.cluster.conns[1].api_correlation)
    assert n < 20, n
    await c.close()
run(work)
'''),
 dict(id="s30-unknown-positions", property="C30", libs=(),
      needs="consuming ever new topics that do not exist",
      breaks="an entry per unknown topic stays in the consumer for ever",
      edits=[(CO, "        if not self.allocation.get(topic):\n            log.debug(", "        offsets = self.offsets[topic]\n\n        if not self.allocation.get(topic):\n            log.debug("),
             (CO, "                            offset=self.offsets[topic][partition_id],\n", "                            offset=offsets[partition_id],\n"),
             (CO, "        requests = {}\n", "        offsets = self.offsets[topic]\n        requests = {}\n")],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    c = SingleConsumer(cl.hosts)
    await c.connect()
    for i in range(100):
        assert await c.consume("no%d" % i) == []
    assert len(c.offsets) < 10, len(c.offsets)
    await c.close()
run(work)
'''),
]
