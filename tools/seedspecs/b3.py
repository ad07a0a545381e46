"""Planted bugs of the grouped consumer, zookeeper and a few others."""
CN = "kiel/connection.py"; CU = "kiel/cluster.py"; CO = "kiel/clients/consumer.py"
SI = "kiel/clients/single.py"; PD = "kiel/clients/producer.py"; GR = "kiel/clients/grouped.py"; AL = "kiel/zookeeper/allocator.py"
PA = "kiel/zookeeper/party.py"; SS = "kiel/zookeeper/shared_set.py"

GROUPED = '''
import json
from kv.zk import ZK, until
zk = ZK()


def member(cl, **kw):
    from kiel.clients import GroupedConsumer
    c = GroupedConsumer(cl.hosts, "workers", zk.hosts, **kw)
    return c


def topic(cl, name, leaders, n=5, committed=2):
    cl.add_topic(name, leaders)
    for pid in range(len(leaders)):
        cl.part(name, pid).append([(None, b"%d" % (100 * pid + i)) for i in range(n)])
        cl.committed[("workers", name, pid)] = (committed, "x")
'''

CLIENTS = '''
import threading, time
from kazoo.client import KazooClient
from kv.zk import ZK, until
zk = ZK()


def client():
    c = KazooClient(hosts=",".join(zk.hosts))
    c.start()
    return c
'''

SEEDS = [
 dict(id="s18-loading-partly", property="C18", libs=("zk",),
      needs="an offset lookup spanning partitions of which only some are still being loaded by the coordinator",
      breaks="the partition whose offset was not loaded yet is consumed from offset 0 instead of its committed offset",
      edits=[(GR, '''                    " retrying offset fetch.", topic, partition.partition_id
                )
                retry = True
''', '''                    " retrying offset fetch.", topic, partition.partition_id
                )
                # nothing to go on with unless some partition is loaded
                retry = not self.offsets[topic]
''')],
      demo=GROUPED + '''
async def work(cl):
    topic(cl, "t", [1, 1])
    left = [2]
    def edit(body):
        if left[0]:
            left[0] -= 1
            body["topics"][0]["partitions"][-1].update(error_code=14, offset=-1)
        return body
    cl.plan = lambda x: Action(edit=edit) if x.api == "offset_fetch" else None
    c = member(cl)
    await c.connect()
    until(lambda: c.allocation.get("t"), 10)
    r = []
    for _ in range(3):
        r += await c.consume("t")
    assert sorted(r) == [2, 3, 4, 102, 103, 104], r
    await c.close()
run(work)
'''),
 dict(id="s19-metadata-of-last", property="C19", libs=("zk",),
      needs="a commit of several partitions of which one but not the last is answered with the metadata-too-large error",
      breaks="the commit is not retried with blank metadata (it is repeated with the same metadata for ever)",
      edits=[(GR, '''                elif code == errors.offset_metadata_too_large:
                    retry = True
                    adjust_metadata = True
''', '''                elif code == errors.offset_metadata_too_large:
                    retry = True
                    adjust_metadata = partition is topic.partitions[-1]
''')],
      demo=GROUPED + '''
async def work(cl):
    topic(cl, "t", [1, 1])
    seen = []
    def edit(body):
        if seen[-1]:
            body["topics"][0]["partitions"][0]["error_code"] = 12
        return body
    def plan(x):
        if x.api == "offset_commit":
            seen.append(x.body["topics"][0]["partitions"][0]["metadata"])
            assert len(seen) < 5, seen
            return Action(edit=edit)
    cl.plan = plan
    c = member(cl, autocommit=False)
    await c.connect()
    until(lambda: c.allocation.get("t"), 10)
    assert sorted(await c.consume("t")) == [2, 3, 4, 102, 103, 104]
    await c.commit_offsets("some note")
    assert seen == ["some note", ""], seen
    await c.close()
run(work)
'''),
 dict(id="s20-load-of-coordinator", property="C20", libs=("zk",),
      needs="a broker that answers the coordinator request with a retriable error other than 7, 15 and 16",
      breaks="the error is taken for fatal: other brokers are not asked and the consumer is left without a coordinator",
      edits=[(GR, '''        elif response.error_code in errors.retriable:
            self.heal_cluster = True
            determined = False
''', '''        elif response.error_code in (
                COORDINATOR_MOVED + (errors.request_timed_out,)
        ):
            self.heal_cluster = True
            determined = False
''')],
      demo=GROUPED + '''
async def work(cl):
    topic(cl, "t", [1, 2])
    left = [2]
    def edit(body):
        if left[0]:
            left[0] -= 1
            body.update(error_code=14)
        return body
    cl.plan = lambda x: Action(edit=edit) if x.api == "group_coordinator" else None
    c = member(cl)
    await c.connect()
    assert c.coordinator_id in cl.brokers, c.coordinator_id
    await c.close()
run(work, n=2)
'''),
 dict(id="s21-members-by-lower", property="C21", libs=(),
      needs="member names that differ in case only by their relative order",
      breaks="custom allocation functions are given members that are not sorted, tied names in an order that differs between processes",
      edits=[(AL, "        members = sorted(self.members)\n", "        members = sorted(self.members, key=lambda name: name.lower())\n")],
      demo='''
from kiel.zookeeper.allocator import PartitionAllocator
seen = []
al = PartitionAllocator(["127.0.0.1:1"], "g", "me", allocator_fn=lambda m, p: seen.append((list(m), list(p))) or {})
al.on_group_members_change(["w2", "a", "W2", "B"])
assert seen[-1][0] == ["B", "W2", "a", "w2"], seen
'''),
 dict(id="s21-remembered-deal", property="C21", libs=(),
      needs="the same members with as many, but other, partitions in one process",
      breaks="the default allocation depends on what was allocated before: partitions of the earlier call are handed out again",
      edits=[(GR, '''    mapping = collections.defaultdict(
        lambda: collections.defaultdict(list)
    )

    for member''', '''    key = (tuple(members), len(partitions))
    if key in dealt:
        return dealt[key]

    mapping = dealt[key] = collections.defaultdict(
        lambda: collections.defaultdict(list)
    )

    for member'''), (GR, "def naive_allocator(members, partitions):\n", "#: allocations by members and number of partitions\ndealt = {}\n\n\ndef naive_allocator(members, partitions):\n")],
      demo='''
from kiel.clients.grouped import naive_allocator
def plain(m):
    return {k: {t: list(p) for t, p in v.items()} for k, v in m.items()}
a = plain(naive_allocator(["a", "b"], ["t:0", "t:1"]))
b = plain(naive_allocator(["a", "b"], ["t:0", "u:5"]))
assert a == {"a": {"t": [0]}, "b": {"t": [1]}}, a
assert b == {"a": {"t": [0]}, "b": {"u": [5]}}, b
'''),
 dict(id="s22-quiet-when-empty", property="C22", libs=("zk",),
      needs="a rebalance that leaves a member with no partitions",
      breaks="a member that loses everything is not told, its rebalance callback does not fire",
      edits=[(AL, "        if self.on_rebalance:\n", "        if self.on_rebalance and self.allocation:\n")],
      demo='''
from kiel.zookeeper.allocator import PartitionAllocator
told = []
al = PartitionAllocator(["127.0.0.1:1"], "g", "me", allocator_fn=lambda m, p: {m[0]: {"t": [0]}}, on_rebalance=lambda: told.append(dict(al.allocation)))
al.on_group_members_change(["me"])
al.on_group_members_change(["another", "me"])
assert told == [{"t": [0]}, {}], told
'''),
 dict(id="s23-partial-removal", property="C23", libs=("zk",),
      needs="removing several partitions of which some are gone already",
      breaks="the partitions that are present are not removed either",
      edits=[(SS, "                if old_items.isdisjoint(existing_items):\n", "                if not old_items.issubset(existing_items):\n")],
      demo=CLIENTS + '''
from kiel.zookeeper import SharedSet
a = client()
seen = []
s = SharedSet(a, "/g/p", seen.append)
s.start()
s.add_items({"t:0", "t:1", "t:2"})
s.remove_items({"t:0", "t:9"})
assert until(lambda: seen and seen[-1] == {"t:1", "t:2"}, 3), seen
'''),
 dict(id="s23-known-version", property="C23", libs=("zk",),
      needs="the set's node deleted and created again, so that its version starts over",
      breaks="members are not notified of the recreated set's content until its version has caught up",
      edits=[(SS, '''        @self.client.DataWatch(self.path)
        def set_changed(data, _):
            if data is not None:
''', '''        latest = []

        @self.client.DataWatch(self.path)
        def set_changed(data, stat):
            if stat is not None:
                if latest and stat.version <= latest[-1]:  # nothing new
                    return
                latest[:] = [stat.version]

            if data is not None:
''')],
      demo=CLIENTS + '''
from kiel.zookeeper import SharedSet
a = client()
seen = []
def change(items):
    if items is None:
        a.create("/g/p", b"[]")
    else:
        seen.append(items)
s = SharedSet(a, "/g/p", change)
s.start()
for i in range(3):
    s.add_items({"t:%d" % i})
assert until(lambda: seen and len(seen[-1]) == 3, 3), seen
a.delete("/g/p", recursive=True)
until(lambda: a.exists("/g/p"), 3)
s.add_items({"t:7"})
assert until(lambda: seen and seen[-1] == {"t:7"}, 3), seen
'''),
 dict(id="s24-last-one-out", property="C24", libs=("zk",),
      needs="the last listed member leaving while another process watches the party",
      breaks="watchers keep the departed member listed",
      edits=[(PA, "            self.on_change(members)\n", "            if members:\n                self.on_change(members)\n")],
      demo=CLIENTS + '''
from kiel.zookeeper import Party
seen = []
w = Party(client(), "w", "/g/m", lambda m: seen.append(list(m)))
w.start()
p = Party(client(), "p", "/g/m", lambda m: None)
p.start()
p.join()
assert until(lambda: seen and seen[-1] == ["p"], 3), seen
p.leave()
assert until(lambda: seen[-1] == [], 3), seen
'''),
 dict(id="s24-owner-at-start", property="C24", libs=("zk",),
      needs="joining twice in a session that came after an expired one",
      breaks="the second join removes and re-creates the member's entry although it is owned already",
      edits=[(PA, "        elif znode.owner_session_id != self.client.client_id[0]:\n", "        elif znode.owner_session_id != (\n                self.client_id or self.client.client_id\n        )[0]:\n"),
             (PA, "        self.on_change = on_change\n", "        self.on_change = on_change\n\n        #: of the session that joined\n        self.client_id = None\n"),
             (PA, "            self.client.create(path, ephemeral=True, makepath=True)\n",
              "            self.client.create(path, ephemeral=True, makepath=True)\n            self.client_id = self.client_id or self.client.client_id\n")],
      demo=CLIENTS + '''
from kiel.zookeeper import Party
c = client()
p = Party(c, "p", "/g/m", lambda m: None)
p.start()
p.join()
old = zk.session_of(c)
zk.expire(old)
assert until(lambda: c.connected and zk.session_of(c) is not old and zk.session_of(c).alive, 10)
until(lambda: zk.session_of(c).conn, 5)
p.leave()
p.join()
n = len(zk.log)
p.join()
gone = [e for e in zk.log[n:] if e[2] == "delete"]
assert not gone, gone
'''),
 dict(id="s25-closing-unknown", property="C25", libs=(),
      needs="consuming a topic for the first time after close() was called",
      breaks="consume() of a closed client raises (or uses the brokers) instead of returning at once",
      edits=[(CO, '''        if self.closing:
            return

        if not self.allocation.get(topic):
            log.debug(''', '''        if self.closing and topic in self.synced_offsets:
            return

        if not self.allocation.get(topic):
            log.debug(''')],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    c = SingleConsumer(cl.hosts)
    await c.connect()
    await c.close()
    n = cl.requests
    assert not await c.consume("t")
    assert not await c.consume("other")
    assert cl.requests == n
run(work)
'''),
 dict(id="s25-no-way-out", property="C25", libs=("zk",),
      needs="closing a grouped consumer while its zookeeper connection is suspended",
      breaks="the zookeeper client goes on trying in the background and the member joins again once zookeeper is back",
      edits=[(GR, "        yield self.allocator.stop()\n", "        if self.allocator.connected.is_set():\n            yield self.allocator.stop()\n")],
      demo=GROUPED + '''
import time
async def work(cl):
    topic(cl, "t", [1])
    c = member(cl)
    await c.connect()
    s = zk.session_of(c.allocator.conn)
    zk.refuse = True
    zk.drop(s)
    assert until(lambda: not c.allocator.connected.is_set(), 5)
    try:
        await c.close()
    except Exception:
        pass
    zk.refuse = False
    time.sleep(1.5)
    assert not c.allocator.conn.connected
run(work)
'''),
 dict(id="s09-replica-of-topic", property="C09", libs=(),
      needs="a refresh answered with error 9 for a topic, with no further trouble",
      breaks="the refresh ends without the topic being known",
      edits=[(CU, '''            if topic.error_code == errors.replica_not_available:
                missing.add(topic.name)
                continue
''', '''            if topic.error_code == errors.replica_not_available:
                continue
''')],
      demo='''
async def work(cl):
    from kiel.cluster import Cluster
    cl.add_topic("t", [1]); cl.add_topic("u", [1])
    left = [2]
    def edit(body):
        if left[0]:
            left[0] -= 1
            for t in body["topics"]:
                if t["name"] == "u":
                    t.update(error_code=9, partitions=[])
        return body
    cl.plan = lambda x: Action(edit=edit) if x.api == "metadata" else None
    c = Cluster(cl.hosts)
    await c.start()
    assert dict(c.topics) == {"t": [0], "u": [0]}, c.topics
    c.stop()
run(work)
'''),
 dict(id="s10-moved-drops-rest", property="C10", libs=(),
      needs="a fetch response in which a partition that moved comes before partitions with messages",
      breaks="the messages of the partitions listed after the moved one are dropped",
      edits=[(CO, '''            elif code in errors.retriable:
                self.heal_cluster = True
            elif code == errors.offset_out''', '''            elif code in errors.retriable:
                self.heal_cluster = True
                if code == errors.not_partition_leader:
                    break  # metadata is reloaded, the rest comes next time
            elif code == errors.offset_out''')],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1, 1])
    for pid in (0, 1):
        cl.part("t", pid).append([(None, b"%d" % pid)])
    def edit(body):
        body["topics"][0]["partitions"].sort(key=lambda p: p["partition_id"])
        body["topics"][0]["partitions"][0].update(error_code=6, highwater_mark_offset=-1, message_set=b"")
        return body
    cl.plan = lambda x: Action(edit=edit) if x.api == "fetch" else None
    c = SingleConsumer(cl.hosts)
    await c.connect()
    assert await c.consume("t", start=c.BEGINNING) == [1]
    await c.close()
run(work)
'''),
 dict(id="s11-timed-out-tail", property="C11", libs=(),
      needs="a partition answering a produce request of several messages with the request-timed-out error",
      breaks="all but the last of the messages are dropped instead of being sent again",
      edits=[(PD, '''                    msgs = self.sent[response.correlation_id][topic.name].pop(
                        partition.partition_id
                    )
                    self.queue_retries(topic.name, msgs)
''', '''                    msgs = self.sent[response.correlation_id][topic.name].pop(
                        partition.partition_id
                    )
                    if code == errors.request_timed_out:
                        msgs = msgs[-1:]  # the rest was waited for already
                    self.queue_retries(topic.name, msgs)
''')],
      demo='''
async def work(cl):
    from kiel.clients import Producer
    cl.add_topic("t", [1])
    left = [1]
    def plan(x):
        if x.api == "produce" and left[0]:
            left[0] -= 1
            return Action(errors={("t", 0): 7})
    cl.plan = plan
    p = Producer(cl.hosts, batch_size=3)
    await p.connect()
    for i in range(3):
        await p.produce("t", i)
    await p.close()
    got = sorted(json_values(cl))
    assert got == [0, 1, 2], got
def json_values(cl):
    import json
    return [json.loads(v) for o, k, v in cl.part("t", 0).records()]
run(work)
'''),
 dict(id="s12-first-eight", property="C12", libs=(),
      needs="a topic with more than eight partitions, statistics over the partitions chosen by default",
      breaks="the default partitioner never chooses any but the first eight of a topic's partitions",
      edits=[(PD, "            return random.choice(partitions)\n", "            return random.choice(partitions[:8])  # plenty\n")],
      demo='''
async def work(cl):
    from kiel.clients import Producer
    cl.add_topic("t", [1] * 12)
    p = Producer(cl.hosts, batch_size=0)
    await p.connect()
    for i in range(600):
        await p.produce("t", i)
    await p.close()
    assert all(cl.part("t", pid).end for pid in range(12)), [cl.part("t", pid).end for pid in range(12)]
run(work)
'''),
 dict(id="s26-moves-on-late", property="C26", libs=(),
      needs="bad messages at the end of a fetched set",
      breaks="the position does not move past bad messages at the end, they are fetched again for ever",
      edits=[(CO, '''            if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
                self.offsets[topic_name][partition.partition_id] = offset + 1

''', ""), (CO, '''            messages.append(value)

        return messages''', '''            messages.append(value)
            if offset >= 0:
                self.offsets[topic_name][partition.partition_id] = offset + 1

        return messages''')],
      demo='''
async def work(cl):
    from kiel.clients import SingleConsumer
    cl.add_topic("t", [1])
    cl.part("t", 0).append([(None, b"1"), (None, b"not json"), (None, b"2"), (None, b"{")])
    asked = []
    def plan(x):
        if x.api == "fetch":
            asked.append(x.body["topics"][0]["partitions"][0]["offset"])
    cl.plan = plan
    c = SingleConsumer(cl.hosts)
    await c.connect()
    assert await c.consume("t", start=c.BEGINNING) == [1, 2]
    await c.consume("t")
    assert asked == [0, 4], asked
    await c.close()
run(work)
'''),
]
