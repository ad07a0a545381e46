"""Planted bugs of what goes through end to end and of failing zookeeper operations."""
import os, runpy
b3 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py"))
GROUPED, CO, GR, PD, AL, PA, SS = (b3[k] for k in ("GROUPED", "CO", "GR", "PD", "AL", "PA", "SS"))

PAIR = '''
import json


async def both(cl, kw={}):
    from kiel.clients import Producer, SingleConsumer
    cl.add_topic("t", [1])
    p, c = Producer(cl.hosts, **kw), SingleConsumer(cl.hosts)
    await p.connect()
    await c.connect()
    return p, c


async def read(c):
    got = []
    for _ in range(3):
        got += await c.consume("t", start=c.BEGINNING)
    return got
'''

REFUSING = '''
import json
from kv.zk import ZK, until
from kazoo.exceptions import NoAuthError
zk = ZK()


def allocator():
    from kiel.zookeeper.allocator import PartitionAllocator
    from kiel.clients.grouped import naive_allocator
    return PartitionAllocator(zk.hosts, "g", "me", allocator_fn=naive_allocator)


def refuse(*which):
    zk.hook = lambda s, op, path: -102 if any(op == o and path.startswith(p) for o, p in which) else None
'''

SEEDS = [
 dict(id="s31-same-twice", property="C31", libs=(),
      needs="the same value produced twice while the first is still pending (a batch size above one)",
      breaks="a message equal to a pending one is taken for a repetition and dropped",
      edits=[(PD, '''        self.unsent[topic].append(
            messages.Message(
                magic=0,
                attributes=0,
                key=self.key_maker(message),
                value=self.serializer(message)
            )
        )
''', '''        pending = messages.Message(
            magic=0,
            attributes=0,
            key=self.key_maker(message),
            value=self.serializer(message)
        )
        if pending not in self.unsent[topic]:
            self.unsent[topic].append(pending)
''')],
      demo=PAIR + '''
async def work(cl):
    p, c = await both(cl, {"batch_size": 4})
    for v in ("tick", "tock", "tick"):
        await p.produce("t", v)
    await p.close()
    got = await read(c)
    assert got == ["tick", "tock", "tick"], got
    await c.close()
run(work)
'''),
 dict(id="s31-raw-text", property="C31", libs=(),
      needs="a value with text that has no UTF-8 form, such as half of a surrogate pair",
      breaks="what produce() accepted cannot be encoded when it is flushed, and what is pending with it is lost",
      edits=[(PD, "            return json.dumps(message, sort_keys=True)\n", "            return json.dumps(message, sort_keys=True, ensure_ascii=False)\n")],
      demo=PAIR + '''
async def work(cl):
    p, c = await both(cl, {"batch_size": 3})
    values = ["\\u00e9t\\u00e9 \\U0001f600", {"cut": "caf\\u00e9 \\ud83d"}, 3]
    for v in values:
        await outcome(p.produce("t", v))
    await outcome(p.flush())
    got = await read(c)
    assert got == values, got
run(work)
'''),
 dict(id="s31-remembered", property="C31", libs=(),
      needs="two messages of equal content, and an application that changes the first value it was given",
      breaks="equal messages share one deserialized object, the second one is returned with the changes made to the first",
      edits=[(CO, "        self.deserializer = deserializer or json.loads\n", "        self.deserializer = deserializer or json.loads\n        self.deserialized = {}\n"),
             (CO, "                value = self.deserializer(msg.value)\n",
              "                # the same few messages tend to be repeated a lot\n                if msg.value not in self.deserialized:\n                    if len(self.deserialized) > 99:\n                        self.deserialized.clear()\n"
              "                    self.deserialized[msg.value] = self.deserializer(\n                        msg.value\n                    )\n                value = self.deserialized[msg.value]\n")],
      demo=PAIR + '''
async def work(cl):
    p, c = await both(cl)
    got = []
    for v in ({"n": 1}, {"n": 2}, {"n": 1}):
        await p.produce("t", v)
        for x in await c.consume("t", start=c.BEGINNING):
            got.append(json.dumps(x))
            x["seen"] = True
    assert got == ['{"n": 1}', '{"n": 2}', '{"n": 1}'], got
    await p.close()
    await c.close()
run(work)
'''),
 dict(id="s32-leave-any", property="C32", libs=("zk",),
      needs="zookeeper refusing the deletion of the member's entry",
      breaks="stop() reports success although leaving failed",
      edits=[(PA, "        except exceptions.NoNodeError:\n            pass\n", "        except exceptions.ZookeeperError:\n            # gone, or about to go together with the session\n            pass\n")],
      demo=REFUSING + '''
async def work(cl):
    a = allocator()
    assert a.start({"t": [0]}).exception() is None
    refuse(("delete", "/kiel/groups/g/members"))
    e = a.stop().exception()
    assert isinstance(e, NoAuthError), e
    zk.hook = None
run(work)
'''),
 dict(id="s32-not-added", property="C32", libs=("zk",),
      needs="zookeeper refusing to let the shared set be written while joining or updating",
      breaks="joining and updating report success, the partitions are in nobody's share",
      edits=[(AL, "        self.shared_set.add_items(new_partitions)\n",
              "        try:\n            self.shared_set.add_items(new_partitions)\n        except client.KazooException:\n            # another member has them added as well\n            log.exception(\"Could not add partitions.\")\n")],
      demo=REFUSING + '''
async def work(cl):
    refuse(("set", "/kiel/groups/g/partitions"))
    a = allocator()
    e = a.start({"t": [0]}).exception()
    zk.hook = None
    assert isinstance(e, NoAuthError), e
    a.stop()
run(work)
'''),
]
