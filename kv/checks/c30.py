import asyncio
import collections
import gc
import inspect
import json
import logging
import sys
import threading
import types

from kv.world import Action, outcome, settle, simulate
from .grp import Group
from .zkc import PATIENCE, until, zk_case

ID = "C30"
LEVEL = "exploration"
QUICK, THOROUGH = 260, 4000
RULE = ("a producer, single consumer or grouped consumer (real kazoo) carries out 260 operations (overlapping produce, flush, consume, commit and connect calls, also on "
        "ever new unknown topics, undecodable messages, rebalances, session expiries) in 7 blocks while requests meet every kind of error, connections are lost and leaders, brokers and the coordinator "
        "move; after each block, with everything settled and refreshed, all objects reachable from the client and from kiel's module globals, the bytes in them, kiel's live objects, tasks, timers, "
        "sockets, threads, zookeeper watches and listeners are counted; monitor: none of these is larger at the end (least of blocks 6-7) than at the beginning (most of blocks 2-3) but for a slack far below "
        "one per operation; distinct non-trivial = distinct (workload, readings)")
NEED = {"operations": 20000, "readings": 900, "faults": 5000, "reconnects": 200, "unknown_topics": 500, "rebalances": 500, "expired": 20, "bad_messages": 1000}
BLOCKS, OPS = 7, 40
SLACK = {"objects": 16, "bytes": 400, "kiel objects": 12, "tasks": 2, "timers": 2, "sockets": 0, "threads": 2, "zookeeper watches": 3}
SKIP = (types.ModuleType, type, types.BuiltinFunctionType, types.CodeType, types.FrameType, types.GeneratorType, logging.Logger)
ATOMS = (int, float, str, bytes, bool, type(None), complex)
DROPS = ("drop_before", "drop_after", "reset_before", "reset_after", "partial")


def size_of(roots):
    """(number of objects and entries, bytes) reachable in the client's own state, and a breakdown by type."""
    seen, todo = set(), list(roots)
    n, octets, by = 0, 0, collections.Counter()
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        mod = type(o).__module__
        if isinstance(o, SKIP) or mod.startswith(("kv.", "kazoo", "threading", "_thread", "selectors", "asyncio.sel", "asyncio.unix", "random")):
            continue
        if isinstance(o, asyncio.AbstractEventLoop):
            continue
        n += 1
        by[mod + "." + type(o).__name__] += 1
        if isinstance(o, (str, bytes, bytearray)):
            octets += len(o)
            continue
        if isinstance(o, ATOMS):
            continue
        if isinstance(o, types.FunctionType):
            todo += [c.cell_contents for c in o.__closure__ or () if not empty(c)]
            todo += list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values()) + list(vars(o).values())
            continue
        if isinstance(o, dict):
            if "__builtins__" in o and "__name__" in o and o is not sys.modules:
                continue                              # a module's globals
            n += len(o)
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            n += len(o)
        todo += gc.get_referents(o)
    return n, octets, by


def empty(cell):
    try:
        cell.cell_contents
        return False
    except ValueError:
        return True


def roots_of(client):
    out = [client]
    for name, mod in sorted(sys.modules.items()):
        if name == "kiel" or name.startswith("kiel."):
            for k, v in list(vars(mod).items()):
                if k.startswith("__") or isinstance(v, types.ModuleType):
                    continue
                if inspect.isclass(v):
                    if v.__module__.startswith("kiel"):
                        out += [x for k, x in sorted(vars(v).items()) if k not in ("__dict__", "__weakref__", "__doc__", "__module__")]
                else:
                    out.append(v)
    return out


class Meter(object):
    def __init__(self, ctx, cl, client):
        self.ctx, self.cl, self.client, self.rows = ctx, cl, client, []

    def read(self):
        gc.collect()
        n, octets, by = size_of(roots_of(self.client))
        row = {"objects": n, "bytes": octets, "tasks": len(asyncio.all_tasks()),
               "kiel objects": sum(1 for o in gc.get_objects() if type(o).__module__.startswith("kiel.")),
               "timers": len([h for h in getattr(self.cl.loop, "_scheduled", ()) if not h.cancelled()]),
               "sockets": len(self.cl.open_conns())}
        if hasattr(self.client, "allocator"):
            conn = self.client.allocator.conn
            row["threads"] = threading.active_count()
            row["zookeeper watches"] = len(conn.state_listeners) + sum(len(v) for w in (conn._data_watchers, conn._child_watchers) for v in w.values())
        self.rows.append((row, by))
        self.ctx.count("readings")

    def judge(self):
        early, late = self.rows[1:3], self.rows[-2:]
        for k, slack in SLACK.items():
            if k not in self.rows[0][0]:
                continue
            a, b = max(r[0][k] for r in early), min(r[0][k] for r in late)
            grown = sorted(((t, early[1][1][t], late[1][1][t]) for t in late[1][1] if late[1][1][t] > early[1][1][t]), key=lambda x: x[1] - x[2])
            self.ctx.check(b <= a + slack, "%s: %d after 3 blocks of operations, %d after %d: %r (%r)", k, a, b, BLOCKS, [r[0][k] for r in self.rows], grown[:6])
        self.ctx.sig(type(self.client).__name__, [sorted(r[0].items()) for r in self.rows])
        self.ctx.sample({"client": type(self.client).__name__, "readings": [r[0] for r in self.rows]})


class Faults(object):
    """Anything that can go wrong with a request, at a given rate, while armed."""

    def __init__(self, rng, ctx, cl, anchor):
        self.ctx = ctx
        self.rng, self.cl, self.anchor = rng, cl, anchor
        self.armed, self.rate = False, rng.choice((.1, .3, .6))

    def plan(self, x):
        rng = self.rng
        a = Action(delay=rng.choice((0, 0, .002)))
        if not self.armed or rng.random() > self.rate:
            return a
        self.ctx.count("faults")
        if x.broker.id != self.anchor and rng.random() < .35:
            a.mode, a.cut = rng.choice(DROPS), rng.randrange(80)
        elif x.api in ("produce", "fetch", "offset"):
            for t in x.body["topics"]:
                for p in t["partitions"]:
                    if rng.random() < .5:
                        codes = (2, 3, 5, 6, 7) if x.api == "offset" else (2, 3, 5, 6, 7, -1, 4, 10, 1) if x.api == "fetch" else (2, 3, 5, 6, 7, -1, 10, 29)
                        a.errors[(t["name"], p["partition_id"])] = rng.choice(codes)
        elif x.api == "offset_commit":
            a.errors["*"] = rng.choice((14, 15, 16, 7, 12, 28))
        elif x.api == "offset_fetch":
            a.errors["*"] = rng.choice((14, 15, 16, 7))
        elif x.api == "group_coordinator":
            a.error = rng.choice((15, 16, 7))
        return a

    def disturb(self):
        rng, cl = self.rng, self.cl
        r = rng.random()
        if r < .4:
            for t in cl.topics.values():
                for q in t.values():
                    q.leader = rng.choice(list(cl.brokers))
        elif r < .8:
            b = cl.brokers[rng.choice(list(cl.brokers))]
            if b.id != self.anchor:
                b.stop(rng.random() < .5)
                b.start()
        else:
            cl.coordinator = rng.choice(list(cl.brokers))


async def measured(rng, ctx, cl, client, f, operation, quiet):
    meter = Meter(ctx, cl, client)
    rate = rng.choice((.05, .2))
    done = 0
    for block in range(BLOCKS):
        f.armed = True
        todo = []
        for _ in range(OPS if block else OPS // 2):
            if rng.random() < rate:
                f.disturb()
            todo.append(asyncio.ensure_future(operation()))
            if rng.random() < .6:
                await asyncio.gather(*todo)
                todo = []
            done += 1
        await asyncio.gather(*todo)
        del todo
        f.armed = False
        await quiet()
        await client.cluster.heal()
        await quiet()
        await settle(cl, 5)
        meter.read()
    ctx.count("operations", done)
    return meter


def producing(rng, ctx):
    async def work(cl):
        from kiel.clients import Producer
        cl.max_requests = 20000
        ids = list(cl.brokers)
        for i in range(rng.choice((1, 2))):
            cl.add_topic("t%d" % i, [rng.choice(ids) for _ in range(rng.choice((1, 3)))])
        p = Producer(cl.hosts, batch_size=rng.choice((0, 1, 3)), compression=rng.choice((None, 1, 2)))
        await p.connect()
        f = Faults(rng, ctx, cl, ids[0])
        cl.plan = f.plan
        n = [0]

        async def operation():
            n[0] += 1
            r = rng.random()
            if r < .85:
                await outcome(p.produce(rng.choice(sorted(cl.topics)), {"n": n[0], "x": "y" * rng.choice((0, 50))}))
            elif r < .93:
                ctx.count("unknown_topics")
                await outcome(p.produce("unknown%d" % n[0], n[0]))
            elif r < .95:
                ctx.count("reconnects")
                await p.connect()
            else:
                await outcome(p.flush())

        async def quiet():
            for _ in range(20):
                await p.flush()
                if not p.unsent_count:
                    break
            ctx.check(not p.unsent_count, "%d messages are still pending", p.unsent_count)
        meter = await measured(rng, ctx, cl, p, f, operation, quiet)
        await p.close()
        meter.judge()
    simulate(ctx, work, rng.choice((1, 2, 3)))


def reading(rng, ctx):
    async def work(cl):
        from kiel.clients import SingleConsumer
        cl.max_requests = 20000
        ids = list(cl.brokers)
        for i in range(rng.choice((1, 2))):
            cl.add_topic("t%d" % i, [rng.choice(ids) for _ in range(rng.choice((1, 3)))])
        c = SingleConsumer(cl.hosts)
        await c.connect()
        f = Faults(rng, ctx, cl, ids[0])
        cl.plan = f.plan
        n = [0]
        busy = set()

        async def operation():
            n[0] += 1
            t = rng.choice(sorted(cl.topics)) if rng.random() < .9 else "unknown%d" % n[0]
            ctx.count("unknown_topics", t not in cl.topics)
            ctx.count("bad_messages")
            if rng.random() < .03:
                ctx.count("reconnects")
                await c.connect()
            for q in cl.topics.get(t, {}).values():
                for _ in range(rng.choice((0, 1, 1))):
                    q.append([(None, rng.choice((b"%d" % n[0], b"{", b'"abc"'))) for _ in range(rng.choice((1, 3)))], rng.choice((0, 0, 1, 2)))
            if t in busy:
                return
            busy.add(t)
            await outcome(c.consume(t, c.BEGINNING))
            busy.discard(t)

        async def quiet():
            for t in sorted(cl.topics):
                for _ in range(3):
                    await c.consume(t, c.BEGINNING)
        meter = await measured(rng, ctx, cl, c, f, operation, quiet)
        await c.close()
        meter.judge()
    simulate(ctx, work, rng.choice((1, 2, 3)))


@zk_case()
def grouped(rng, ctx, zk):
    async def work(cl):
        g = Group(rng, ctx, zk, cl, topics=rng.choice((1, 2)), autocommit=rng.random() < .7)
        g.custom = False
        c = g.c
        cl.on_request = cl.on_sent = None
        cl.max_requests = 30000
        f = Faults(rng, ctx, cl, g.ids[0])
        cl.plan = f.plan
        await c.connect()
        g.joined()
        busy = set()
        n = [0]

        async def operation():
            n[0] += 1
            r = rng.random()
            if r < .1:
                await outcome(c.commit_offsets(rng.choice((None, "note"))))
                return
            if r < .11 and not busy:
                s = zk.session_of(c.allocator.conn)
                if s is not None and s.alive:
                    ctx.count("expired")
                    zk.expire(s)
                    ok = until(lambda: c.allocator.conn.connected and zk.session_of(c.allocator.conn) not in (None, s) and c.name in g.state()[0], PATIENCE)
                    ctx.check(ok, "an expired member does not join again")
                return
            if r < .2:
                del g.calls[:], g.epochs[:-1], g.label[:]
                g.rebalance()
                return
            t = rng.choice(g.names)
            for q in cl.topics[t].values():
                for _ in range(rng.choice((0, 1, 3))):
                    q.append([(None, b"%d" % n[0])])
            if t in busy:
                return
            busy.add(t)
            await outcome(c.consume(t))
            busy.discard(t)

        def alone():
            for m in g.state()[0]:
                if m != c.name:
                    zk.remove("/kiel/groups/workers/members/" + m)
            zk.put("/kiel/groups/workers/partitions", json.dumps(sorted("%s:%d" % (t, p) for t in g.names for p in cl.topics[t])).encode())

        async def quiet():
            g.rebalance(alone)
            del g.calls[:], g.epochs[:-1], g.label[:]
            for t in g.names:
                for _ in range(3):
                    await c.consume(t)
            await c.commit_offsets()
        meter = await measured(rng, ctx, cl, c, f, operation, quiet)
        await g.close()
        meter.judge()
    simulate(ctx, work, rng.choice((1, 2, 3)))


SCENARIOS = [(4, producing), (4, reading), (2, grouped)]
