import asyncio
import json

from kv.world import Action, outcome, settle, simulate
from .cons import Logs, Tracker
from .grp import GROUP, Group
from .prod import Ledger
from .zkc import zk_case

ID = "C29"
LEVEL = "exploration"
QUICK, THOROUGH = 1100, 20000
RULE = ("a producer, a single consumer or a grouped consumer (the last with real kazoo) works on 1-3 topics over 1-4 brokers; one or more times all brokers go away (closing or "
        "resetting their connections, at any point of calls under way), are called upon meanwhile, and come back - some of them only, with leaders and coordinator moved - "
        "and the client is connected again, possibly with calls under way or more often than needed; monitors: every call ends, connecting without brokers is refused with the no-brokers "
        "error, then leaves one connection to each broker; the producer's accepted messages get acknowledged once flushed, none is sent again needlessly; a consumer's "
        "values go on exactly where they ended; distinct non-trivial = distinct histories")
NEED = {"outages": 700, "calls_meanwhile": 700, "refused_connects": 200, "raised": 500, "reconnected": 1000, "delivered": 2500, "returned": 4000,
        "needless_connects": 200, "struck_calls": 500, "committed_on": 200}
ASSUMPTIONS = ("connect() is what brings a client back that lost all its connections",)


class Cluster(object):
    """All brokers going and coming."""

    def __init__(self, rng, ctx, cl, client, log):
        self.rng, self.ctx, self.cl, self.client, self.log = rng, ctx, cl, client, log
        self.ids, self.out = list(cl.brokers), False
        self.slow = 0

    def plan(self, x):
        return Action(delay=self.rng.choice((0, 0, .002, self.slow)))

    def down(self):
        self.ctx.count("outages")
        self.log.append("down")
        self.out = True
        for b in self.cl.brokers.values():
            b.stop(self.rng.random() < .5)

    def up(self):
        rng, cl = self.rng, self.cl
        self.out = False
        back = self.ids if rng.random() < .6 else rng.sample(self.ids, rng.randrange(1, len(self.ids) + 1))
        for i in self.ids:
            if i in back:
                cl.brokers[i].start()
        for t in cl.topics.values():
            for q in t.values():
                if q.leader not in back or rng.random() < .3:
                    q.leader = rng.choice(back)
        if cl.coordinator not in back or rng.random() < .3:
            cl.coordinator = rng.choice(back)
        self.log.append(("up", len(back)))

    async def refused(self):
        from kiel.exc import NoBrokersError
        k, v = await outcome(self.client.connect())
        self.ctx.check(k == "err" and isinstance(v, NoBrokersError), "after %r: connecting without brokers gave %s %r", self.log[-6:], k, v)
        self.ctx.count("refused_connects")
        self.log.append("refused")

    async def connect(self, needed=True):
        k, v = await outcome(self.client.connect())
        self.ctx.check(k == "ok", "after %r: connect() raised %r although %d brokers are there", self.log[-6:], v,
                       len([b for b in self.cl.brokers.values() if b.up]))
        self.ctx.count("reconnected" if needed else "needless_connects")
        self.log.append("connected")

    async def connections(self):
        """One to each broker, nothing is left of earlier ones."""
        await settle(self.cl, 3)
        for b in self.cl.brokers.values():
            n = len([c for c in b.conns if not c.closed])
            self.ctx.check(n == int(b.up), "after %r: %d connections to broker %d, which is %s", self.log[-6:], n, b.id, "up" if b.up else "down")

    async def struck(self, futs):
        """All brokers go while these calls are under way."""
        if self.rng.random() < .3:
            await asyncio.sleep(self.rng.choice((.0005, .002, .004)))
        else:
            for _ in range(self.rng.randrange(25)):
                await asyncio.sleep(0)
        self.ctx.count("struck_calls", sum(not f.done() for f in futs))
        self.down()


def producing(rng, ctx):
    async def work(cl):
        from kiel.clients import Producer
        from kiel.exc import NoBrokersError
        led = Ledger(ctx, cl)
        names = ["t%d" % i for i in range(rng.choice((1, 2, 3)))]
        for n in names:
            cl.add_topic(n, [rng.choice(list(cl.brokers)) for _ in range(rng.choice((1, 2, 4) * 5 + (14,)))])

        def ser(m):
            if m["u"] not in led.topic:
                led.accepted.append(m["u"])
                led.topic[m["u"]] = m["t"]
            return json.dumps(m)
        hosts = cl.hosts
        p = Producer(hosts, serializer=ser, batch_size=rng.choice((0, 1, 1, 2, 5)), compression=rng.choice((None, None, 1, 2)))
        log, uid, taken = [], [0], set()
        w = Cluster(rng, ctx, cl, p, log)
        cl.plan = w.plan

        def produce_call():
            t = rng.choice(names)
            uid[0] += 1
            log.append("produce")
            return asyncio.ensure_future(produce(uid[0], t))

        async def produce(u, t):
            k, v = await outcome(p.produce(t, {"u": u, "t": t}))
            if k == "ok":
                taken.add(u)
            return k, v

        def any_call():
            if rng.random() < .75:
                return produce_call()
            log.append("flush")
            return asyncio.ensure_future(outcome(p.flush()))

        async def ended(futs, struck):
            for f in futs:
                k, v = await f
                if k == "err":
                    ctx.count("raised")
                    ctx.check(struck and isinstance(v, NoBrokersError), "after %r: a call raised %r", log[-6:], v)
        if rng.random() < .15:
            w.down()
            await w.refused()
            w.up()
        await w.connect()
        for turn in range(rng.choice((1, 2, 3))):
            for _ in range(rng.randrange(5)):
                await ended([any_call() for _ in range(rng.choice((1, 1, 3)))], False)
            if rng.random() < .2:
                futs = [any_call() for _ in range(rng.randrange(3))]
                await w.connect(False)
                await ended(futs, False)
            w.slow = rng.choice((0, .003))
            futs = [any_call() for _ in range(rng.choice((0, 1, 2, 4)))]
            await w.struck(futs)
            if rng.random() < .5:
                await ended(futs, True)
                futs = []
            for _ in range(rng.randrange(4)):
                ctx.count("calls_meanwhile")
                futs.append(any_call())
                if rng.random() < .7:
                    await ended([futs.pop()], True)
                if rng.random() < .3:
                    await w.refused()
            w.up()
            await w.connect()
            w.slow = 0
            futs += [any_call() for _ in range(rng.randrange(3))]
            await ended(futs, True)
            await settle(cl, 1)
            led.quiescent(p, "after %r" % log[-6:])
        await w.connections()
        for _ in range(3 + len(led.accepted)):
            k, v = await outcome(p.flush())
            ctx.check(k == "ok", "after %r: flush() raised %r", log[-6:], v)
            if not p.unsent_count:
                break
        led.quiescent(p, "after %r and flushing" % log[-6:])
        # those that raised may have found their topic unknown halfway through a refresh
        ctx.check(taken <= set(led.accepted), "after %r: produce() returned without taking %r", log[-6:], sorted(taken - set(led.accepted)))
        led.delivered("after %r and flushing" % log[-6:])
        ctx.count("delivered", len(led.accepted))
        k, v = await outcome(p.close())
        ctx.check(k == "ok", "close() raised %r", v)
        ctx.sig(log)
        ctx.sample({"history": log[:12], "messages": uid[0]})
    simulate(ctx, work, rng.choice((1, 2, 3, 4)))


def reading(rng, ctx):
    async def work(cl):
        from kiel.clients import SingleConsumer
        from kiel.exc import NoBrokersError
        logs = Logs(ctx, cl, rng)
        logs.big = False
        names = ["t%d" % i for i in range(rng.choice((1, 2)))]
        for n in names:
            cl.add_topic(n, [rng.choice(list(cl.brokers)) for _ in range(rng.choice((1, 2, 4) * 5 + (14,)))])
            for pid in cl.topics[n]:
                logs.fill(n, pid, rng.choice((0, 3, 12)))
        track = Tracker(ctx, logs)
        for n in names:
            track.begin(n, {pid: 0 for pid in cl.topics[n]})
        c = SingleConsumer(cl.hosts, max_bytes=rng.choice((1000 * max(len(t) for t in cl.topics.values()), 1024 * 1024)))
        logs.short = True
        log = []
        w = Cluster(rng, ctx, cl, c, log)
        cl.plan = w.plan

        async def consume(t):
            log.append("consume")
            k, v = await outcome(c.consume(t, c.BEGINNING))
            if k == "ok":
                track.take(t, v, "after %r" % log[-6:])
            else:
                ctx.count("raised")
                ctx.check(isinstance(v, NoBrokersError), "after %r: consume() raised %r", log[-6:], v)
            return k

        async def ended(futs, struck):
            for f in futs:
                k = await f
                ctx.check(k == "ok" or struck, "after %r: consume() raised", log[-6:])
        if rng.random() < .15:
            w.down()
            await w.refused()
            w.up()
        await w.connect()
        for turn in range(rng.choice((1, 2, 3))):
            for n in names:
                for pid in cl.topics[n]:
                    logs.fill(n, pid, rng.choice((0, 0, 2, 6)))
            for _ in range(rng.randrange(3)):
                await ended([asyncio.ensure_future(consume(rng.choice(names)))], False)
            if rng.random() < .2:
                futs = [asyncio.ensure_future(consume(n)) for n in rng.sample(names, rng.randrange(len(names) + 1))]
                await w.connect(False)
                await ended(futs, False)
            w.slow = rng.choice((0, .003))
            futs = [asyncio.ensure_future(consume(n)) for n in rng.sample(names, rng.randrange(len(names) + 1))]
            await w.struck(futs)
            await ended(futs, True)
            for _ in range(rng.randrange(3)):
                ctx.count("calls_meanwhile")
                await ended([asyncio.ensure_future(consume(rng.choice(names)))], True)
                if rng.random() < .3:
                    await w.refused()
            futs = [asyncio.ensure_future(consume(n)) for n in rng.sample(names, rng.randrange(len(names) + 1)) if rng.random() < .3]
            w.up()
            await w.connect()
            w.slow = 0
            await ended(futs, True)
        await w.connections()
        for n in names:
            for pid in cl.topics[n]:
                logs.fill(n, pid, rng.choice((0, 2)))
            quiet = 0
            for _ in range(300):
                was = track.returned[n]
                await ended([asyncio.ensure_future(consume(n))], False)
                quiet = quiet + 1 if track.returned[n] == was else 0
                if quiet > 6:
                    break
            for pid in cl.topics[n]:
                due = [o for o, v in track.due(n, pid) if isinstance(v, dict) and "o" in v and o > track.last.get((n, pid), -1)]
                ctx.check(not due, "after %r: %s|%d never returned %r", log[-6:], n, pid, due)
            ctx.check(track.anon[n] == track.expected_anon(n, cl.topics[n]), "after %r: %s returned %r, the log holds %r", log[-6:], n,
                      dict(track.anon[n]), dict(track.expected_anon(n, cl.topics[n])))
        await c.close()
        ctx.sig(log)
        ctx.sample({"history": log[:12]})
    simulate(ctx, work, rng.choice((1, 2, 3, 4)))


@zk_case()
def grouped(rng, ctx, zk):
    async def work(cl):
        from kiel.exc import NoBrokersError
        g = Group(rng, ctx, zk, cl, topics=rng.choice((1, 2)), autocommit=rng.random() < .7)
        c, log = g.c, []
        w = Cluster(rng, ctx, cl, c, log)
        cl.plan = w.plan
        g.watch_coord = False                    # as it may not have read the last answer
        await w.connect()
        g.joined()
        pos = {}                                 # (t, pid) -> next offset due
        for t, pid in g.epoch.share:
            pos[(t, pid)] = cl.committed[(GROUP, t, pid)][0]
        g.watch_fetch = g.watch_commit = False

        async def consume(t):
            log.append("consume")
            k, v = await outcome(c.consume(t))
            if k == "err":
                ctx.count("raised")
                ctx.check(isinstance(v, NoBrokersError), "after %r: consume() raised %r", log[-6:], v)
                return k
            ctx.check(isinstance(v, list), "after %r: consume() returned %r", log[-6:], v)
            for x in v:
                ctx.check(tuple(x[:2]) in pos and x[0] == t and x[2] == pos[tuple(x[:2])], "after %r: consuming %s returned %r, due is %r", log[-6:], t, x, pos)
                pos[tuple(x[:2])] += 1
            ctx.count("returned", len(v))
            return k

        async def commit():
            log.append("commit")
            k, v = await outcome(c.commit_offsets())
            ctx.check(k == "ok" or isinstance(v, NoBrokersError), "after %r: commit_offsets() raised %r", log[-6:], v)
            ctx.count("raised", k != "ok")
            return k

        async def ended(futs, struck):
            for f in futs:
                k = await f
                ctx.check(k == "ok" or struck, "after %r: a call raised", log[-6:])

        def any_calls():
            return [asyncio.ensure_future(consume(n)) for n in rng.sample(g.names, rng.randrange(len(g.names) + 1))] + (
                [asyncio.ensure_future(commit())] if rng.random() < .2 else [])
        for turn in range(rng.choice((1, 2, 3))):
            for t in g.names:
                for pid in cl.topics[t]:
                    g.append(t, pid, rng.choice((0, 0, 2, 6)))
            for _ in range(rng.randrange(3)):
                await ended(any_calls(), False)
            if rng.random() < .2:
                futs = any_calls()
                await w.connect(False)
                await ended(futs, False)
            w.slow = rng.choice((0, .003))
            futs = any_calls()
            await w.struck(futs)
            await ended(futs, True)
            for _ in range(rng.randrange(3)):
                ctx.count("calls_meanwhile")
                await ended(any_calls(), True)
            w.up()
            await w.connect()
            w.slow = 0
        await w.connections()
        for t in g.names:
            for pid in cl.topics[t]:
                g.append(t, pid, rng.choice((0, 2)))
        for t in g.names:
            for _ in range(3):
                await ended([asyncio.ensure_future(consume(t))], False)
        for (t, pid), o in sorted(pos.items()):
            ctx.check(o == cl.part(t, pid).end, "after %r: %s|%d went on up to %d, its log ends at %d", log[-6:], t, pid, o, cl.part(t, pid).end)
        await ended([asyncio.ensure_future(commit())], False)
        for (t, pid), o in sorted(pos.items()):
            have = cl.committed[(GROUP, t, pid)][0]
            ctx.check(have == o, "after %r: committed of %s|%d is %d, delivered is up to %d", log[-6:], t, pid, have, o)
            ctx.count("committed_on")
        n = len([m for m in zk.children("/kiel/groups/%s/members" % GROUP) if m == c.name])
        ctx.check(n == 1, "after %r: the consumer is listed %d times", log[-6:], n)
        await g.close()
        ctx.sig(log)
        ctx.sample({"history": log[:12]})
    simulate(ctx, work, rng.choice((1, 2, 3)))


SCENARIOS = [(4, producing), (4, reading), (2, grouped)]
