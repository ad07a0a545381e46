import asyncio

from kv.runner import Violation
from kv.world import outcome, simulate
from kv.preempt import Threads
from .grp import FATAL, GROUP, RETRIABLE, Group, stuck
from .zkc import zk_case

ID = "C19"
LEVEL = "exploration"
QUICK, THOROUGH = 1100, 20000
RULE = ("a grouped consumer (real kazoo, real sockets, virtual time) consumes and commits while commits meet retriable, fatal and metadata-too-large "
        "codes for any subset of their partitions, lost connections, moving coordinators and rebalances, with autocommit on and off, explicit "
        "metadata, overlapping consume() and commit_offsets(), and rebalances at random lines of either thread; the coordinator compares every committed offset with what was served and returned "
        "since the last lookup, and the stored offsets with the positions once a call is over; distinct non-trivial = distinct histories")
NEED = {"committed_partitions": 4000, "faults_offset_commit": 700, "rebalances_during_offset_commit": 100, "rebalances": 700, "stored": 1909,
        "explicit": 600, "overlapping": 120, "blanked": 60, "fatal_commits": 30, "stuck_rebalances": 100, "preemptions": 300, "quiet_calls": 200}
ASSUMPTIONS = ("every partition has a committed offset within its log (others: KNOWN_FINDINGS of C18)", "consume() calls on one topic do not overlap")
METADATA = ("m", "", "x" * 5000, "caf\u00e9 \u65e5\u672c", "committed by me")


def errors(g, x, a, rng, fatal):
    """Codes for some of a commit's partitions."""
    tps = [(t["name"], p["partition_id"]) for t in x.body["topics"] for p in t["partitions"]]
    picked = tps if rng.random() < .3 else rng.sample(tps, rng.randrange(len(tps) + 1))
    for tp in picked:
        r = rng.random()
        if r < .2:
            a.errors[tp] = 12
        elif fatal and r < .45:
            a.errors[tp] = rng.choice([f for f in FATAL if f != 12])
            g.rejected.add(tp)
        else:
            a.errors[tp] = rng.choice(RETRIABLE)


class Run(object):
    def __init__(self, rng, ctx, zk, cl, autocommit):
        self.rng, self.ctx, self.cl = rng, ctx, cl
        self.g = g = Group(rng, ctx, zk, cl, topics=rng.choice((1, 2, 2, 3)), autocommit=autocommit)
        self.c = g.c
        g.rejected = set()
        self.budget, self.fatal, self.stubborn = 0, False, False
        plan = cl.plan

        def nasty(x):
            a = plan(x)
            if x.api == "offset_commit" and self.budget > 0 and (self.stubborn or rng.random() < .75):
                self.budget -= 1
                ctx.count("faults_offset_commit")
                r = rng.random()
                if self.stubborn:
                    a.errors["*"] = rng.choice(RETRIABLE)
                elif r < .25 and x.broker.id != g.ids[0]:
                    a.mode, a.cut = rng.choice(("drop_before", "drop_after", "reset_before", "reset_after", "partial")), rng.randrange(30)
                    ctx.count("lost_commits")
                elif r < .35:
                    cl.coordinator = rng.choice(g.ids)
                else:
                    errors(g, x, a, rng, self.fatal)
            return a
        cl.plan = nasty
        sent = cl.on_sent

        def on_sent(x, what):
            was = g.blank
            sent(x, what)
            if g.blank and not was:
                ctx.count("blanked")
        cl.on_sent = on_sent

    def arm(self, apis=("offset_commit", "group_coordinator", "offset_fetch", "metadata", "fetch")):
        g, rng = self.g, self.rng
        g.rejected.clear()
        self.budget = rng.choice((0, 0, 1, 2, 4, 6))
        self.fatal = rng.random() < .3
        self.stubborn = rng.random() < .04
        if self.stubborn:
            self.budget = rng.choice((15, 40))
            self.ctx.count("stubborn")
        for api in apis:
            if rng.random() < (.3 if api == "offset_commit" else .06):
                g.inject[api] = [rng.choice((1, 1, 2)), lambda times=rng.choice((1, 1, 2)): [g.rebalance() for _ in range(times)]]
        g.faults = rng.choice((0, 0, 2))
        g.rates = {"fetch": .2, "offset_fetch": .3, "group_coordinator": .4}

    def disarm(self):
        self.budget = self.g.faults = 0
        self.g.inject.clear()

    def between(self):
        g, rng, cl = self.g, self.rng, self.cl
        r = rng.random()
        if r < .2:
            g.rebalance()
        elif r < .75:
            for t in g.names:
                for pid in cl.topics[t]:
                    g.append(t, pid, rng.choice((0, 1, 4)))
        elif r < .85:
            cl.coordinator = rng.choice(g.ids)

    def check_stored(self, topics, label):
        """Everything returned in this epoch is committed."""
        g, ctx = self.g, self.ctx
        for tp, (e, o) in sorted(g.handed.items(), key=lambda kv: kv[0]):
            if e is not g.epoch or tp[0] not in topics or tp in g.rejected:
                continue
            have = self.cl.committed.get((GROUP,) + tp)
            ctx.check(have and have[0] == o, "%s: %s|%d: committed is %r, delivered is up to %d", label, tp[0], tp[1], have, o)
            ctx.count("stored")
        if g.rejected:
            ctx.count("fatal_commits")

    async def consume(self, topic):
        g, ctx = self.g, self.ctx
        g.begin()
        self.arm()
        g.label.append(("consume", topic, sorted(g.inject), self.budget, self.fatal))
        n = len(g.epochs)
        with g.preempted():
            k, v = await outcome(self.c.consume(topic))
        label = "after %r" % (g.label[-6:],)
        ctx.check(k == "ok", "%s: consume() raised %r", label, v)
        late = len(g.epochs) > n
        self.disarm()
        g.returned(topic, v, label)
        if g.autocommit:
            mine = [tp for tp in g.epoch.share if tp[0] == topic]
            if not late and mine:
                self.check_stored({topic}, label)
        else:
            ctx.check(not g.commits, "%s: autocommit is off, consume() committed", label)
            ctx.count("quiet_calls")

    async def commit(self, beside=None):
        g, ctx, rng = self.g, self.ctx, self.rng
        g.begin()
        self.arm()
        args = {}
        if rng.random() < .6:
            args["metadata"] = g.metadata = rng.choice(METADATA)
            if g.metadata == "":
                g.metadata = None
        g.asking = True
        g.label.append(("commit", beside, sorted(g.inject), self.budget, self.fatal))
        n = len(g.epochs)
        before = dict(g.handed)
        if beside:
            g.concurrent = True
            other = asyncio.ensure_future(outcome(self.c.consume(beside)))
            for _ in range(rng.choice((0, 1, 5))):
                await asyncio.sleep(0)
            if rng.random() < .5:
                await asyncio.sleep(rng.choice((.0001, .001)))
        with g.preempted():
            k, v = await outcome(self.c.commit_offsets(**args))
        label = "after %r" % (g.label[-6:],)
        ctx.check(k == "ok", "%s: commit_offsets() raised %r", label, v)
        g.metadata = None
        if beside:
            k, v = await other
            g.asking = False
            ctx.check(k == "ok", "%s: consume() raised %r", label, v)
            g.returned(beside, v, label)
            ctx.count("overlapping")
            self.disarm()
            return
        g.asking = False
        self.disarm()
        ctx.count("explicit")
        if len(g.epochs) == n:
            g.handed, now = before, g.handed
            self.check_stored(g.names, label)
            g.handed = now


@zk_case()
def auto(rng, ctx, zk):
    async def work(cl):
        r = Run(rng, ctx, zk, cl, True)
        g = r.g
        await r.c.connect()
        g.joined()
        for _ in range(rng.choice((3, 6, 10))):
            r.between()
            if rng.random() < .15:
                await r.commit()
            await r.consume(rng.choice(g.names))
        ctx.sig(g.label)
        ctx.sample({"history": [repr(x) for x in g.label[:12]]})
        await g.close()
    simulate(ctx, work, rng.choice((1, 2, 3)))


@zk_case()
def manual(rng, ctx, zk):
    async def work(cl):
        r = Run(rng, ctx, zk, cl, False)
        g = r.g
        await r.c.connect()
        g.joined()
        for _ in range(rng.choice((4, 8, 14))):
            r.between()
            x = rng.random()
            if x < .5:
                await r.consume(rng.choice(g.names))
            elif x < .8:
                await r.commit()
            else:
                await r.commit(beside=rng.choice(g.names))
        await r.commit()
        ctx.sig(g.label)
        ctx.sample({"history": [repr(x) for x in g.label[:12]]})
        await g.close()
        n = sum(g.cl.per_api.get("offset_commit", 0) for _ in (1,))
        ctx.check(n == cl.per_api.get("offset_commit", 0), "offsets were committed while closing")
    simulate(ctx, work, rng.choice((1, 2, 3)))


@zk_case()
def overlap(rng, ctx, zk):
    """Several topics consumed at once, autocommitting."""
    async def work(cl):
        r = Run(rng, ctx, zk, cl, True)
        g = r.g
        await r.c.connect()
        g.joined()
        for _ in range(rng.choice((2, 5))):
            r.between()
            g.begin(concurrent=True)
            r.arm(("offset_commit",))
            n = len(g.epochs)
            g.label.append(("overlap", sorted(g.inject), r.budget, r.fatal))
            with g.preempted():
                out = await asyncio.gather(*[outcome(r.c.consume(t)) for t in g.names])
            label = "after %r" % (g.label[-6:],)
            for t, (k, v) in zip(g.names, out):
                ctx.check(k == "ok", "%s: consume() raised %r", label, v)
                g.returned(t, v, label)
            r.disarm()
            ctx.count("overlapping")
            if len(g.epochs) == n:
                r.check_stored(g.names, label)
        ctx.sig(g.label)
        await g.close()
    simulate(ctx, work, rng.choice((1, 2, 3)))


@zk_case()
def preempted(rng, ctx, zk):
    """The thread delivering a rebalance is preempted at any line."""
    threads = Threads()

    async def work(cl):
        r = Run(rng, ctx, zk, cl, True)
        g = r.g
        await r.c.connect()
        g.joined()
        for _ in range(rng.choice((2, 4, 6))):
            topic = rng.choice(g.names)
            for t in g.names:
                for pid in cl.topics[t]:
                    g.append(t, pid, rng.choice((0, 2)))
            if rng.random() < .6:
                await stuck(g, threads, topic)
            else:
                await r.consume(topic)
        for t in g.names:
            for turn in range(2):
                g.begin()
                k, v = await outcome(r.c.consume(t))
                ctx.check(k == "ok", "consume() raised %r", v)
                g.returned(t, v, "after %r" % g.label[-5:])
            r.check_stored({t}, "after %r" % g.label[-5:])
        ctx.sig(g.label)
        await g.close()
    threads.install()
    try:
        simulate(ctx, work, rng.choice((1, 2, 3)))
    finally:
        threads.remove()


SCENARIOS = [(9, auto), (7, manual), (3, overlap), (3, preempted)]
