import asyncio

from kv.world import Action, outcome, settle, simulate
from .grp import DROPS, FATAL, GROUP, RETRIABLE, Group
from .zkc import zk_case

ID = "C20"
LEVEL = "exploration"
QUICK, THOROUGH = 1100, 20000
RULE = ("grouped consumers (real kazoo, real sockets, virtual time) connect to 1-5 brokers that answer coordinator requests with retriable and fatal "
        "codes, outdated or unknown coordinators and lost connections in all combinations, then consume while coordinators move, die, come back "
        "and are unavailable for a while; brokers check that lookups and commits go to the coordinator last named, that each call delivers and "
        "stores everything once some broker names the real one, and that a fatal answer ends the search; distinct non-trivial = distinct histories")
NEED = {"inquiries": 2240, "inquiry_retriable": 201, "inquiry_lost": 144, "inquiry_fatal": 100, "inquiry_outdated": 100, "coordinator_used": 3000,
        "moves": 300, "deaths": 227, "stored": 2500, "connects": 194}


class Search(object):
    """How brokers answer coordinator requests."""

    def __init__(self, rng, ctx, cl, g):
        self.rng, self.ctx, self.cl, self.g = rng, ctx, cl, g
        self.script = {}                     # broker id -> behaviours still to come
        self.fatal = 0
        self.after_fatal = 0
        self.budget = 0
        self.inner = cl.plan
        cl.plan = self.plan

    def plan(self, x):
        rng, ctx, cl = self.rng, self.ctx, self.cl
        if x.api != "group_coordinator":
            a = self.inner(x)
            if self.budget > 0 and x.api in ("offset_fetch", "offset_commit") and rng.random() < .4:
                self.budget -= 1
                r = rng.random()
                if r < .4:
                    cl.coordinator = rng.choice([b for b in self.g.ids if cl.brokers[b].up])
                    ctx.count("moves")
                elif r < .7 and x.broker.id != self.g.ids[0]:
                    a.mode, a.cut = rng.choice(DROPS), rng.randrange(40)
                else:
                    a.errors["*"] = rng.choice((14, 15, 16))
            return a
        ctx.count("inquiries")
        if self.fatal:
            self.after_fatal += 1
            if self.after_fatal > 4 * len(self.g.ids):
                cl.fail("coordinator requests go on and on after a fatal answer")
        a = Action(delay=rng.choice((0, 0, .003)))
        todo = self.script.get(x.broker.id)
        what = todo.pop(0) if todo else "ok"
        if what == "retriable":
            a.error = rng.choice(RETRIABLE)
        elif what == "fatal":
            a.error = rng.choice(FATAL)
            self.fatal += 1
        elif what == "lost" and x.broker.id != self.g.ids[0]:
            a.mode, a.cut = rng.choice(DROPS), rng.randrange(30)
        elif what == "outdated":
            other = rng.choice(self.g.ids + [max(self.g.ids) + 1 if max(self.g.ids) < 2 ** 31 - 1 else 3])

            def edit(body):
                body.update(error_code=0, coordinator_id=other, coordinator_host="127.0.0.1", coordinator_port=1)
                return body
            a.edit = edit
        ctx.count("inquiry_" + what)
        return a

    def fill(self, kinds, most=3):
        rng = self.rng
        self.fatal = self.after_fatal = 0
        for b in self.g.ids:
            if rng.random() < .7:
                self.script[b] = [rng.choice(kinds) for _ in range(rng.randrange(most + 1))]
        self.g.label.append(sorted((self.g.ids.index(b), tuple(s)) for b, s in self.script.items() if s))


class Setup(object):
    def __init__(self, rng, ctx, zk, cl):
        self.rng, self.ctx, self.cl = rng, ctx, cl
        cl.coordinator = rng.choice(list(cl.brokers))
        cl.stranger = rng.choice((16, 16, 15))
        self.g = Group(rng, ctx, zk, cl, topics=rng.choice((1, 2)))
        self.c = self.g.c
        self.search = Search(rng, ctx, cl, self.g)

    async def works(self, what):
        """Everything there is gets delivered and stored."""
        g, ctx, cl = self.g, self.ctx, self.cl
        for topic in g.names:
            mine = [tp for tp in g.epoch.share if tp[0] == topic]
            label = "%s, after %r: %s" % (what, g.label[-6:], topic)
            for turn in range(4):
                g.begin()
                k, v = await outcome(self.c.consume(topic))
                ctx.check(k == "ok", "%s: consume() raised %r", label, v)
                g.returned(topic, v, label)
                if all(g.epoch.pos.get(tp) == cl.part(*tp).end for tp in mine):
                    break
            for tp in mine:
                end = cl.part(*tp).end
                ctx.check(g.epoch.pos.get(tp) == end, "%s|%d is at %r of %d", label, tp[1], g.epoch.pos.get(tp), end)
            g.stored(topic, label)

    def more(self):
        for t in self.g.names:
            for pid in self.cl.topics[t]:
                self.g.append(t, pid, self.rng.choice((0, 1, 3)))


@zk_case()
def connect(rng, ctx, zk):
    async def work(cl):
        s = Setup(rng, ctx, zk, cl)
        g = s.g
        s.search.fill(("retriable", "lost", "outdated") if rng.random() < .6 else ("retriable", "lost"), rng.choice((1, 2, 4, 12)))
        k, v = await outcome(s.c.connect())
        ctx.check(k == "ok", "connect() raised %r although broker %s answers: %r", v, g.ids[0], g.label)
        ctx.count("connects")
        ctx.check(g.coord is not None, "connect() returned without a coordinator: %r", g.label)
        g.joined()
        s.search.script.clear()
        await s.works("connected")
        ctx.sig(g.label)
        await g.close()
    simulate(ctx, work, rng.choice((1, 2, 3, 5)))


@zk_case()
def hopeless(rng, ctx, zk):
    """A fatal answer ends the search, a later call starts another."""
    async def work(cl):
        s = Setup(rng, ctx, zk, cl)
        g = s.g
        later = rng.random() < .4
        if later:
            await s.c.connect()
            g.joined()
            await s.works("connected")
            s.more()
            cl.coordinator = rng.choice(g.ids)
        s.search.script = {b: [rng.choice(("retriable", "lost" if b != g.ids[0] else "retriable")) for _ in range(rng.choice((0, 0, 1, 2)))] + ["fatal"] * 200 for b in g.ids}
        g.label.append(("fatal", later, sorted(len(x) for x in s.search.script.values())))
        if not later:
            k, v = await outcome(s.c.connect())
            ctx.check(s.search.fatal, "no broker was asked to the end, connect(): %r %r", k, v)
            if k == "ok":
                g.joined()
        else:
            s.search.budget = 1
        if later or k == "ok":
            g.begin()
            g.watch_coord = False
            s.search.after_fatal = 0
            t = rng.choice(g.names)
            k, v = await outcome(s.c.consume(t))
            ctx.check(k == "ok", "without a coordinator: consume() raised %r", v)
            g.watch_coord = True
            s.search.budget = 0
            s.search.script.clear()
            s.search.fatal = 0
            await s.works("after a fatal answer")
        ctx.sig(g.label)
        await g.close()
    simulate(ctx, work, rng.choice((1, 2, 3)))


@zk_case()
def later(rng, ctx, zk):
    """Coordinators move and die."""
    async def work(cl):
        s = Setup(rng, ctx, zk, cl)
        g = s.g
        k, v = await outcome(s.c.connect())
        ctx.check(k == "ok", "connect() raised %r", v)
        g.joined()
        for _ in range(rng.choice((2, 4, 7))):
            s.more()
            if rng.random() < .35:
                g.rebalance()
            s.search.budget = rng.choice((0, 0, 1, 3))
            if rng.random() < .5:
                s.search.fill(("retriable", "lost", "outdated"), 2)
            r = rng.random()
            up = [b for b in g.ids if cl.brokers[b].up]
            if r < .3:
                cl.coordinator = rng.choice(up)
                g.label.append("moved")
                ctx.count("moves")
            elif r < .65 and len(up) > 1 and cl.coordinator != g.ids[0]:
                dead = cl.brokers[cl.coordinator]
                g.label.append("died")
                ctx.count("deaths")
                reset, wait = rng.random() < .5, rng.choice((0, 0, .001, .01))

                def elect():
                    cl.coordinator = rng.choice([b for b in g.ids if cl.brokers[b].up])

                def die(dead=dead, reset=reset):
                    dead.stop(reset)
                    for t in cl.topics.values():
                        for p in t.values():
                            if p.leader == dead.id:
                                p.leader = rng.choice([b for b in g.ids if cl.brokers[b].up])
                    if rng.random() < .5:
                        elect()
                    else:                            # nobody for a while
                        cl.loop.call_later(rng.choice((.001, .05)), elect)
                if wait:
                    cl.loop.call_later(wait, die)
                else:
                    die()
                    if rng.random() < .5:
                        await settle(cl)
            elif r < .8:
                for b in cl.brokers.values():
                    b.start()
            await s.works("later")
        ctx.sig(g.label)
        ctx.sample({"history": [repr(x) for x in g.label[:12]], "brokers": len(g.ids)})
        for b in cl.brokers.values():
            b.start()
        await g.close()
    simulate(ctx, work, rng.choice((2, 3, 4)))


SCENARIOS = [(6, connect), (3, hopeless), (8, later)]
