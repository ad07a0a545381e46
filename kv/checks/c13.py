import asyncio
import collections
import json

from kv.world import Action, outcome, settle, simulate

ID = "C13"
LEVEL = "exploration"
QUICK, THOROUGH = 1100, 30000
RULE = ("producers with batch sizes 0-9, every compression, no faults, 1-3 topics with 1-5 partitions over 1-4 brokers and slow answers take "
        "5-60 messages through sequential or overlapping produce() calls and explicit flushes; a reference model predicts after every call "
        "which messages must be in the logs and which must not have left; at most one request per leader per flush; every log equals the "
        "produce order of its messages, exactly once; a third kind of history has messages refused with retriable codes, which then count as pending; distinct non-trivial = distinct (batch, layout, operations)")
NEED = {"steps": 4000, "held_back": 800, "flushed": 1500, "overlapping": 1500, "logs_checked": 2000, "above_batch": 70}


class Watch(object):
    def __init__(self, ctx, cl, names):
        self.ctx, self.cl, self.names = ctx, cl, names
        self.order = collections.defaultdict(list)   # topic -> uids in produce order
        self.step = []                               # produce requests since reset
        cl.on_request = self.seen

    def seen(self, c):
        if c.api == "produce":
            uids = [json.loads(m[3])["u"] for t in c.body["topics"] for p in t["partitions"] for m in p["messages"]]
            self.step.append((c.broker.id, uids))

    def logged(self):
        out = {}
        for n in self.names:
            for pid, q in self.cl.topics[n].items():
                out[(n, pid)] = [json.loads(r[2])["u"] for r in q.records()]
        return out

    def check_logs(self, complete=True):
        logs = self.logged()
        for (n, pid), uids in logs.items():
            pos = {u: i for i, u in enumerate(self.order[n])}
            self.ctx.check(all(u in pos for u in uids), "log of %s|%d holds %r, which was not produced to it", n, pid, uids)
            self.ctx.check(uids == sorted(uids, key=pos.get), "log of %s|%d is %r, produced in the order %r", n, pid, uids, self.order[n])
            self.ctx.count("logs_checked")
        all_ = collections.Counter(u for v in logs.values() for u in v)
        twice = [u for u, k in all_.items() if k > 1]
        self.ctx.check(not twice, "messages %r are in the logs twice without any fault", twice)
        return set(all_)


def setup(rng, cl):
    from kiel.clients import Producer
    ids = list(cl.brokers)
    names = ["t%d" % i for i in range(rng.choice((1, 1, 2, 3)))]
    for n in names:
        cl.add_topic(n, [rng.choice(ids) for _ in range(rng.choice((1, 1, 2, 5) * 5 + (16, 90)))])
    batch = rng.choice((0, 1, 2, 3, 4, 5, 9) * 3 + (33, 120))
    kw = {}
    if rng.random() < .4:
        kw["partitioner"] = lambda key, parts: parts[rng.randrange(len(parts))]
    if rng.random() < .4:
        kw["key_maker"] = lambda m: "k%d" % (m["u"] % 3)
    p = Producer(cl.hosts, batch_size=batch, compression=rng.choice((None, None, 1, 2)), **kw)
    return p, names, batch


def sequential(rng, ctx):
    async def work(cl):
        p, names, batch = setup(rng, cl)
        w = Watch(ctx, cl, names)
        await p.connect()
        cl.plan = lambda c: Action(delay=rng.choice((0, 0, 0, .002, .05)))
        pending, sent, ops = [], set(), []
        uid = 0
        for _ in range(rng.choice((5, 12, 30, 60) if batch < 10 else (60, 300))):
            w.step = []
            if rng.random() < (.15 if batch < 10 else .01):
                ops.append("flush")
                k, r = await outcome(p.flush())
                due = True
            else:
                t = rng.choice(names)
                uid += 1
                ops.append(t)
                w.order[t].append(uid)
                pending.append(uid)
                k, r = await outcome(p.produce(t, {"u": uid, "x": "z" * rng.choice((0, 5, 2000))}))
                due = len(pending) >= max(1, batch)
            ctx.check(k == "ok", "%s raised %r", ops[-1], r)
            ctx.count("steps")
            if not due:
                ctx.check(not w.step, "%d of %d messages pending and yet %r was sent", len(pending), batch, w.step)
                ctx.count("held_back")
            else:
                who = [b for b, _ in w.step]
                ctx.check(len(who) == len(set(who)), "one flush sent several requests to a leader: %r", w.step)
                carried = sorted(u for _, us in w.step for u in us)
                ctx.check(carried == sorted(pending), "pending were %r, sent were %r", pending, carried)
                ctx.count("flushed")
                sent.update(pending)
                pending = []
            ctx.check(p.unsent_count == len(pending), "unsent_count is %d, %d messages are pending", p.unsent_count, len(pending))
        # no faults: what was sent is in the logs when the call returns
        have = w.check_logs()
        ctx.check(have == sent, "logs lack %r and must not have %r", sorted(sent - have), sorted(have - sent))
        ctx.sig("seq", batch, ops, [[q.leader for q in cl.topics[n].values()] for n in names])
        ctx.sample({"batch": batch, "operations": ops[:20]})
        await p.close()
    simulate(ctx, work, rng.choice((1, 2, 3, 4)))


def overlapping(rng, ctx):
    async def work(cl):
        p, names, batch = setup(rng, cl)
        w = Watch(ctx, cl, names)
        await p.connect()
        cl.plan = lambda c: Action(delay=rng.choice((0, .001, .004, .03)))
        running, ops, uid, flushes = [], [], 0, 0
        for _ in range(rng.choice((6, 15, 40) if batch < 10 else (60, 250))):
            if rng.random() < (.1 if batch < 10 else .01):
                running.append(asyncio.ensure_future(p.flush()))
                ops.append("flush")
                flushes += 1
            else:
                t = rng.choice(names)
                uid += 1
                w.order[t].append(uid)
                ops.append(t)
                running.append(asyncio.ensure_future(p.produce(t, {"u": uid})))
                if uid < batch and not flushes:
                    await settle(cl, 1)
                    ctx.check(not w.step, "%d of %d messages pending and yet %r was sent", uid, batch, w.step)
                    ctx.count("held_back")
            r = rng.random()
            if r < .5:
                await asyncio.sleep(rng.choice((0, 0, .001, .003)))
                ops.append("wait")
            ctx.count("overlapping")
        for o in running:
            k, r = await outcome(o)
            ctx.check(k == "ok", "an overlapping call raised %r", r)
        await settle(cl, 6)
        ctx.check(p.unsent_count < max(1, batch), "%d messages pending with batch size %d", p.unsent_count, batch)
        have = w.check_logs()
        ctx.check(len(have) + p.unsent_count == uid, "%d messages produced, %d in the logs, %d pending", uid, len(have), p.unsent_count)
        w.step = []
        k, r = await outcome(p.flush())
        ctx.check(k == "ok" and p.unsent_count == 0, "after a flush %d messages are pending (%r)", p.unsent_count, r)
        who = [b for b, _ in w.step]
        ctx.check(len(who) == len(set(who)), "one flush sent several requests to a leader: %r", w.step)
        have = w.check_logs()
        ctx.check(len(have) == uid, "%d messages produced, %d in the logs after a flush", uid, len(have))
        ctx.count("flushed")
        ctx.sig("over", batch, ops)
        await p.close()
    simulate(ctx, work, rng.choice((1, 2, 3, 4)))


def retries(rng, ctx):
    """Messages that have to be sent again count as pending."""
    async def work(cl):
        p, names, batch = setup(rng, cl)
        batch = p.batch_size = rng.choice((2, 3, 4, 5, 9)) if rng.random() < .8 else batch
        w = Watch(ctx, cl, names)
        await p.connect()
        rate = [0]
        refused = set()

        def plan(c):
            a = Action(delay=rng.choice((0, 0, .01)))
            if c.api == "produce" and rng.random() < rate[0]:
                for t in c.body["topics"]:
                    for q in t["partitions"]:
                        if rng.random() < .6:
                            a.errors[(t["name"], q["partition_id"])] = rng.choice((5, 6, 7, 19, 20))
                            refused.update(json.loads(m[3])["u"] for m in q["messages"])
            return a
        cl.plan = plan
        pending, ops, uid = [], [], 0
        for _ in range(rng.choice((8, 20, 40))):
            w.step = []
            refused.clear()
            rate[0] = rng.choice((0, 0, .5, 1))
            if rng.random() < .1:
                ops.append("flush")
                k, r = await outcome(p.flush())
                due = True
            else:
                t = rng.choice(names)
                uid += 1
                ops.append(t)
                pending.append(uid)
                k, r = await outcome(p.produce(t, {"u": uid}))
                due = len(pending) >= max(1, batch)
            ctx.check(k == "ok", "%s raised %r", ops[-1], r)
            ctx.count("steps")
            carried = sorted(u for _, us in w.step for u in us)
            if not due:
                ctx.check(not carried, "%d of %d messages pending and yet %r was sent", len(pending), batch, carried)
                ctx.count("held_back")
            else:
                who = [b for b, _ in w.step]
                ctx.check(len(who) == len(set(who)), "one flush sent several requests to a leader: %r", w.step)
                ctx.check(carried == sorted(pending), "with batch size %d pending were %r, sent were %r", batch, pending, carried)
                ctx.count("flushed")
                if len(pending) > max(1, batch):
                    ctx.count("above_batch")
                pending = [u for u in pending if u in refused]
            ctx.check(p.unsent_count == len(pending), "unsent_count is %d, %d messages are pending", p.unsent_count, len(pending))
        ctx.sig("retries", batch, ops)
        cl.plan = lambda c: Action()
        await p.close()
    simulate(ctx, work, rng.choice((1, 2, 3, 4)))


SCENARIOS = [(2, sequential), (2, overlapping), (1, retries)]
