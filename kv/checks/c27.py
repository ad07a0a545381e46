import asyncio
import json

from kv.world import Action, outcome, settle, simulate

ID = "C27"
LEVEL = "exploration"
QUICK, THOROUGH = 1100, 30000
RULE = ("producers and single consumers over 1-4 brokers use topics that exist, do not exist, are created (by hand or by the brokers on "
        "request) between any two calls, vanish or have no partition with a leader yet, alone or in overlapping calls; monitors: a call on an "
        "unknown topic asks for metadata; if the topic exists by then that very call produces to or fetches from it, otherwise it returns "
        "(an empty list or nothing) without raising, sends no data for it and leaves the other topics working; distinct non-trivial = "
        "distinct (operations, outcomes)")
NEED = {"unknown_calls": 2000, "used_at_once": 1000, "other_topic_works": 1500, "overlapping": 300, "auto_created": 61}


def producing(rng, ctx):
    async def work(cl):
        from kiel.clients import Producer
        ids = list(cl.brokers)
        cl.add_topic("old", [rng.choice(ids) for _ in range(rng.choice((1, 3)))])
        batch = rng.choice((0, 1, 1, 3))
        p = Producer(cl.hosts, batch_size=batch)
        await p.connect()
        exists, uid, ops = {"old"}, 0, []
        want = {"old": []}
        data = []

        def seen(x):
            if x.api == "produce":
                for t in x.body["topics"]:
                    if t["name"] not in cl.topics:
                        data.append(t["name"])
        cl.on_request = seen
        slow = [0]
        cl.plan = lambda x: Action(delay=rng.choice((0, slow[0])))
        cl.on_sent = lambda x, how: known.update(t["name"] for t in x.response["topics"]) if x.api == "metadata" else None
        names = ["n%d" % i for i in range(4)] + ["\u65e5\u672c"]
        known = {"old"}
        for step in range(rng.choice((4, 10, 20))):
            n = rng.choice(names + ["old"])
            if n not in exists and rng.random() < .35:
                cl.add_topic(n, [rng.choice(ids) for _ in range(rng.choice((1, 2, 4) * 5 + (14,)))])
                exists.add(n)
                want[n] = []
                ops.append("create")
            over = rng.random() < .3
            calls = rng.choice((2, 3, 5)) if over else 1
            todo = []
            before = set(known)
            asked0 = cl.per_api.get("metadata", 0)
            for _ in range(calls):
                m = rng.choice((n, n, "old")) if over else n
                uid += 1
                todo.append((m, uid, m in exists, asyncio.ensure_future(p.produce(m, {"u": uid}))))
            if over:
                ctx.count("overlapping")
                slow[0] = .003
            for m, u, there, fut in todo:
                k, r = await outcome(fut)
                ctx.check(k == "ok", "produce to %s raised %r", m, r)
                if m not in before:
                    ctx.count("unknown_calls")
                    ctx.check(cl.per_api.get("metadata", 0) > asked0, "produce to the unknown topic %s asked no broker for metadata", m)
                if there:
                    want[m].append(u)
                    if m not in before:
                        ctx.count("used_at_once")
                ops.append((m, there))
            slow[0] = 0
            ctx.check(not data, "data was sent for unknown topics %r", data)
            # each accepted message is in a log or pending, others are nowhere
            if rng.random() < .4:
                k, r = await outcome(p.flush())
                ctx.check(k == "ok", "flush raised %r", r)
            logs = {t: [json.loads(x[2])["u"] for q in cl.topics[t].values() for x in q.records()] for t in exists}
            n_logged = sum(map(len, logs.values()))
            total = sum(map(len, want.values()))
            ctx.check(n_logged + p.unsent_count == total, "%d messages accepted for existing topics, %d are in the logs and %d pending", total,
                      n_logged, p.unsent_count)
            if batch <= 1:
                for t in exists:
                    ctx.check(sorted(logs[t]) == sorted(want[t]), "topic %s holds %r, produced were %r", t, logs[t], want[t])
                ctx.count("other_topic_works")
        k, r = await outcome(p.flush())
        for t in exists:
            have = sorted(json.loads(x[2])["u"] for q in cl.topics[t].values() for x in q.records())
            ctx.check(have == sorted(want[t]), "topic %s ends up with %r, produced were %r", t, have, want[t])
        ctx.sig("produce", batch, ops)
        ctx.sample({"client": "producer", "operations": ops[:15]})
        await p.close()
    simulate(ctx, work, rng.choice((1, 2, 3, 4)))


def consuming(rng, ctx):
    async def work(cl):
        from kiel.clients import SingleConsumer
        ids = list(cl.brokers)
        cl.add_topic("old", [rng.choice(ids) for _ in range(rng.choice((1, 3)))])
        c = SingleConsumer(cl.hosts)
        await c.connect()
        exists, known, ops = {"old"}, {"old"}, []
        got = {}
        names = ["n%d" % i for i in range(4)] + ["\u65e5\u672c"]
        bad = []

        def seen(x):
            if x.api in ("fetch", "offset"):
                for t in x.body["topics"]:
                    if t["name"] not in cl.topics:
                        bad.append(t["name"])
        cl.on_request = seen
        cl.plan = lambda x: Action(delay=rng.choice((0, 0, .002)))
        cl.on_sent = lambda x, how: known.update(t["name"] for t in x.response["topics"]) if x.api == "metadata" else None

        def fill(n):
            for q in cl.topics[n].values():
                for _ in range(rng.choice((0, 1, 3))):
                    q.append([(None, json.dumps([n, q.pid, q.end]).encode())])
        fill("old")

        def absorb(n, r):
            for t, pid, off in r:
                ctx.check(t == n, "consuming %s returned a message of %s", n, t)
                mine = got.setdefault((n, pid), [])
                ctx.check(off == len(mine), "%s|%d returned offset %d after %d messages", n, pid, off, len(mine))
                mine.append(off)
            for q in cl.topics[n].values():
                ctx.check(len(got.get((n, q.pid), [])) == q.end, "%s|%d: %d messages returned, the log holds %d", n, q.pid,
                          len(got.get((n, q.pid), [])), q.end)
        for step in range(rng.choice((4, 10, 20))):
            n = rng.choice(names + ["old"])
            if n not in exists and rng.random() < .35:
                cl.add_topic(n, [rng.choice(ids) for _ in range(rng.choice((1, 2, 4) * 5 + (14,)))])
                exists.add(n)
                fill(n)
                ops.append("create")
            elif n in exists and rng.random() < .4:
                fill(n)
            before = set(known)
            asked0 = cl.per_api.get("metadata", 0)
            if rng.random() < .25:
                ctx.count("overlapping")
                other = rng.choice([x for x in names + ["old"] if x != n])
                a = asyncio.ensure_future(c.consume(n, start=c.BEGINNING))
                b = asyncio.ensure_future(c.consume(other, start=c.BEGINNING))
                todo = [(n, a), (other, b)]
            else:
                todo = [(n, asyncio.ensure_future(c.consume(n, start=c.BEGINNING)))]
            for m, fut in todo:
                k, r = await outcome(fut)
                ctx.check(k == "ok", "consume of %s raised %r", m, r)
                if m not in before:
                    ctx.count("unknown_calls")
                    ctx.check(cl.per_api.get("metadata", 0) > asked0, "consuming the unknown topic %s asked no broker for metadata", m)
                if m in exists:
                    if m not in before:
                        ctx.count("used_at_once")
                    absorb(m, r)
                else:
                    ctx.check(r == [], "consuming the unknown topic %s returned %r", m, r)
                ops.append((m, m in exists))
            ctx.check(not bad, "requests were sent for unknown topics %r", bad)
            fill("old")
            k, r = await outcome(c.consume("old", start=c.BEGINNING))
            ctx.check(k == "ok", "consume raised %r", r)
            absorb("old", r)
            ctx.count("other_topic_works")
        ctx.sig("consume", ops)
        ctx.sample({"client": "consumer", "operations": ops[:15]})
        await c.close()
    simulate(ctx, work, rng.choice((1, 2, 3, 4)))


def vanish(rng, ctx):
    """A topic disappears and comes back; the others go on."""
    async def work(cl):
        from kiel.clients import Producer, SingleConsumer
        ids = list(cl.brokers)
        names = ["a", "b"]
        for n in names:
            cl.add_topic(n, [rng.choice(ids) for _ in range(rng.choice((1, 2)))])
        p = Producer(cl.hosts)
        c = SingleConsumer(cl.hosts)
        await p.connect()
        await c.connect()
        for n in names:
            await c.consume(n, start=c.BEGINNING)
        sent, got, ops = {"a": [], "b": []}, {"a": [], "b": []}, []
        uid, gone = 0, None
        for step in range(rng.choice((5, 12))):
            if rng.random() < .3:
                if gone:
                    cl.topics["a"] = gone
                    gone = None
                    ops.append("back")
                else:
                    gone = cl.topics.pop("a")
                    ops.append("gone")
            n = rng.choice(names)
            if rng.random() < .5:
                uid += 1
                k, r = await outcome(p.produce(n, {"u": uid}))
                ctx.check(k == "ok", "produce to %s raised %r", n, r)
                if n == "b":
                    sent["b"].append(uid)
                ops.append("produce " + n)
            else:
                k, r = await outcome(c.consume(n, start=c.BEGINNING))
                ctx.check(k == "ok", "consume of %s raised %r", n, r)
                if n == "a" and gone:
                    ctx.check(r == [], "consume of a vanished topic returned %r", r)
                    ctx.count("unknown_calls")
                got[n] += [m["u"] for m in r]
                ops.append("consume " + n)
            ctx.count("other_topic_works")
        for _ in range(3):
            k, r = await outcome(c.consume("b", start=c.BEGINNING))
            ctx.check(k == "ok", "consume raised %r", r)
            got["b"] += [m["u"] for m in r]
        ctx.check(sorted(got["b"]) == sorted(sent["b"]), "topic b returned %r, produced were %r", got["b"], sent["b"])
        ctx.check(len(set(got["a"])) == len(got["a"]), "topic a returned duplicates: %r", got["a"])
        ctx.sig("vanish", ops)
        await p.close()
        await c.close()
    simulate(ctx, work, rng.choice((1, 2, 3)))


def auto(rng, ctx):
    """The topic comes into being while the refresh is under way."""
    async def work(cl):
        from kiel.clients import Producer, SingleConsumer
        ids = list(cl.brokers)
        cl.add_topic("old", [rng.choice(ids)])
        who = rng.choice(("producer", "consumer"))
        c = Producer(cl.hosts) if who == "producer" else SingleConsumer(cl.hosts)
        await c.connect()
        pending = rng.choice((0, 0, 1, 3))

        def view(v, x):
            # created with its leader still being elected
            nonlocal pending
            if "new" in cl.topics and pending:
                pending -= 1
                for t in v["topics"]:
                    if t["name"] == "new":
                        for q in t["partitions"]:
                            q["error_code"], q["leader"] = 5, -1
            return v

        def plan(x):
            if x.api == "metadata" and "new" not in cl.topics:
                cl.add_topic("new", [rng.choice(ids) for _ in range(rng.choice((1, 3)))])
                for q in cl.topics["new"].values():
                    if who == "consumer":
                        q.append([(None, json.dumps([q.pid]).encode())])
            return Action(delay=rng.choice((0, .005)))
        cl.metadata_view = view
        cl.plan = plan
        ctx.count("auto_created")
        ctx.count("unknown_calls")
        if who == "producer":
            k, r = await outcome(c.produce("new", {"u": 1}))
            ctx.check(k == "ok", "produce raised %r", r)
            have = [x for q in cl.topics["new"].values() for x in q.records()]
            ctx.check(len(have) == 1, "the topic was created by the refresh and the message is not in it")
        else:
            k, r = await outcome(c.consume("new", start=c.BEGINNING))
            ctx.check(k == "ok" and sorted(r) == [[pid] for pid in sorted(cl.topics["new"])], "consume of the topic created gave %r", r)
        ctx.count("used_at_once")
        ctx.sig("auto", who, pending, [q.leader for q in cl.topics["new"].values()])
        await c.close()
    simulate(ctx, work, rng.choice((1, 2, 3)))


SCENARIOS = [(3, producing), (3, consuming), (2, vanish), (1, auto)]
