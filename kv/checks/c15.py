import asyncio
import json

from kv.checks.cons import Logs, Tracker
from kv.world import Action, outcome, settle, simulate

ID = "C15"
LEVEL = "exploration"
QUICK, THOROUGH = 1300, 25000
RULE = ("single consumers read 1-2 topics of 1-5 partitions over 1-4 brokers in 2-40 consume() calls (of both topics at once, too), from the beginning, the end or a time, "
        "while logs grow by plain, gzip and snappy batches with offset gaps, tombstones and falsy JSON values, size limits cut the sets, and "
        "fetches, lookups and metadata meet error codes, lost connections, cut answers, delays, leader moves and broker restarts; online "
        "checker: each value returned is the next one due of its partition, none is skipped or repeated; after the faults everything is "
        "returned within as many calls as messages are left; distinct non-trivial = distinct (layout, faults, returns)")
NEED = {"returned": 10000, "logs_completed": 1500, "faults": 1500, "fetch_lost": 300, "fetch_code": 500, "moved": 300, "cut_sets": 191,
        "wrappers_straddling": 20, "overlapping_calls": 500}
DROPS = ("drop_before", "drop_after", "reset_before", "reset_after", "partial")
RETRIABLE = (2, 3, 5, 6, 7, 14, 15, 16, 19, 20)


def reading(rng, ctx):
    alone = rng.random() < .15

    async def work(cl):
        from kiel.clients import SingleConsumer
        ids = list(cl.brokers)
        anchor = ids[0]
        logs = Logs(ctx, cl, rng)
        names = ["t%d" % i for i in range(rng.choice((1, 1, 2)))]
        for n in names:
            cl.add_topic(n, [rng.choice(ids) for _ in range(rng.choice((1, 2, 3, 5) * 5 + (17,)))])
            for q in cl.topics[n].values():
                q.start = q.end = rng.choice((0, 0, 0, 0, 1, 1000, 2 ** 31 - 2, 2 ** 53 + 1, 2 ** 62))
        kw = {}
        if rng.random() < .5:
            logs.big, logs.short = False, True
            parts = max(len(cl.topics[n]) for n in names)
            kw["max_bytes"] = parts * (450 + rng.randrange(0, 300))
        for n in names:
            for pid in cl.topics[n]:
                logs.fill(n, pid, rng.choice((0, 1, 5, 20) * 12 + (300,)))
        track = Tracker(ctx, logs)
        c = SingleConsumer(cl.hosts, **kw)
        budget = [rng.choice((0, 4, 10, 25))]
        rate = rng.choice((.15, .4, .8))
        log = []

        def plan(x):
            slow = rng.choice((0, 0, .003))
            if x.api == "fetch":
                for t in x.body["topics"]:
                    for p in t["partitions"]:
                        q = cl.topics[t["name"]][p["partition_id"]]
                        for codec, recs, _ in q.batches:
                            if codec and recs[0][0] < p["offset"] <= recs[-1][0]:
                                ctx.count("wrappers_straddling")
                        if sum(len(e) for e in q.entries(p["offset"])) > p["max_bytes"]:
                            ctx.count("cut_sets")
            if budget[0] <= 0 or rng.random() > rate:
                return Action(delay=slow)
            budget[0] -= 1
            ctx.count("faults")
            if rng.random() < .2:
                for t in cl.topics.values():
                    for q in t.values():
                        if rng.random() < .4:
                            q.leader = rng.choice(ids)
                log.append("move")
                ctx.count("moved")
            if x.broker.id != anchor and rng.random() < .5:
                m = rng.choice(DROPS)
                log.append((x.api, m))
                if x.api == "fetch":
                    ctx.count("fetch_lost")
                if rng.random() < .2:
                    b = x.broker
                    cl.loop.call_soon(lambda: (b.stop(rng.random() < .5), b.start()))
                return Action(mode=m, cut=rng.randrange(0, 300), delay=slow)
            a = Action(delay=slow)
            if x.api in ("fetch", "offset"):
                for t in x.body["topics"]:
                    for p in t["partitions"]:
                        if rng.random() < .6:
                            if x.api == "fetch":
                                code = rng.choice(RETRIABLE + (-1, 4, 8, 12, 17, 29, 99))
                                ctx.count("fetch_code")
                            else:
                                code = rng.choice(RETRIABLE)
                            a.errors[(t["name"], p["partition_id"])] = code
                log.append((x.api, sorted(a.errors.items())))
            return a
        cl.plan = plan
        given = {}

        def learn(x):
            """The starts the brokers gave (the last answer counts)."""
            if x.api == "offset" and x.response:
                for t in x.response["topics"]:
                    for p in t["partitions"]:
                        if p["error_code"] == 0 and p["offsets"]:
                            given[(t["name"], p["partition_id"])] = p["offsets"][0]
        first = {}

        def asked(x):
            if x.api == "fetch":
                for t in x.body["topics"]:
                    for p in t["partitions"]:
                        tp = (t["name"], p["partition_id"])
                        if tp not in first:
                            first[tp] = p["offset"]
                            if tp in given and given[tp] != p["offset"]:
                                cl.fail("%s|%d is first fetched at %d, the start looked up is %d" % (tp[0], tp[1], p["offset"], given[tp]))
                            track.start[tp] = p["offset"]
        cl.on_applied = learn
        cl.on_request = asked
        await c.connect()
        start = rng.choice((c.BEGINNING, c.BEGINNING, c.BEGINNING, c.END, None, 12345, 12345))
        if start == 12345:
            import datetime
            start = datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=rng.randrange(10 ** 6))
        returns = []
        for step in range(rng.choice((2, 8, 20, 40))):
            n = rng.choice(names)
            if rng.random() < .5:
                logs.fill(n, rng.choice(list(cl.topics[n])), rng.choice((1, 2, 6)))
            if rng.random() < .08:
                # a quiet moment in which idle connections die, then a refresh
                others = [i for i in ids if i != anchor]
                if others:
                    b = cl.brokers[rng.choice(others)]
                    for conn in list(b.conns):
                        rng.choice((conn.close, conn.reset))()
                    if rng.random() < .5:
                        await settle(cl, 1)
            both = names if len(names) > 1 and rng.random() < .4 else [n]
            ctx.count("overlapping_calls", len(both) > 1)
            for n, (k, r) in zip(both, await asyncio.gather(*[outcome(c.consume(m, start=start)) for m in both])):
                ctx.check(k == "ok", "consume of %s raised %r", n, r)
                track.take(n, r, "call %d" % step)
                track.not_beyond(n, cl.topics[n], "call %d" % step)
                returns.append((n, len(r)))
        budget[0] = 0
        for n in names:
            calls = 0
            k, r = await outcome(c.consume(n, start=start))
            ctx.check(k == "ok", "consume of %s raised %r", n, r)
            track.take(n, r, "after the faults")
            bound = track.left(n, cl.topics[n]) + sum(1 for pid in cl.topics[n] for v in logs.text[(n, pid)].values()
                                                      if v in (None, b"null")) + 12
            while track.left(n, cl.topics[n]) > 0 and calls < bound:
                calls += 1
                k, r = await outcome(c.consume(n, start=start))
                ctx.check(k == "ok", "consume of %s raised %r", n, r)
                track.take(n, r, "after the faults")
            track.complete(n, cl.topics[n], "after %d calls without faults" % calls)
            # nothing more comes
            k, r = await outcome(c.consume(n, start=start))
            ctx.check(k == "ok" and r == [], "everything was returned, and now %r", r)
        ctx.sig(log, returns, str(start), kw)
        ctx.sample({"faults": log[:10], "returns": returns[:12], "max_bytes": kw.get("max_bytes")})
        await c.close()
    simulate(ctx, work, 1 if alone else rng.choice((2, 3, 4)))


SCENARIOS = [(1, reading)]
