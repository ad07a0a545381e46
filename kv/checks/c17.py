import collections
import json

from kv.world import Action, outcome, settle, simulate

ID = "C17"
LEVEL = "exploration"
QUICK, THOROUGH = 1000, 28000
RULE = ("single consumers with random wait time, minimum and maximum bytes fetch 1-3 topics of 1-9 partitions over 1-4 brokers while leaders "
        "move, partitions are added, leaders are temporarily unknown, fetches fail with codes or lost connections and metadata is refreshed; "
        "the broker-side oracle groups each call's fetch requests into a round and compares them with the latest metadata delivered and the "
        "positions implied by what was returned; distinct non-trivial = distinct (layout, settings, rounds)")
NEED = {"rounds": 4000, "partitions_asked": 15000, "uneven": 500, "moved": 200, "grown": 100, "failed": 500}
DROPS = ("drop_before", "drop_after", "reset_before", "reset_after", "partial")


def rounds(rng, ctx):
    alone = rng.random() < .15

    async def work(cl):
        from kiel.clients import SingleConsumer
        from kv.broker import Partition
        ids = list(cl.brokers)
        anchor = ids[0]
        names = ["t%d" % i for i in range(rng.choice((1, 1, 2, 3)))]
        for n in names:
            cl.add_topic(n, {pid: rng.choice(ids) for pid in rng.choice((rng.sample(range(12), rng.choice((1, 2, 3, 5, 9))),) * 8 + (rng.sample(range(200), 24),))})
        want = {"max_wait_time": rng.choice((1000, 0, 1, 250, 2 ** 31 - 1)), "min_bytes": rng.choice((1, 0, 7, 2 ** 20)),
                "max_bytes": rng.choice((1024 * 1024, 1000, 997, 2 ** 31 - 1, 65536, 4096, 4096, 1000, 7))}
        kw = dict(want)
        if rng.random() < .25:
            kw = {}
            want = {"max_wait_time": 1000, "min_bytes": 1, "max_bytes": 1024 * 1024}
        latest = {}

        def learn(v):
            latest.clear()
            for t in v["topics"]:
                latest[t["name"]] = {p["partition_id"]: p["leader"] for p in t["partitions"] if p["error_code"] == 0}
            return v
        hidden = {}

        def view(v, x):
            for t in v["topics"]:
                for p in t["partitions"]:
                    if hidden.get((t["name"], p["partition_id"]), 0) > 0:
                        hidden[(t["name"], p["partition_id"])] -= 1
                        p["error_code"], p["leader"] = 5, -1
            return v
        cl.metadata_view = view
        rate = [0]
        position = {}
        rnd = []
        failures = set()
        log = []

        def seen(x):
            if x.api != "fetch":
                return
            b = x.body
            for k in ("max_wait_time", "min_bytes"):
                if b[k] != want[k]:
                    cl.fail("fetch request has %s %r, configured is %r" % (k, b[k], want[k]))
            tps = [(t["name"], p["partition_id"]) for t in b["topics"] for p in t["partitions"]]
            for t in b["topics"]:
                for p in t["partitions"]:
                    share = want["max_bytes"] // len(tps)
                    if p["max_bytes"] != share:
                        cl.fail("partition %d is asked for %d bytes, %d divided by %d is %d" % (
                            p["partition_id"], p["max_bytes"], want["max_bytes"], len(tps), share))
                    rnd.append((x.broker.id, (t["name"], p["partition_id"]), p["offset"], (x.conn.cid, x.corr)))
            if want["max_bytes"] % len(tps):
                ctx.count("uneven")

        def plan(x):
            a = Action(delay=rng.choice((0, 0, .002)))
            if x.api == "metadata":
                a.edit = learn
            if x.api == "fetch" and rng.random() < rate[0]:
                tps = [(t["name"], p["partition_id"]) for t in x.body["topics"] for p in t["partitions"]]
                ctx.count("failed")
                if x.broker.id != anchor and rng.random() < .4:
                    a.mode, a.cut = rng.choice(DROPS), rng.randrange(100)
                    failures.update(tps)
                    return a
                for tp in tps:
                    if rng.random() < .6:
                        a.errors[tp] = rng.choice((2, 3, 5, 6, 7, 9, 14, 19, -1, 4, 13, 29))
                        failures.add(tp)
            return a
        cl.plan = plan
        cl.on_request = seen
        c = SingleConsumer(cl.hosts, **kw)
        await c.connect()
        for n in names:
            await c.consume(n, start=c.BEGINNING)
            for pid in cl.topics[n]:
                position[(n, pid)] = 0
        for step in range(rng.choice((3, 8, 15))):
            r = rng.random()
            n = rng.choice(names)
            if r < .15:
                for q in cl.topics[n].values():
                    if rng.random() < .5:
                        q.leader = rng.choice(ids)
                log.append("move")
                ctx.count("moved")
            elif r < .25:
                pid = max(cl.topics[n]) + rng.choice((1, 2))
                cl.topics[n][pid] = Partition(pid, rng.choice(ids))
                position[(n, pid)] = 0
                log.append("grow")
                ctx.count("grown")
            elif r < .32:
                for pid in cl.topics[n]:
                    if rng.random() < .3:
                        hidden[(n, pid)] = rng.choice((1, 2))
            elif r < .45:
                await c.cluster.heal()
            rate[0] = rng.choice((0, 0, 0, .3, .8))
            for pid, q in cl.topics[n].items():
                if rng.random() < .3:
                    for _ in range(rng.choice((1, 2))):
                        q.append([(None, json.dumps([n, pid, q.end]).encode())])
            del rnd[:]
            failures.clear()
            known = {pid: b for pid, b in latest.get(n, {}).items()}
            k, r = await outcome(c.consume(n, start=c.BEGINNING))
            ctx.check(k == "ok", "consume raised %r", r)
            ctx.count("rounds")
            asked = collections.Counter(tp for _, tp, _, _ in rnd)
            ctx.count("partitions_asked", len(asked))
            ctx.check(asked == {(n, pid): 1 for pid in known}, "a round for %s asked for %r, its partitions are %r", n, dict(asked), sorted(known))
            reqs = collections.defaultdict(set)
            for b, tp, off, req in rnd:
                ctx.check(known[tp[1]] == b, "%s|%d was asked of broker %d, its leader is %r", tp[0], tp[1], b, known[tp[1]])
                ctx.check(off == position[tp], "%s|%d was asked at %d, the position is %d", tp[0], tp[1], off, position[tp])
                reqs[b].add(req)
            ctx.check(all(len(v) == 1 for v in reqs.values()), "several requests to one leader in a round: %r", dict(reqs))
            for v in r:
                ctx.check(v[0] == n and v[2] == position[(n, v[1])], "returned %r at position %d", v, position.get((n, v[1]), -1))
                position[(n, v[1])] += 1
        ctx.sig(kw, names, log, [sorted((pid, q.leader, q.end) for pid, q in cl.topics[n].items()) for n in names])
        ctx.sample({"settings": kw, "partitions": {n: len(cl.topics[n]) for n in names}, "events": log[:10]})
        await c.close()
    simulate(ctx, work, 1 if alone else rng.choice((2, 3, 4)))


SCENARIOS = [(1, rounds)]
