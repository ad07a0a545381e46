import asyncio
import json

from kv.checks.prod import RETRIABLE, Ledger
from kv.world import Action, outcome, settle, simulate

ID = "C11"
LEVEL = "exploration"
QUICK, THOROUGH = 1100, 30000
RULE = ("random histories of 5-40 sequential or overlapping produce()/flush() calls over 1-3 topics, 1-4 brokers and batch sizes 0-7, with "
        "retriable and fatal codes per partition, connections lost before/after the append or mid-answer, delayed answers, leader moves, "
        "broker restarts and outages, topics vanishing and returning, and metadata faults; online ledger of every attempt per message: never resent after "
        "an acknowledgement or fatal code, never twice outstanding, appended at most once per unanswered attempt; at every quiescent moment the "
        "pending count equals the messages neither acknowledged nor fatally rejected; after the faults everything pending is acknowledged by "
        "later flushes, half the time without any other refresh; distinct non-trivial = distinct (operations, outcomes) with at least one fault")
NEED = {"outcome_acked": 3000, "outcome_retriable": 800, "outcome_fatal": 200, "outcome_lost": 500, "quiescent_checks": 1500, "vanished": 100, "outages": 207, "flushes_alone": 263}
DROPS = ("drop_before", "drop_after", "reset_before", "reset_after", "partial")


def history(rng, ctx):
    alone = rng.random() < .12
    overlap = rng.random() < .5
    n_brokers = 1 if alone else rng.choice((2, 2, 3, 4) * 6 + (9,))

    async def work(cl):
        from kiel.clients import Producer
        from kiel.exc import NoBrokersError
        led = Ledger(ctx, cl)
        ids = list(cl.brokers)
        anchor = None if alone else ids[0]
        names = ["t%d" % i for i in range(rng.choice((1, 2, 3)))]
        for n in names:
            cl.add_topic(n, [rng.choice(ids) for _ in range(rng.choice((1, 2, 4) * 6 + (16,)))])

        def ser(m):
            v = json.dumps(m)
            if m["u"] not in led.topic:
                led.accepted.append(m["u"])
                led.topic[m["u"]] = m["t"]
            return v
        batch = rng.choice((0, 1, 1, 2, 3, 7) * 4 + (25,))
        p = Producer(cl.hosts, serializer=ser, batch_size=batch, compression=rng.choice((None, None, 1, 2)))
        await p.connect()
        await settle(cl, 1)
        budget = [rng.choice((3, 8, 20))]
        meta = [0]
        fault_rate = rng.choice((.1, .4, .8))
        log = []

        def plan(c):
            slow = rng.choice((0, 0, .002, .01)) if overlap else 0
            if out:
                slow = max(slow, .004)
            if c.api == "metadata" and budget[0] > 0 and rng.random() < .15:
                budget[0] -= 1
                if c.broker.id != anchor and not alone:
                    return Action(mode=rng.choice(DROPS), cut=rng.randrange(60), delay=slow)
                meta[0] = rng.choice((1, 2))
                return Action(delay=slow)
            if c.api != "produce" or budget[0] <= 0 or rng.random() > fault_rate:
                return Action(delay=slow)
            budget[0] -= 1
            if c.broker.id != anchor and rng.random() < (.1 if alone else .5):
                m = rng.choice(DROPS)
                log.append(m)
                return Action(mode=m, cut=rng.randrange(40), delay=slow)
            a = Action(delay=slow)
            for t in c.body["topics"]:
                for q in t["partitions"]:
                    r = rng.random()
                    if r < .45:
                        a.errors[(t["name"], q["partition_id"])] = rng.choice(sorted(RETRIABLE))
                    elif r < .6:
                        a.errors[(t["name"], q["partition_id"])] = rng.choice((-1, 1, 4, 8, 10, 12, 13, 17, 18, 21, 29, 77, -300))
            if rng.random() < .3:
                a.append = True
            log.append(sorted(a.errors.items()))
            return a
        cl.plan = plan

        def view(v, c):
            if meta[0] > 0:
                meta[0] -= 1
                for t in v["topics"]:
                    for q in t["partitions"]:
                        if rng.random() < .5:
                            q["error_code"], q["leader"] = 5, -1
            return v
        cl.metadata_view = view
        uid = [0]
        gone = {}
        out = set()
        ops = []
        failed = []

        def back(b):
            out.discard(b.id)
            b.start()

        def disturb():
            op = rng.choice(("move", "restart", "vanish", "back", "kill") + ("outage",) * 3 * overlap)
            others = [i for i in ids if i != anchor]
            if op == "move" and not alone:
                for t in cl.topics.values():
                    for q in t.values():
                        if rng.random() < .5:
                            q.leader = rng.choice(ids)
            elif op == "restart" and others and not alone:
                b = cl.brokers[rng.choice(others)]
                if b.id not in out:
                    b.stop(rng.random() < .5)
                    b.start()
            elif op == "outage" and others and not alone:
                # a broker still reported, leading partitions, but not there for a while
                b = cl.brokers[rng.choice(others)]
                if b.id not in out:
                    out.add(b.id)
                    b.stop(rng.random() < .5)
                    cl.loop.call_later(rng.choice((.02, .05, .1)), back, b)
                    ctx.count("outages")
            elif op == "kill" and others and not alone:
                for c in list(cl.brokers[rng.choice(others)].conns):
                    rng.choice((c.close, c.reset))()
            elif op == "vanish" and len(cl.topics):
                n = rng.choice(sorted(cl.topics))
                gone[n] = cl.topics.pop(n)
                ctx.count("vanished")
            elif op == "back" and gone:
                n, t = gone.popitem()
                cl.topics[n] = t
            else:
                return
            log.append(op)

        async def do_produce():
            t = rng.choice(names)
            u = uid[0] = uid[0] + 1
            k, r = await outcome(p.produce(t, {"u": u, "t": t, "x": "y" * rng.choice((0, 10, 300))}))
            if k != "ok":
                failed.append(r)

        async def do_flush():
            k, r = await outcome(p.flush())
            if k != "ok":
                failed.append(r)
        for step in range(rng.choice((5, 12, 25, 40) * 8 + (250,))):
            if rng.random() < .12:
                disturb()
                if rng.random() < .5:
                    await settle(cl, 1)
            op = do_flush if rng.random() < .2 else do_produce
            if overlap and rng.random() < .7:
                ops.append(asyncio.ensure_future(op()))
                if rng.random() < .4:
                    await asyncio.sleep(rng.choice((0, .001, .004)))
            else:
                await op()
            if rng.random() < .15:
                for o in ops:
                    await o
                ops = []
                await settle(cl, 1)
                led.quiescent(p, "after step %d" % step)
        for o in ops:
            await o
        await settle(cl, 1)
        for r in failed:
            if not (alone and isinstance(r, NoBrokersError)):
                ctx.violation("produce/flush raised %r although broker %s always answers" % (r, anchor))
        led.quiescent(p, "after the last operation")
        budget[0] = 0
        cl.topics.update(gone)
        dead = alone and not [i for i in p.cluster if not p.cluster[i].closing]
        if not dead:
            if rng.random() < .5:
                await p.cluster.heal()
            else:
                ctx.count("flushes_alone")
            for i in range(10):
                if not p.unsent_count:
                    break
                k, r = await outcome(p.flush())
                ctx.check(k == "ok", "flush after the faults raised %r", r)
            led.quiescent(p, "after the final flushes")
            led.delivered("after the final flushes")
        else:
            ctx.count("cut_off")
        if any(x for x in log):
            ctx.sig(log, batch, overlap, [(u, [(a["tp"], a["status"], a["code"]) for a in at]) for u, at in sorted(led.attempts.items())])
        ctx.sample({"messages": len(led.accepted), "faults": log[:12], "batch": batch, "overlapping": overlap})
        await outcome(p.close())
    simulate(ctx, work, n_brokers)


SCENARIOS = [(1, history)]
