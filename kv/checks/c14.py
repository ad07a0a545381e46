import asyncio
import json

from kv.checks.prod import RETRIABLE, Ledger
from kv.world import Action, outcome, settle, simulate

ID = "C14"
LEVEL = "exploration"
QUICK, THOROUGH = 900, 25000
RULE = ("producers holding 0-40 pending or in-flight messages are closed while up to 15 requests meet temporary faults (retriable codes, lost "
        "connections, cut answers, leader moves, restarting brokers, failing metadata) and, in some cases, a topic is gone for good or the application goes on flushing; ledger of "
        "every attempt: when close() returns each accepted message is acknowledged or fatally rejected unless its topic no longer exists, "
        "nothing is accepted afterwards, no socket stays open, and close() returns within bounded requests; distinct non-trivial = distinct "
        "(faults met, attempts) with at least one message pending at close")
NEED = {"closed_with_pending": 308, "delivered_by_close": 884, "outcome_retriable": 500, "outcome_lost": 300, "refused": 800, "topic_gone": 47,
        "in_flight_at_close": 125, "flushed_meanwhile": 130}
DROPS = ("drop_before", "drop_after", "reset_before", "reset_after", "partial")


def closing(rng, ctx):
    alone = rng.random() < .15

    async def work(cl):
        from kiel.clients import Producer
        led = Ledger(ctx, cl)
        ids = list(cl.brokers)
        anchor = ids[0]
        names = ["t%d" % i for i in range(rng.choice((1, 2, 3)))]
        for n in names:
            cl.add_topic(n, [rng.choice(ids) for _ in range(rng.choice((1, 2, 4) * 5 + (15,)))])
        shut = [False]

        def ser(m):
            if shut[0]:
                cl.fail("message %r was accepted after close() was called" % m)
            led.accepted.append(m["u"])
            led.topic[m["u"]] = m["t"]
            return json.dumps(m)
        batch = rng.choice((0, 1, 2, 5, 100, 100, 1000))
        p = Producer(cl.hosts, serializer=ser, batch_size=batch, compression=rng.choice((None, None, 1, 2)))
        await p.connect()
        await settle(cl, 1)
        budget, stubborn = [0], [False]
        log = []
        slow_all = rng.random() < .4

        def plan(c):
            slow = rng.choice((0, .002, .02)) if slow_all else 0
            if budget[0] <= 0:
                return Action(delay=slow)
            if c.api == "metadata":
                if rng.random() < .2 and c.broker.id != anchor:
                    budget[0] -= 1
                    return Action(mode=rng.choice(DROPS), cut=rng.randrange(60), delay=slow)
                return Action(delay=slow)
            if stubborn[0] and c.api == "produce":
                budget[0] -= 1
                return Action(delay=slow, errors={"*": rng.choice(sorted(RETRIABLE))})
            if c.api != "produce" or rng.random() < .2:
                return Action(delay=slow)
            budget[0] -= 1
            if rng.random() < .2:
                for t in cl.topics.values():
                    for q in t.values():
                        if rng.random() < .5:
                            q.leader = rng.choice(ids)
                log.append("move")
            if c.broker.id != anchor and rng.random() < .5:
                m = rng.choice(DROPS)
                log.append(m)
                if rng.random() < .2:
                    b = c.broker
                    cl.loop.call_soon(lambda: (b.stop(rng.random() < .5), b.start()))
                return Action(mode=m, cut=rng.randrange(40), delay=slow)
            a = Action(delay=slow, append=True) if False else Action(delay=slow)
            for t in c.body["topics"]:
                for q in t["partitions"]:
                    r = rng.random()
                    if r < .55:
                        a.errors[(t["name"], q["partition_id"])] = rng.choice(sorted(RETRIABLE))
                    elif r < .6:
                        a.errors[(t["name"], q["partition_id"])] = rng.choice((-1, 1, 10, 17, 29, 77))
            a.append = rng.random() < .3
            log.append(sorted(a.errors.items()))
            return a
        cl.plan = plan
        uid = 0
        running = []
        if rng.random() < .5:
            budget[0] = rng.choice((2, 5))
        for _ in range(rng.choice((0, 1, 3, 10, 40) * 4 + (150,) * (batch > 50))):
            uid += 1
            t = rng.choice(names)
            running.append(asyncio.ensure_future(p.produce(t, {"u": uid, "t": t})))
            if rng.random() < .7:
                await asyncio.sleep(0)
            if rng.random() < .4:
                await outcome(running[-1])
        in_flight = sum(1 for r in running if not r.done())
        gone = None
        if rng.random() < .15 and not in_flight:
            gone = rng.choice(names)
            del cl.topics[gone]
            ctx.count("topic_gone")
        budget[0] = rng.choice((0, 1, 4, 15))
        if rng.random() < .04:                   # trouble that takes its time
            stubborn[0] = True
            budget[0] = rng.choice((30, 60, 240))
            ctx.count("stubborn")
        at_close = [u for u in led.accepted if led.state(u) in ("pending", "outstanding")]
        if in_flight:
            ctx.count("in_flight_at_close")
        if at_close:
            ctx.count("closed_with_pending")
        fut = asyncio.ensure_future(p.close())
        await asyncio.sleep(0)
        shut[0] = True
        flushes = []
        if rng.random() < .3:
            every = rng.choice((.0005, .003, .03, .2))
            ctx.count("flushed_meanwhile")

            async def ticker():
                # an application that flushes now and then does so while close() is under way, too
                while not fut.done():
                    await asyncio.sleep(rng.random() * every)
                    if not fut.done():
                        flushes.append(asyncio.ensure_future(p.flush()))
            ticking = asyncio.ensure_future(ticker())
        else:
            ticking = None
        # offered while closing: refused
        if rng.random() < .5:
            await asyncio.sleep(rng.choice((0, .001, .05, .2)))
        before = len(led.accepted)
        k, r = await outcome(p.produce(rng.choice(names), {"u": -1, "t": "x"}))
        ctx.check(k == "ok", "produce() while closing raised %r", r)
        k, r = await outcome(fut)
        ctx.check(k == "ok", "close() raised %r although broker %s always answers", r, anchor)
        await settle(cl, 8)
        if ticking:
            await ticking
        for r in running:
            k, v = await outcome(r)
            ctx.check(k == "ok", "a produce() overlapping close() raised %r", v)
        for r in flushes:
            await outcome(r)
        n_req = cl.requests
        n_conn = cl.connections
        k, r = await outcome(p.produce(rng.choice(names), {"u": -2, "t": "x"}))
        ctx.check(k == "ok", "produce() after close() raised %r", r)
        await settle(cl, 2)
        ctx.check(len(led.accepted) == before, "a message was accepted after close()")
        ctx.check(cl.requests == n_req and cl.connections == n_conn, "produce() after close() talked to the brokers")
        ctx.count("refused", 2)
        left = cl.open_conns()
        ctx.check(not left, "%d connections are open after close()", len(left))
        for u in led.accepted:
            st = led.state(u)
            if led.topic[u] == gone:
                continue
            ctx.check(st in ("acked", "fatal", "unsure"), "close() returned although message %r is %s; attempts %r", u, st,
                      [(a["tp"], a["status"], a["code"]) for a in led.attempts[u]])
            if u in at_close and st == "acked":
                ctx.count("delivered_by_close")
            if st == "acked":
                ctx.check(led.appended[u] >= 1, "message %r never reached a log", u)
        if at_close:
            ctx.sig(batch, log, gone, [[(a["tp"], a["status"], a["code"]) for a in led.attempts[u]] for u in led.accepted])
        ctx.sample({"pending_at_close": len(at_close), "faults": log[:10], "gone": gone})
    simulate(ctx, work, 1 if alone else rng.choice((2, 3, 4)))


SCENARIOS = [(1, closing)]
