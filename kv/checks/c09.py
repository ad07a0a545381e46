import asyncio

from kv.world import Action, outcome, settle, simulate

ID = "C09"
LEVEL = "exploration"
QUICK, THOROUGH = 1200, 30000
RULE = ("random histories of 2-8 steps over 1-5 brokers and 0-5 topics: leader moves, broker stop/restart (same or new address)/addition/removal, "
        "topic creation/deletion (with and without the deleted topic still listed as unknown)/growth, then 1-4 overlapping refreshes (explicit, or triggered by producing/consuming) under transient conditions "
        "that last 1-40 metadata requests: leaderless partitions, leaders outside the broker list, topic-level replica errors, reported brokers that "
        "refuse or whose address is nonsense, a broker dying while answering, changes while a refresh is running that is followed by another one; monitor: when the refreshes are finished the client's topics, partitions and leaders equal "
        "the cluster's, there is exactly one open connection per reported broker and none to others, and a request sent through "
        "each of them arrives at that very broker; distinct non-trivial = distinct step sequences with a change")
NEED = {"refreshes": 2000, "transients": 800, "overlapping": 400, "changes": 1500, "changes_during_refreshes": 300, "ghosts": 200, "misnamed": 150}


def one(rng, ctx):
    async def work(cl):
        from kiel.cluster import Cluster
        from kiel.clients import Producer, SingleConsumer
        from kiel.protocol import metadata
        cl.max_requests = 6000
        ids = list(cl.brokers)
        reported = set(ids)
        history = []
        nextid = [max(ids) + 1]

        def place():
            return rng.choice(sorted(reported))

        for i in range(rng.choice((0, 1, 2, 3))):
            cl.add_topic("t%d" % i, [place() for _ in range(rng.choice((1, 2, 4) * 5 + (14,)))])
        kind = rng.choice((Producer, SingleConsumer))
        client = kind([cl.brokers[i].addr for i in sorted(reported)])
        cluster = client.cluster
        transient = []          # [remaining metadata requests, fn(view)]
        ghosts = set()          # deleted, but still listed as unknown
        dying = {}              # broker id -> remaining faulty answers, mode

        def view(v, c):
            ids = sorted(reported)
            v["brokers"] = [{"broker_id": i, "host": cl.brokers[i].host, "port": cl.brokers[i].port} for i in ids]
            for n in sorted(ghosts):
                if n not in cl.topics:
                    v["topics"].append({"error_code": 3, "name": n, "partitions": []})
                    ctx.count("ghosts")
            rng.shuffle(v["brokers"])
            rng.shuffle(v["topics"])
            for t in v["topics"]:
                rng.shuffle(t["partitions"])
            for item in list(transient):
                if item[0] > 0:
                    item[1](v)
                    ctx.count("transients")
                item[0] -= 1
                if item[0] == 0 and item[2]:
                    item[2]()
                if item[0] <= 0:
                    transient.remove(item)
            return v
        cl.metadata_view = view

        def plan(c):
            if c.api != "metadata":
                return
            d = dying.get(c.broker.id)
            if d and d[2] > 0:
                d[2] -= 1
                d = None
            if d and d[0] > 0:
                d[0] -= 1
                ctx.count("dying_answers")
                return Action(mode=d[1], cut=rng.randrange(0, 50), delay=rng.choice((0, .01)))
            return Action(delay=rng.choice((0, 0, .005, .02)))
        cl.plan = plan
        # every cluster partition must be led by a reported broker
        cl.reported = None

        def fix_leaders():
            for t in cl.topics.values():
                for p in t.values():
                    if p.leader not in reported:
                        p.leader = place()

        def change(anchor):
            op = rng.choice(("move", "move", "stop_restart", "add", "remove", "leave", "topic", "untopic", "grow", "moveaddr", "noop", "kill_conn"))
            others = [i for i in sorted(reported) if i != anchor]
            if op == "move":
                for t in cl.topics.values():
                    for p in t.values():
                        if rng.random() < .5:
                            p.leader = place()
            elif op == "stop_restart" and others:
                b = cl.brokers[rng.choice(others)]
                b.stop(rng.random() < .5)
                b.start()
            elif op == "kill_conn" and others:
                for c in list(cl.brokers[rng.choice(others)].conns):
                    rng.choice((c.close, c.reset))()
            elif op == "moveaddr" and others:
                i = rng.choice(others)
                old = cl.brokers[i]
                old.dispose()
                cl.add_broker(i)
            elif op == "add" and len(reported) < 6:
                i = nextid[0]
                nextid[0] += 1
                cl.add_broker(i)
                reported.add(i)
            elif op in ("remove", "leave") and others:
                i = rng.choice(others)
                reported.discard(i)
                if op == "remove":
                    cl.brokers[i].stop(rng.random() < .5)
                fix_leaders()
            elif op == "topic" and len(cl.topics) < 6:
                cl.add_topic("n%d" % rng.randrange(1000), [place() for _ in range(rng.choice((1, 2, 5)))])
            elif op == "untopic" and cl.topics:
                gone = rng.choice(sorted(cl.topics))
                cl.topics.pop(gone)
                if rng.random() < .5:
                    ghosts.add(gone)
            elif op == "grow" and cl.topics:
                t = cl.topics[rng.choice(sorted(cl.topics))]
                from kv.broker import Partition
                n = len(t)
                t[n] = Partition(n, place())
            else:
                return "noop"
            ctx.count("changes")
            return op

        def add_transient(anchor):
            k = rng.choice((1, 1, 2, 4) * 3 + (12, 40))
            names = sorted(cl.topics)
            op = rng.choice(("part5", "stranger", "topic9", "part9", "missing", "unreachable", "dying", "misnamed"))
            if op in ("part5", "stranger", "topic9", "part9"):
                if not names:
                    return None
                victim = {n for n in names if rng.random() < .5} or {names[0]}

                def fn(v):
                    for t in v["topics"]:
                        if t["name"] not in victim:
                            continue
                        if op == "topic9":
                            t["error_code"], t["partitions"] = 9, []
                            continue
                        for p in t["partitions"][:rng.choice((1, 9))]:
                            if op == "part5":
                                p["error_code"], p["leader"], p["isrs"] = 5, -1, []
                            elif op == "part9":
                                p["error_code"] = 9
                            else:
                                p["leader"] = 7777
                transient.append([k if op != "part9" else 99999, fn, None])
                return op, k
            others = [i for i in sorted(reported) if i != anchor]
            if not others:
                return None
            i = rng.choice(others)
            if op == "missing":
                def fn(v):
                    v["brokers"] = [b for b in v["brokers"] if b["broker_id"] != i]
                if not any(p.leader == i for t in cl.topics.values() for p in t.values()):
                    return None  # the client has no reason to ask again
                transient.append([k, fn, None])
            elif op == "misnamed":               # its address is nonsense for a while
                name, port = rng.choice((("nosuch host.invalid", 9092), ("a..b", 9092), ("x" * 70, 9092), (cl.brokers[i].host, 70000)))
                b = cl.brokers[i]
                b.stop(rng.random() < .5)
                b.start()

                def fn(v):
                    for x in v["brokers"]:
                        if x["broker_id"] == i:
                            x["host"], x["port"] = name, port
                    ctx.count("misnamed")
                transient.append([k, fn, None])
            elif op == "unreachable":
                b = cl.brokers[i]
                b.stop(rng.random() < .5)
                transient.append([k, lambda v: None, b.start, i])
            else:
                dying[i] = [k, rng.choice(("drop_before", "reset_before", "drop_after", "partial", "reset_after")), rng.choice((0, 0, 1, 2))]
            return op, k

        def verify(label):
            got = {t: sorted(p) for t, p in cluster.topics.items() if p}
            want = {t: sorted(p) for t, p in cl.topics.items()}
            ctx.check(got == want, "%s: topics known are %r, the cluster has %r (%s)", label, got, want, history)
            got = {t: dict(p) for t, p in cluster.leaders.items() if p}
            want = {t: {p.pid: p.leader for p in ps.values()} for t, ps in cl.topics.items()}
            ctx.check(got == want, "%s: leaders known are %r, actually %r (%s)", label, got, want, history)
            for i, b in cl.brokers.items():
                n = len([c for c in b.conns if not c.closed])
                ctx.check(n == (i in reported), "%s: %d open connections to broker %s, reported: %s (%s)", label, n, i, sorted(reported), history)

        async def routes(label):
            for i in sorted(reported):
                ctx.check(i in cluster, "%s: broker %s is not in the cluster view", label, i)
                before = len(cl.events)
                k, r = await outcome(cluster[i].send(metadata.MetadataRequest(topics=["probe"])))
                ctx.check(k == "ok", "%s: connection to broker %s is dead (%r) (%s)", label, i, r, history)
                hit = [e[2] for e in cl.events[before:] if e[0] == "req"]
                ctx.check(hit == [i], "%s: request for broker %s arrived at %s", label, i, hit)

        k, r = await outcome(client.connect())
        ctx.check(k == "ok", "connect failed: %r", r)
        await settle(cl)
        verify("after connect")
        for step in range(rng.choice((2, 3, 5, 8))):
            # somebody connected has to remain able to answer
            alive = [i for i in sorted(reported) if i in cluster and not cluster[i].closing]
            anchor = rng.choice(alive)
            log = [change(anchor) for _ in range(rng.choice((0, 1, 1, 2, 3)))]
            history.append((step, log))
            # deaths of connections are only noticed by the loop
            if rng.random() < .7:
                await settle(cl, 1)
            for _ in range(rng.choice((0, 0, 1, 1, 2, 3))):
                log.append(add_transient(anchor))
            n = rng.choice((1, 1, 1, 2, 3, 4))
            # leaders that move away from a broker missing in an answer leave no reason to ask for it again
            mid = rng.random() < .3 and not any(x and x[0] == "missing" for x in log if isinstance(x, tuple))
            ops = []

            def refresh(j):
                how = rng.choice(("heal", "heal", "unknown", "flag"))
                if how == "heal":
                    ops.append(asyncio.ensure_future(outcome(cluster.heal())))
                elif how == "unknown":
                    ops.append(asyncio.ensure_future(outcome(
                        client.produce("nope%d" % j, 1) if kind is Producer else client.consume("nope%d" % j))))
                else:
                    client.heal_cluster = True
                    ops.append(asyncio.ensure_future(outcome(client.send({}))))
                log.append(how)
            for j in range(n):
                refresh(j)
                if rng.random() < .5:
                    await asyncio.sleep(rng.choice((0, .001, .01, .03)))
            if n > 1:
                ctx.count("overlapping")
            if mid:
                # whatever is asked for from here on has to know of it
                log.append(("mid", change(anchor)))
                await asyncio.sleep(rng.choice((.001, .004, .01)))
                if not all(op.done() for op in ops):
                    ctx.count("changes_during_refreshes")
                refresh(n)
            for op in ops:
                k, r = await op
                if k != "ok":
                    ctx.violation("refresh failed with %r although broker %s answers (%s)" % (r, anchor, history))
                ctx.count("refreshes")
            transient[:] = [x for x in transient if x[2]]
            dying.clear()
            for x in transient:
                ctx.count("given_up_checks")
                if not mid and x[3] in reported and x[3] not in cluster:
                    ctx.violation("refreshing ended without a connection to broker %s, which is reported and was about to be reachable (%s)" % (
                        x[3], history))
            if transient:
                for x in transient:
                    x[2]()
                transient[:] = []
                k, r = await outcome(cluster.heal())
                ctx.check(k == "ok", "refresh failed with %r although broker %s answers (%s)", r, anchor, history)
            await settle(cl)
            verify("step %d" % step)
            await routes("step %d" % step)
        ctx.sig(history)
        ctx.sample({"history": history})
        k, r = await outcome(client.close())
        ctx.check(k == "ok", "close failed: %r", r)
        await settle(cl)
        ctx.check(not cl.open_conns(), "sockets left open after close")
    simulate(ctx, work, rng.choice((1, 2, 3, 3, 4) * 4 + (9,)))


SCENARIOS = [(1, one)]
