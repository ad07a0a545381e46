import asyncio
import collections
import json
import threading
import time

from kv.broker import Partition
from kv.world import Action, outcome, settle, simulate
from .grp import BASE, DROPS, GROUP, RETRIABLE, by_hash, served
from .zkc import PATIENCE, flat, until, zk_case

ID = "C28"
LEVEL = "exploration"
QUICK, THOROUGH = 500, 8000
RULE = ("1-4 real grouped consumers of one group (real kazoo, real sockets, virtual broker time) start, consume 1-2 topics of 1-6 partitions, "
        "alone or at the same time, close, crash, lose their zookeeper session or connection while messages arrive, partitions are added, "
        "leaders and coordinator move and requests of every kind fail, with rebalances striking while calls are in flight; monitor: at the end every message "
        "from the group's initial offsets on has been returned to some member (but for what a crashed member's last, unfinished call had been sent), and "
        "while the group is settled no message is returned twice; distinct non-trivial = distinct histories")
NEED = {"members": 500, "changes": 600, "handed_over": 150, "crashes": 60, "expired": 60, "calls_across_changes": 150, "returned": 6000, "settled_twice_checks": 3000}
ASSUMPTIONS = ("every partition has a committed offset within its log (others: KNOWN_FINDINGS)", "consume() calls of one member on one topic do not overlap")


class Member(object):
    def __init__(self, c):
        self.c, self.name, self.done, self.calls, self.session = c, c.name, None, {}, None


class Call(object):
    def __init__(self, member, topic, start):
        self.member, self.topic, self.start, self.sent, self.over, self.task = member, topic, start, [], False, None


@zk_case()
def group(rng, ctx, zk):
    async def work(cl):
        from kiel.clients import GroupedConsumer
        from kiel.clients.grouped import naive_allocator
        cl.max_requests = 6000
        ids = list(cl.brokers)
        cl.coordinator = rng.choice(ids)
        names = ["t%d" % i for i in range(rng.choice((1, 1, 2)))]
        first = {}

        def append(t, pid, n):
            p = cl.topics[t][pid]
            for _ in range(n):
                p.append([(None, json.dumps([t, pid, p.end]).encode())])

        def begin(t, pid):
            q = cl.part(t, pid)
            q.start = q.end = rng.choice((0, 0, 0, 3, 2 ** 31 - 2, 2 ** 50))
            append(t, pid, rng.choice((0, 2, 6, 15)))
            first[(t, pid)] = o = rng.choice((q.start, q.start, rng.randrange(q.start, q.end + 1)))
            cl.committed[(GROUP, t, pid)] = (o, "")
        for t in names:
            cl.add_topic(t, [rng.choice(ids) for _ in range(rng.choice((1, 2, 4, 6) * 5 + (14,)))])
            for pid in cl.topics[t]:
                begin(t, pid)
        auto = rng.random() < .7
        fn = rng.choice((naive_allocator, naive_allocator, by_hash(rng.random())))
        live, log, everyone = [], [], {}
        got = collections.defaultdict(list)          # (t, pid, offset) -> calls
        excused = set()
        st = {"clock": 0, "settled": None, "faults": 0, "rate": 0}
        fetching = {}                                # local port of a connection -> member

        def tick():
            st["clock"] += 1
            return st["clock"]

        def changed(what):
            log.append(what)
            ctx.count("changes")
            st["settled"] = None
            for m in live:
                for call in m.calls.values():
                    ctx.count("calls_across_changes")
                    call.start = -1                  # what it returns may come again

        def plan(x):
            a = Action(delay=rng.choice((0, 0, .001, .004)))
            if st["faults"] <= 0 or rng.random() > st["rate"]:
                return a
            st["faults"] -= 1
            if x.broker.id != ids[0] and rng.random() < .4:
                a.mode, a.cut = rng.choice(DROPS), rng.randrange(60)
            elif x.api == "fetch":
                for t in x.body["topics"]:
                    for p in t["partitions"]:
                        if rng.random() < .5:
                            a.errors[(t["name"], p["partition_id"])] = rng.choice((2, 3, 5, 6, 7, -1))
            elif x.api == "group_coordinator":
                a.error = rng.choice(RETRIABLE)
            elif x.api in ("offset_fetch", "offset_commit"):
                a.errors["*"] = rng.choice((14, 15, 16, 16, 7) if x.api == "offset_fetch" else (14, 15, 16, 16, 7, 12))
            return a

        def whose(conn):
            """Which member's connection this is (all of them if it cannot be told)."""
            port = (conn.transport.get_extra_info("peername") or (0, 0))[1]
            if port not in fetching:
                for m in everyone.values():
                    for c in list(m.c.cluster.conns.values()):
                        try:
                            fetching[c.stream.socket.getsockname()[1]] = m
                        except Exception:
                            pass
            return [fetching[port]] if port in fetching else list(everyone.values())

        def sent(x, what):
            if x.api != "fetch":
                return
            for t in x.response["topics"]:
                for p in t["partitions"]:
                    if not p["error_code"]:
                        for m in whose(x.conn):
                            call = m.calls.get(t["name"])
                            if call is not None:
                                call.sent += [(t["name"], p["partition_id"], o) for o in served(p["message_set"])]
        cl.plan, cl.on_sent = plan, sent

        def state():
            return zk.children(BASE + "/members"), sorted(json.loads((zk.data(BASE + "/partitions") or b"[]").decode()))

        def settled():
            """Waits until every member has been told of the group as it is."""
            def there():
                s = state()
                return s[0] == sorted(m.name for m in live) and all(m.done == s for m in live)
            ok = until(there, PATIENCE)
            ctx.check(ok, "after %r: members and partitions are %r, running are %r, told of %r", log[-8:], state(), sorted(m.name for m in live),
                      [m.done for m in live])
            s = state()
            share = fn(*[list(x) for x in s])
            for m in live:
                ok = until(lambda: flat(m.c.allocation) == flat(share.get(m.name)), PATIENCE)
                ctx.check(ok, "after %r: %s holds %r of %r", log[-8:], m.name, flat(m.c.allocation), flat(share.get(m.name)))
            st["settled"] = tick()
            ctx.count("settled")

        async def start():
            kw = {} if fn is naive_allocator else {"partition_allocator": fn}
            c = GroupedConsumer(cl.hosts, GROUP, zk.hosts, autocommit=auto, **kw)
            zk.cleanup.append(c.allocator.conn)
            zk.consumers = getattr(zk, "consumers", []) + [c]
            m = Member(c)
            hooked = c.allocator.on_rebalance

            def rebalanced(*a, **k):
                if st["settled"] is not None:        # word of an earlier change, late
                    st["settled"] = None
                    ctx.count("late_notices")
                    for call in [x for n in list(live) for x in list(n.calls.values())]:
                        call.start = -1
                r = hooked(*a, **k)
                m.done = (sorted(c.allocator.members), sorted(c.allocator.partitions))
                return r
            c.allocator.on_rebalance = rebalanced
            everyone[m.name] = m
            changed("start")
            live.append(m)
            k, v = await outcome(c.connect())
            ctx.check(k == "ok", "after %r: connect() raised %r", log[-8:], v)
            m.session = zk.session_of(c.allocator.conn)
            changed("started")
            ctx.count("members")

        def consume(m, topic):
            m.calls[topic] = call = Call(m, topic, tick() if st["settled"] else -1)
            return consuming(m, topic, call)

        async def consuming(m, topic, call):
            k, v = await outcome(m.c.consume(topic))
            call.over = True
            if m.calls.get(topic) is call:
                del m.calls[topic]
            if m not in live:
                if v is None or m.crashed or k == "err":
                    return
            ctx.check(k == "ok", "after %r: consume() raised %r", log[-8:], v)
            if v is None:
                return
            for x in v:
                t, pid, o = x
                ctx.check(t == topic and (t, pid) in first and o >= first[(t, pid)], "after %r: consuming %s returned %r", log[-8:], topic, x)
                for other in got[(t, pid, o)]:
                    ctx.check(st["settled"] is None or min(call.start, other.start) < st["settled"],
                              "after %r: offset %d of %s|%d was returned twice while nothing changed in the group (%s, %s)",
                              log[-8:], o, t, pid, other.member.name, m.name)
                    ctx.count("duplicates")
                    if other.member is not m:
                        ctx.count("handed_over_twice")
                mark = owners.get((t, pid))
                if mark is not None and mark is not m:
                    ctx.count("handed_over")
                owners[(t, pid)] = m
                got[(t, pid, o)].append(call)
                ctx.count("settled_twice_checks", st["settled"] is not None and call.start >= st["settled"])
            ctx.count("returned", len(v))
            if not auto and rng.random() < .6 and m in live:
                k, v = await outcome(m.c.commit_offsets())
                ctx.check(k == "ok" or m not in live, "commit_offsets() raised %r", v)
        owners = {}

        def kick(m, topic):
            if topic in m.calls:
                return None
            t = asyncio.ensure_future(consume(m, topic))
            tasks.append(t)
            return t
        tasks = []

        async def close(m):
            changed("close")
            live.remove(m)
            m.crashed = False
            k, v = await outcome(m.c.close())
            ctx.check(k == "ok", "after %r: close() raised %r", log[-8:], v)
            changed("closed")

        def crash(m):
            changed("crash%d" % len(m.calls))
            ctx.count("crashes")
            live.remove(m)
            m.crashed = True
            for call in m.calls.values():
                excused.update(call.sent)            # whatever these were going to return
            m.c.closing = True
            m.c.cluster.stop()
            threads = threading.Thread(target=m.c.allocator.conn.stop, daemon=True)
            threads.start()
            threads.join(PATIENCE)
            changed("crashed")

        await start()
        await start() if rng.random() < .5 else None
        for step in range(rng.choice((4, 8, 14))):
            for t in names:
                for pid in cl.topics[t]:
                    if rng.random() < .4:
                        append(t, pid, rng.choice((1, 1, 3)))
            st["faults"], st["rate"] = rng.choice((0, 0, 2, 5)), rng.choice((.1, .3, .6))
            r = rng.random()
            if live and r < .75:
                running = [kick(m, t) for m in live for t in names if rng.random() < .6]
                log.append("consume%d" % len(running))
                if rng.random() < .55:               # something happens meanwhile
                    for _ in range(rng.choice((1, 2, 5, 12, 25))):
                        await asyncio.sleep(0)
                    if rng.random() < .5:
                        await asyncio.sleep(rng.choice((.0005, .002, .005)))
                    r = .75 + rng.random() * .25
            if r < .75:
                pass
            elif r < .83 and len(live) < 4:
                await start()
            elif r < .88 and live:
                await close(rng.choice(live))
            elif r < .92 and live:
                crash(rng.choice(live))
            elif r < .96 and live:
                m = rng.choice(live)
                s = zk.session_of(m.c.allocator.conn)
                if s is not None and s.alive:
                    how = rng.choice(("expire", "expire", "drop"))
                    changed(how)
                    getattr(zk, how)(s)
                    if how == "expire":
                        ctx.count("expired")
                    ok = until(lambda: m.c.allocator.conn.connected and zk.session_of(m.c.allocator.conn) is not None
                               and zk.session_of(m.c.allocator.conn).alive and zk.session_of(m.c.allocator.conn).conn, PATIENCE)
                    ctx.check(ok, "a session is not made up for")
                    changed("again")
            elif r < .98:
                t = rng.choice(names)
                pid = max(cl.topics[t]) + 1
                cl.topics[t][pid] = Partition(pid, rng.choice(ids))
                begin(t, pid)
                log.append("grow")
                if live:
                    m = rng.choice(live)
                    changed("add")
                    r = m.c.allocator.add_partitions({t: [pid]})
                    if r is not None:
                        await r
                    changed("added")
            else:
                for t in names:
                    for q in cl.topics[t].values():
                        if rng.random() < .5:
                            q.leader = rng.choice(ids)
                cl.coordinator = rng.choice(ids)
                log.append("moved")
            if rng.random() < .6 and st["settled"] is None:
                settled()
            if rng.random() < .7:
                await asyncio.gather(*tasks)
                tasks[:] = []
        st["faults"] = 0
        await asyncio.gather(*tasks)
        if not live or not all(set(cl.topics[t]) <= {int(x.split(":")[1]) for x in state()[1] if x.split(":")[0] == t} for t in names):
            await start()                            # brings in what was added while nobody was there
        settled()
        def missing():
            return [(t, pid, o) for (t, pid), at in sorted(first.items()) for o in range(at, cl.part(t, pid).end)
                    if (t, pid, o) not in got and (t, pid, o) not in excused]

        async def drain():
            for turn in range(400):
                n = sum(len(v) for v in got.values())
                for t in names:
                    for m in rng.sample(live, len(live)):
                        await consume(m, t)
                if turn > 3 and n == sum(len(v) for v in got.values()):
                    break
        await drain()
        lost = missing()
        patience = time.monotonic() + PATIENCE
        while lost and time.monotonic() < patience:  # a notice could come late
            time.sleep(.3)
            cl.max_requests += 5000
            settled()
            await drain()
            lost = missing()
        ctx.check(not lost, "after %r: nobody was given %r", log[-22:], lost[:10])
        ctx.count("messages", sum(cl.part(t, pid).end - at for (t, pid), at in first.items()))
        ctx.count("excused", len([x for x in excused if x not in got]))
        ctx.sig(log, len(got))
        ctx.sample({"history": log[:20], "members": len(everyone), "messages": len(got)})
        for m in list(live):
            live.remove(m)
            m.crashed = False
            await m.c.close()
    simulate(ctx, work, rng.choice((1, 2, 3)))


SCENARIOS = [(1, group)]
