import asyncio
import json
import threading
import time

from kv.broker import Action
from kv.world import outcome, settle, simulate
from .grp import BASE, DROPS, GROUP, RETRIABLE
from .zkc import zk_case
from kv.zk import until

ID = "C25"
LEVEL = "exploration"
QUICK, THOROUGH = 1300, 22000
RULE = ("producers, single and grouped consumers are closed at a chosen request of their history (connected, idle, with consume/produce/flush/heal/"
        "commit calls in flight, in the middle of a retry, while still connecting) under lost connections, retriable errors, restarting brokers and "
        "a failing zookeeper; afterwards brokers and zookeeper stand-in count open sockets, sessions, threads, member entries, later requests and "
        "connections over seconds of (virtual) time, and later calls are made; distinct non-trivial = distinct (client, moment, faults)")
NEED = {"closed_producers": 213, "closed_singles": 177, "closed_groupeds": 250, "in_flight_at_close": 437, "later_calls": 1500,
        "close_raised": 15, "sessions_ended": 109, "closed_while_healing": 40, "closed_while_connecting": 60, "zookeeper_failing": 30}


def traffic(rng, cl, ids, st):
    """Plan: delays, bounded faults and the moment of closing."""
    def plan(x):
        if st["at"] is not None and cl.requests >= st["at"] and not st["now"].is_set():
            st["moment"] = x.api
            cl.loop.call_later(rng.choice((0, 0, 0, .0005, .003)), st["now"].set)
        a = Action(delay=rng.choice((0, 0, .001, .004)))
        if st["faults"] <= 0 or rng.random() < .4:
            return a
        st["faults"] -= 1
        if x.broker.id != ids[0] and rng.random() < .5:
            a.mode, a.cut = rng.choice(DROPS), rng.randrange(60)
            return a
        if x.api in ("produce", "fetch", "offset", "offset_commit", "offset_fetch"):
            a.errors["*"] = rng.choice((6, 7, 5, 3))
        elif x.api == "group_coordinator":
            a.error = rng.choice((15, 5, 14))
        elif x.api == "metadata" and x.broker.id != ids[0] and rng.random() < .5:
            a.mode = "drop_before"
        return a
    return plan


async def closed(rng, ctx, cl, c, kind, st, calls, after):
    """Closes and judges."""
    if calls:
        ctx.count("in_flight_at_close")
    gentle = rng.random() < .6
    fut = asyncio.ensure_future(outcome(c.close()))
    await asyncio.sleep(0)
    n = cl.requests
    later = []
    for _ in range(rng.choice((0, 1, 2))):
        later.append(asyncio.ensure_future(outcome(after())))
    if st["down"] and not gentle:
        for b in st["down"]:
            cl.brokers[b].stop(rng.random() < .5)
    k, v = await fut
    label = "%s closed at request %r (%s)" % (kind, st["at"], st.get("moment"))
    if k == "err":
        ctx.count("close_raised")
        ctx.check(st["may_raise"] or st["down"], "%s: close() raised %r", label, v)
    again = rng.random() < .3
    if again:
        await outcome(c.close())
    left = cl.open_conns()
    if left:
        await settle(cl, 1)                  # what was closed is seen by now
        left = cl.open_conns()
    ctx.check(not left, "%s: %d connections are open when close() is over", label, len(left))
    done = await asyncio.gather(*calls)
    ctx.count("settled_calls", len(done))
    for k, v in await asyncio.gather(*later):
        ctx.check(k == "ok", "%s: a call made while closing raised %r", label, v)
        ctx.check(v in (None, []), "%s: a call made while closing returned %r", label, v)
    ctx.count("later_calls", len(later))
    for b in cl.brokers.values():
        b.start()
    await settle(cl, 16)                     # a connection under way may still come about
    n, m = cl.requests, cl.connections
    for _ in range(rng.choice((1, 2))):
        k, v = await outcome(after())
        ctx.check(k == "ok", "%s: a call made after close() raised %r", label, v)
        ctx.check(v in (None, []), "%s: a call made after close() returned %r", label, v)
        ctx.count("later_calls")
    for _ in range(4):
        await asyncio.sleep(1.5)
    ctx.check(cl.requests == n, "%s: %d requests were sent after close() was over", label, cl.requests - n)
    ctx.check(cl.connections == m, "%s: %d connections were made after close() was over", label, cl.connections - m)
    left = cl.open_conns()
    ctx.check(not left, "%s: %d connections are open after close()", label, len(left))
    ctx.count("closed_%ss" % kind)
    ctx.sig(kind, st["at"], st.get("moment"), sorted(st["log"]), len(calls), again)
    ctx.sample({"client": kind, "moment": st.get("moment"), "in_flight": len(calls)})


def begin(rng, cl):
    ids = list(cl.brokers)
    for t in ("t0", "t1"):
        cl.add_topic(t, [rng.choice(ids) for _ in range(rng.choice((1, 2, 4)))])
        for p in cl.topics[t].values():
            for i in range(rng.choice((0, 2, 9))):
                p.append([(None, json.dumps([t, i]).encode())])
    st = {"at": None, "now": asyncio.Event(), "faults": rng.choice((0, 0, 2, 5)), "log": [], "down": [], "may_raise": False}
    cl.plan = traffic(rng, cl, ids, st)
    return ids, st


async def work_until_close(rng, ctx, cl, c, st, ops):
    """Calls some operations and stops in the middle of them."""
    start = cl.requests
    st["at"] = start + rng.choice((0, 0, 1, 1, 2, 3, 5, 8))
    if st["at"] == start:
        st["now"].set()
        if rng.random() < .5:
            return []
    calls = []
    healing = False
    for _ in range(rng.choice((1, 2, 4, 8))):
        if st["now"].is_set() and calls and rng.random() < .6:
            break
        name, op = rng.choice(ops)
        st["log"].append(name)
        healing = healing or name == "heal"
        calls.append(asyncio.ensure_future(outcome(op())))
        if rng.random() < .6:
            await asyncio.sleep(0)
        if rng.random() < .4:
            await asyncio.wait(calls[-1:] + [asyncio.ensure_future(st["now"].wait())], return_when=asyncio.FIRST_COMPLETED)
    if not st["now"].is_set():
        both = [asyncio.ensure_future(asyncio.gather(*calls)), asyncio.ensure_future(st["now"].wait())]
        await asyncio.wait(both, return_when=asyncio.FIRST_COMPLETED)
    calls = [x for x in calls if not x.done()]
    if healing and calls:
        ctx.count("closed_while_healing")
    return calls


def producer(rng, ctx):
    async def work(cl):
        from kiel.clients import Producer
        ids, st = begin(rng, cl)
        accepted = [0]

        def ser(m):
            accepted[0] += 1
            return json.dumps(m)
        c = Producer(cl.hosts, batch_size=rng.choice((0, 1, 3, 50)), serializer=ser)
        await c.connect()
        ops = [("produce", lambda: c.produce(rng.choice(("t0", "t1", "t1", "nope")), 1)), ("flush", c.flush), ("heal", c.cluster.heal)]
        calls = await work_until_close(rng, ctx, cl, c, st, ops + ops[:1] * 3)
        # pending messages of a topic that is gone cannot be got rid of, that must not keep close() from ending
        if rng.random() < .1:
            del cl.topics[rng.choice(("t0", "t1"))]
            st["log"].append("gone")

        async def after():
            if rng.random() < .3:
                return await c.flush()
            n = accepted[0]
            r = await c.produce(rng.choice(("t0", "t1", "nope")), 2)
            ctx.check(accepted[0] == n or r is not None, "a message was taken after close() was called")
            return r
        if rng.random() < .1:
            st["down"] = list(ids)               # nobody answers anymore
        await closed(rng, ctx, cl, c, "producer", st, calls, after)
    simulate(ctx, work, rng.choice((1, 2, 3)))


def single(rng, ctx):
    async def work(cl):
        from kiel.clients import SingleConsumer
        ids, st = begin(rng, cl)
        c = SingleConsumer(cl.hosts)
        await c.connect()
        start = rng.choice((SingleConsumer.BEGINNING, SingleConsumer.END))
        ops = [("consume", lambda: c.consume("t0", start)), ("consume", lambda: c.consume("t1", start)), ("unknown", lambda: c.consume("nope")),
               ("heal", c.cluster.heal)]
        calls = await work_until_close(rng, ctx, cl, c, st, ops)
        if rng.random() < .1:
            st["down"] = list(ids)
        await closed(rng, ctx, cl, c, "single", st, calls, lambda: c.consume(rng.choice(("t0", "t1", "nope"))))
    simulate(ctx, work, rng.choice((1, 2, 3)))


@zk_case(jitter=0.15)
def grouped(rng, ctx, zk):
    async def work(cl):
        from kiel.clients import GroupedConsumer
        ids, st = begin(rng, cl)
        for t in cl.topics:
            for pid in cl.topics[t]:
                cl.committed[(GROUP, t, pid)] = (0, "")
        cl.coordinator = rng.choice(ids)
        auto = rng.random() < .7
        threads = set(threading.enumerate())
        c = GroupedConsumer(cl.hosts, GROUP, zk.hosts, autocommit=auto)
        zk.cleanup.append(c.allocator.conn)
        others = rng.choice((0, 0, 1))
        for i in range(others):
            zk.put(BASE + "/members/other-%d" % i, b"")
        await c.connect()
        name = c.name
        session = zk.session_of(c.allocator.conn)
        ctx.check(until(lambda: c.allocation), "nothing is allocated to the only member") if not others else None
        ops = [("consume", lambda: c.consume("t0")), ("consume", lambda: c.consume("t1")), ("heal", c.cluster.heal)]
        ops += [("commit", c.commit_offsets)] if not auto else []
        calls = await work_until_close(rng, ctx, cl, c, st, ops)
        how = rng.choice(("fine",) * 5 + ("down", "down", "cut", "cut_after", "expired", "error"))
        if rng.random() < .012:
            how = "stalled"                          # takes the 6.7 s until kazoo gives the connection up
        if how != "fine":
            ctx.count("zookeeper_failing")
            st["may_raise"] = True
            st["log"].append(how)
        if how == "down":
            zk.refuse = True
            zk.drop(session)
            if rng.random() < .4:
                until(lambda: not c.allocator.conn.connected, 5)
            elif rng.random() < .7:              # about to be noticed
                time.sleep(rng.random() * rng.choice((.0003, .001, .003)))
        elif how == "stalled":
            zk.refuse = True
            zk.stall(session)
        elif how == "expired":
            zk.expire(session)
            if rng.random() < .5:
                until(lambda: not c.allocator.conn.connected, 5)
        elif how in ("cut", "cut_after", "error"):
            todo = [rng.choice((1, 1, 2))]

            def hook(s, op, path):
                if op in ("delete", "create", "multi") and todo[0]:
                    todo[0] -= 1
                    return {"cut": "drop_before", "cut_after": "drop_after", "error": -4 if op != "multi" else "drop_before"}[how]
            zk.hook = hook
        if rng.random() < .1:
            st["down"] = list(ids)
        await closed(rng, ctx, cl, c, "grouped", st, calls, lambda: c.consume(rng.choice(("t0", "t1", "nope"))) if rng.random() < .7 else c.commit_offsets())
        zk.hook = None
        opened = zk.opened
        zk.release()
        if how not in ("down", "stalled"):
            ok = until(lambda: not any(s.conn and s.conn.open for s in zk.live()), 5)
            ctx.check(ok, "zookeeper %s: the session of a closed consumer goes on: %r", how, zk.live())
            if how in ("fine", "expired"):
                ctx.check(not session.alive and not zk.live(), "zookeeper %s: a session of a closed consumer is left: %r", how, zk.live())
                ctx.check(zk.owner(BASE + "/members/" + name) is None, "zookeeper %s: a closed consumer is still listed as a member", how)
                ctx.count("sessions_ended")
        left = lambda: [t for t in threading.enumerate() if t not in threads and t.name != "zk server"]
        ok = until(lambda: not left(), 8)
        ctx.check(ok, "zookeeper %s: threads of a closed consumer go on: %r", how, left())
        zk.refuse = False
        time.sleep(rng.choice((0, .02, .1)) if how == "fine" else .15)
        for s in zk.live():
            ctx.check(not (s.conn and s.conn.open), "zookeeper %s: a closed consumer connected again: %r", how, s)
        ctx.check(zk.opened == opened, "zookeeper %s: %d connections made after close()", how, zk.opened - opened)
    simulate(ctx, work, rng.choice((1, 2, 3)))


def connecting(rng, ctx):
    """Closed before connect() is through."""
    async def work(cl):
        from kiel.clients import Producer, SingleConsumer
        ids, st = begin(rng, cl)
        kind = rng.choice(("producer", "single"))
        c = (Producer if kind == "producer" else SingleConsumer)(cl.hosts)
        st["at"] = rng.choice((0, 1, 1, 2, 3))
        window = rng.choice((.0001, .001, .05, .15))
        if rng.random() < .4 and len(ids) > 1:
            cl.reported = ids                    # one that cannot be reached
            cl.brokers[ids[1]].stop()
            for t in cl.topics.values():
                for p in t.values():
                    p.leader = ids[0]
        call = asyncio.ensure_future(outcome(c.connect()))
        wait = asyncio.ensure_future(st["now"].wait())
        await asyncio.wait([call, wait], timeout=window, return_when=asyncio.FIRST_COMPLETED)
        if not call.done():
            await asyncio.wait([call], timeout=rng.choice((0, 0, window)))
        calls = [] if call.done() else [call]
        if calls:
            ctx.count("closed_while_connecting")
        st["log"].append("connect")
        after = (lambda: c.produce("t0", 1)) if kind == "producer" else (lambda: c.consume("t0"))
        await closed(rng, ctx, cl, c, kind, st, calls, after)
    if rng.random() < .5:
        simulate(ctx, work, rng.choice((3, 4, 5)), slow=rng.choice((.02, .1)))
    else:
        simulate(ctx, work, rng.choice((1, 2, 3)))


@zk_case(jitter=0.15)
def joining(rng, ctx, zk):
    """A grouped consumer closed before connect() is through."""
    async def work(cl):
        from kiel.clients import GroupedConsumer
        ids, st = begin(rng, cl)
        for t in cl.topics:
            for pid in cl.topics[t]:
                cl.committed[(GROUP, t, pid)] = (0, "")
        c = GroupedConsumer(cl.hosts, GROUP, zk.hosts)
        zk.cleanup.append(c.allocator.conn)
        st["at"] = rng.choice((0, 1, 1, 2, 3, 4))
        call = asyncio.ensure_future(outcome(c.connect()))
        wait = asyncio.ensure_future(st["now"].wait())
        await asyncio.wait([call, wait], timeout=rng.choice((.0001, .001, .05)), return_when=asyncio.FIRST_COMPLETED)
        calls = [] if call.done() else [call]
        if calls:
            ctx.count("closed_while_connecting")
        st["log"].append("connect")
        st["may_raise"] = True
        await closed(rng, ctx, cl, c, "grouped", st, calls, lambda: c.consume("t0"))
        ok = until(lambda: not zk.live(), 3)
        ctx.check(ok, "closed while connecting: a session is left: %r", zk.live())
        ctx.check(not zk.children(BASE + "/members"), "closed while connecting: still a member: %r", zk.children(BASE + "/members"))
    simulate(ctx, work, rng.choice((1, 2, 3)))


SCENARIOS = [(5, producer), (4, single), (6, grouped), (3, connecting), (2, joining)]
