import random
import threading
import time

from kv.runner import Violation
from kv.world import Action, outcome, settle, simulate
from kv.preempt import Threads
from .grp import BASE, FATAL, GROUP, Group, stuck
from .zkc import NAMES, PATIENCE, flat, until, zk_case

ID = "C18"
LEVEL = "exploration"
QUICK, THOROUGH = 1600, 25000
RULE = ("a grouped consumer (real kazoo, real sockets, virtual time) consumes 1-3 topics while members and partitions come and go between calls and "
        "while its lookups, fetches, commits, metadata and coordinator requests are being worked on, with retriable and fatal lookup errors, lost "
        "connections and commits by former holders; rebalances also strike at random lines of the consumer's code and are themselves "
        "held up at random lines of the notifying thread while a call runs; some partitions of a fetch are out of range while others deliver; brokers compare every fetched partition and offset with the current share and with the position "
        "the last successful lookup since the last rebalance gave, and returned values with what was served; distinct non-trivial = distinct histories")
NEED = {"first_fetches": 1500, "rebalances": 1000, "rebalances_during_offset_fetch": 60, "rebalances_during_fetch": 60, "rebalances_during_metadata": 20,
        "faults_offset_fetch": 150, "fatal_lookups": 60, "windows": 20, "stuck_rebalances": 150, "stuck_across": 50, "preemptions": 300, "calm_calls": 1500, "gained": 1000, "out_of_range": 80, "ranged_with_messages": 33}
ASSUMPTIONS = ("every partition has a committed offset within its log (others: KNOWN_FINDINGS)", "consume() calls on one topic do not overlap")


async def calm(g, ctx, topic, what):
    """A call without faults and rebalances delivers what is left, once."""
    c, cl = g.c, g.cl
    g.rates.clear()
    g.inject.clear()
    mine = sorted(tp for tp in g.epoch.share if tp[0] == topic and tp[1] in cl.topics[topic])
    known = dict(g.epoch.pos)
    label = "%s after %r" % (what, g.label[-8:])
    for turn in range(3):                # leaders or the coordinator may have moved
        g.begin()
        ranged = topic in g.ranged
        g.ranged.discard(topic)
        k, r = await outcome(c.consume(topic))
        ctx.check(k == "ok", "%s: consume() raised %r", label, r)
        g.returned(topic, r, label)
        if ranged and mine:
            ctx.check(g.looked_up, "%s: the last call was told an offset of %s is out of range, it was not looked up again", label, topic)
            ctx.count("out_of_range")
        if all(g.epoch.pos.get(tp) == cl.part(*tp).end for tp in mine):
            ctx.check(sorted(g.asked.elements()) == mine, "%s: %r were fetched, %s's share is %r", label, sorted(g.asked.elements()), topic, mine)
            break
    for tp in mine:
        end = cl.part(*tp).end
        ctx.check(g.epoch.pos.get(tp) == end, "%s: %s|%d is at %r of %d", label, tp[0], tp[1], g.epoch.pos.get(tp), end)
        if tp not in known:
            ctx.count("gained")
    ctx.count("calm_calls")


@zk_case()
def resume(rng, ctx, zk):
    async def work(cl):
        g = Group(rng, ctx, zk, cl, topics=rng.choice((1, 2, 2, 3)), autocommit=rng.random() < .7)
        g.watch_commit = g.watch_coord = False
        c = g.c
        await c.connect()
        g.joined()
        for step in range(rng.choice((3, 6, 12))):
            topic = rng.choice(g.names)
            r = rng.random()
            if r < .35:
                g.rebalance()
            elif r < .6:
                for pid in cl.topics[topic]:
                    g.append(topic, pid, rng.choice((0, 1, 4)))
            elif r < .68:
                for q in cl.topics[topic].values():
                    if rng.random() < .4:
                        q.leader = rng.choice(g.ids)
            elif r < .75 and not g.autocommit:
                g.asking = True
                k, v = await outcome(c.commit_offsets())
                g.asking = False
                ctx.check(k == "ok", "commit_offsets() raised %r", v)
            elif r < .8:
                cl.coordinator = rng.choice(g.ids)
            if rng.random() < .3:
                await calm(g, ctx, topic, "calm call")
                g.label.append("calm")
                continue
            for api in ("offset_fetch", "fetch", "offset_commit", "metadata", "group_coordinator"):
                if rng.random() < (.3 if api in ("offset_fetch", "fetch") else .12):
                    times = rng.choice((1, 1, 2))
                    def change(g=g, times=times):
                        for _ in range(times):
                            g.rebalance()
                    g.inject[api] = [rng.choice((1, 1, 2)), change]
            g.faults = rng.choice((0, 0, 1, 3, 6))
            g.ranges = rng.random() < .5
            g.rates = {"offset_fetch": .6, "fetch": .4, "offset_commit": .2, "group_coordinator": .3}
            g.stubborn = rng.random() < .03
            if g.stubborn:
                ctx.count("stubborn")
                g.faults, g.rates = rng.choice((15, 40)), {"offset_fetch": 1}
                g.inject.clear()
            g.label.append(("consume", topic, sorted(g.inject), g.faults))
            g.begin()
            n = len(g.epochs)
            ranged = topic in g.ranged
            g.ranged.discard(topic)
            with g.preempted():
                k, v = await outcome(c.consume(topic))
            if ranged:
                ctx.count("out_of_range")
                ctx.check(g.looked_up or not all(any(tp[0] == topic for tp in e.share) for e in g.epochs[g.started.n:]),
                          "after %r: the last call was told an offset of %s is out of range, it was not looked up again", g.label[-8:], topic)
            ctx.check(k == "ok", "after %r: consume() raised %r", g.label[-8:], v)
            g.returned(topic, v, "after %r" % g.label[-8:])
            if g.stubborn and len(g.epochs) == n:
                # all the trouble was retriable
                ctx.check(set(g.asked) == {tp for tp in g.epoch.share if tp[0] == topic}, "after %r: fetched were %r of %r", g.label[-8:], dict(g.asked), g.epoch.share)
            ctx.check(all(n == 1 for n in g.asked.values()), "after %r: fetched more than once in a call: %r", g.label[-8:], g.asked)
        g.faults, g.stubborn = 0, False
        g.inject.clear()
        for t in g.names:
            await calm(g, ctx, t, "at the end")
        ctx.sig(g.label)
        ctx.sample({"history": [repr(x) for x in g.label[:12]], "share": sorted(g.epoch.share)})
        await g.close()
    simulate(ctx, work, rng.choice((1, 2, 3)))


@zk_case()
def fatal(rng, ctx, zk):
    """Lookups answered with an error that is no use retrying."""
    async def work(cl):
        g = Group(rng, ctx, zk, cl, topics=2)
        g.watch_commit = g.watch_coord = False
        c = g.c
        await c.connect()
        g.joined()
        plan = cl.plan
        wrong = [0]

        def nasty(x):
            a = plan(x)
            if x.api == "offset_fetch" and wrong[0]:
                wrong[0] -= 1
                tps = [(t["name"], p) for t in x.body["topics"] for p in t["partitions"]]
                for tp in tps if rng.random() < .3 else rng.sample(tps, rng.randrange(1, len(tps) + 1)):
                    a.errors[tp] = rng.choice(FATAL)
                if rng.random() < .3 and len(a.errors) < len(tps):
                    a.errors[[tp for tp in tps if tp not in a.errors][0]] = 14   # and one to retry
            return a
        cl.plan = nasty
        for step in range(rng.choice((2, 4))):
            topic = rng.choice(g.names)
            g.rebalance()
            mine = {tp for tp in g.epoch.share if tp[0] == topic}
            wrong[0] = 1
            g.begin()
            k, v = await outcome(c.consume(topic))
            g.label.append(("fatal", topic, len(mine)))
            ctx.check(k == "ok", "a fatal lookup error: consume() raised %r", v)
            if not mine:
                wrong[0] = 0
                ctx.check(v == [] and not g.asked, "nothing is held of %s, consume() returned %r", topic, v)
                continue
            if wrong[0]:
                ctx.check(False, "after %r: nothing was looked up although the group was rebalanced", g.label[-6:])
            ctx.check(v == [], "a fatal lookup error: consume() returned %r", v)
            ctx.check(not g.asked, "a fatal lookup error was followed by a fetch of %r", dict(g.asked))
            ctx.count("fatal_lookups")
            if rng.random() < .3:
                g.rebalance()
                mine = {tp for tp in g.epoch.share if tp[0] == topic}
            n = len(g.looked_up)
            await calm(g, ctx, topic, "after a fatal lookup error")
            if mine:
                ctx.check(g.looked_up, "a fatal lookup error was not followed by a fresh lookup")
        ctx.sig(g.label)
        await g.close()
    simulate(ctx, work, rng.choice((1, 2)))


@zk_case()
def ranged(rng, ctx, zk):
    """Some positions are out of range, the other partitions of the fetch deliver."""
    async def work(cl):
        g = Group(rng, ctx, zk, cl, topics=rng.choice((1, 2)), autocommit=rng.random() < .7)
        g.watch_commit = g.watch_coord = False
        c = g.c
        await c.connect()
        g.joined()
        plan = cl.plan
        wrong = [None]

        def nasty(x):
            a = plan(x)
            if x.api == "fetch" and wrong[0]:
                for t in x.body["topics"]:
                    for p in t["partitions"]:
                        if rng.random() < wrong[0]:
                            a.errors[(t["name"], p["partition_id"])] = rng.choice((1, 1, 1, 1, 6, -1))
            return a
        cl.plan = nasty
        for step in range(rng.choice((2, 4, 6))):
            topic = rng.choice(g.names)
            for pid in cl.topics[topic]:
                g.append(topic, pid, rng.choice((0, 1, 3)))
            if rng.random() < .2:
                g.rebalance()
            again = topic in g.ranged
            g.ranged.discard(topic)
            g.begin()
            mine = [tp for tp in g.epoch.share if tp[0] == topic]
            wrong[0] = rng.choice((.2, .5, .5, 1))
            k, v = await outcome(c.consume(topic))
            wrong[0] = None
            ctx.check(k == "ok", "some positions out of range: consume() raised %r", v)
            got = g.returned(topic, v, "some positions out of range")
            ctx.check(not again or not mine or g.looked_up, "the call before was told an offset of %s is out of range, it was not looked up again", topic)
            g.label.append(("ranged", topic, topic in g.ranged, sorted(got)))
            if topic in g.ranged and got:
                ctx.count("ranged_with_messages")
            if rng.random() < .7:
                await calm(g, ctx, topic, "after offsets out of range")
        for t in g.names:
            await calm(g, ctx, t, "at the end")
        ctx.sig(g.label)
        await g.close()
    simulate(ctx, work, rng.choice((1, 1, 2)))


class Slow(dict):
    """An allocation whose use by the notifying thread takes a while."""
    hold = None

    def get(self, *a):
        v = dict.get(self, *a)
        if self.hold and threading.current_thread() is not threading.main_thread():
            hold, self.hold = self.hold, None
            hold[0].set()
            hold[1].wait(30)
        return v


@zk_case()
def window(rng, ctx, zk):
    """The thread delivering a rebalance is preempted within it."""
    async def work(cl):
        g = Group(rng, ctx, zk, cl, topics=1, autocommit=True)
        g.watch_commit = g.watch_coord = False
        if not g.custom:
            return
        arm = [None]

        def slow(m):
            s = Slow(m)
            s.hold, arm[0] = arm[0], None
            return s
        g.mapping = slow
        c = g.c
        await c.connect()
        g.joined()
        topic = g.names[0]
        await calm(g, ctx, topic, "first call")
        for pid in cl.topics[topic]:
            g.append(topic, pid, 2)
        for _ in range(rng.choice((1, 3))):
            before = g.state()
            old = g.epoch
            arm[0] = gate = (threading.Event(), threading.Event())
            g.change()
            st = g.state()
            if st == before:
                arm[0] = None
                continue
            reached = gate[0].wait(PATIENCE / 5)
            if not reached:                  # the code never gets there
                gate[1].set()
                until(lambda: g.done == st, PATIENCE)
            new = set(g.share_of(st))
            # either allocation may be seen now; positions are as before
            g.epochs.append(type(old)(len(g.epochs), new))
            g.epoch.pos = {tp: o for tp, o in old.pos.items() if tp in new} if reached else {}
            g.begin()
            g.low = len(g.epochs) - 2
            lookups = len(g.looked_up)
            fut = c.consume(topic)
            k, v = await outcome(fut)
            ctx.check(k == "ok", "consume() during a rebalance raised %r", v)
            gate[1].set()
            until(lambda: g.done == st, PATIENCE)
            ctx.check(g.done == st, "the rebalance did not end")
            ctx.count("windows")
            g.epochs.append(type(old)(len(g.epochs), new))
            g.label.append(("window", reached, sorted(new)))
            g.settled(st)
            await calm(g, ctx, topic, "after a rebalance")
            for pid in cl.topics[topic]:
                g.append(topic, pid, 1)
        ctx.sig(g.label)
        await g.close()
    simulate(ctx, work, rng.choice((1, 2)))


@zk_case()
def preempted(rng, ctx, zk):
    """As above, at any line of any of the code involved."""
    threads = Threads()

    async def work(cl):
        g = Group(rng, ctx, zk, cl, topics=rng.choice((1, 2)), autocommit=True)
        g.watch_commit = g.watch_coord = False
        await g.c.connect()
        g.joined()
        for t in g.names[:rng.choice((1, 2))]:
            await calm(g, ctx, t, "first call")
        for _ in range(rng.choice((2, 4))):
            topic = rng.choice(g.names)
            for pid in cl.topics[topic]:
                g.append(topic, pid, rng.choice((0, 2)))
            await stuck(g, threads, topic)
            if rng.random() < .7:
                await calm(g, ctx, topic, "after a rebalance")
        for t in g.names:
            await calm(g, ctx, t, "at the end")
        ctx.sig(g.label)
        await g.close()
    threads.install()
    try:
        simulate(ctx, work, rng.choice((1, 2)))
    finally:
        threads.remove()


@zk_case()
def uncommitted(rng, ctx, zk):
    """KNOWN_FINDINGS: partitions nobody ever committed an offset of."""
    how = rng.choice(("error", "minus one"))

    async def work(cl):
        g = Group(rng, ctx, zk, cl, topics=1, committed=False)
        g.watch_fetch = g.watch_commit = g.watch_coord = False
        c = g.c
        t = g.names[0]
        for pid in cl.topics[t]:
            g.append(t, pid, 3)
        for m in zk.children(BASE + "/members"):
            zk.remove(BASE + "/members/" + m)
        n = [0]

        def plan(x):
            if x.api != "offset_fetch":
                return Action()
            n[0] += 1
            if n[0] > 60:
                return Action(errors={"*": 30})
            if how == "error":
                return Action()

            def edit(b):
                for u in b["topics"]:
                    for p in u["partitions"]:
                        p["error_code"], p["offset"] = 0, -1
                return b
            return Action(edit=edit)
        cl.plan = plan
        cl.on_request = cl.on_sent = None
        await c.connect()
        g.joined()
        got = []
        for _ in range(8):
            k, v = await outcome(c.consume(t))
            ctx.check(k == "ok", "consume() raised %r", v)
            got += v
        if how == "error" and n[0] > 60:
            ctx.finding("uncommitted-error", "the lookup of a partition without a committed offset (error 3) is repeated forever")
        elif not got:
            ctx.finding("uncommitted-minus-one" if how == "minus one" else "uncommitted-nothing",
                        "a partition without a committed offset (-1) is never delivered from")
        ctx.count("uncommitted_groups")
        await c.close()
    simulate(ctx, work, 1)


SCENARIOS = [(14, resume), (3, fatal), (2, window), (3, preempted), (2, ranged), (1, uncommitted)]
