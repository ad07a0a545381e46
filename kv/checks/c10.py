import asyncio
import collections
import json

from kv.broker import Partition
from kv.world import Action, outcome, settle, simulate
from .grp import BASE, Group
from .zkc import zk_case

ID = "C10"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 1100, 30000
RULE = ("operations over 2-4 brokers and 2-8 partitions of which a random subset fails: any 16-bit error code per partition, connections lost "
        "before/after the request is handled or mid-answer, connections already dead, leaders that moved, brokers being reconnected to, partitions assigned to a grouped consumer "
        "before it knows their leader; monitors on fetches: consume() does "
        "not raise and returns exactly the new messages of the healthy partitions, failing partitions are next fetched at their old "
        "position and their messages arrive later; on produces: produce()/flush() does not raise, healthy partitions' messages are in the log "
        "once and never sent again, exactly the unanswered and retriable ones stay pending; distinct non-trivial = distinct fault assignments")
NEED = {"failed_partitions": 1500, "lost_connections": 300, "fetch_rounds": 300, "produce_rounds": 183, "unknown_codes": 200, "fetches_while_reconnecting": 40, "leaders_unknown": 25}
RETRIABLE = {2, 3, 5, 6, 7, 14, 15, 16, 19, 20}
DROPS = ("drop_before", "drop_after", "reset_before", "reset_after", "partial", "dead")


def any_code(rng, ctx):
    r = rng.random()
    if r < .5:
        return rng.choice([c for c in range(-1, 32) if c not in (0, 1)])
    ctx.count("unknown_codes")
    return rng.choice((13, 32, 33, 45, 100, 255, 256, 32767, -2, -32768, rng.randint(-32768, 32767) or 7))


def layout(rng, cl):
    ids = list(cl.brokers)
    n = rng.choice((2, 3, 4, 6, 8))
    leaders = ids + [rng.choice(ids) for _ in range(n)]
    leaders = leaders[:max(n, 2)]
    rng.shuffle(leaders)
    cl.add_topic("t", leaders)
    return ids


def pick_faults(rng, ctx, cl, ids, code_fn):
    """-> ({pid: code}, {broker: mode}); at least one broker keeps its connection."""
    lost = {}
    for b in rng.sample(ids, rng.randrange(0, len(ids))):
        if rng.random() < .6:
            lost[b] = rng.choice(DROPS)
            ctx.count("lost_connections")
    codes = {}
    for pid, p in cl.topics["t"].items():
        if p.leader not in lost and rng.random() < .5:
            codes[pid] = code_fn(rng, ctx)
    return codes, lost


def fetch(rng, ctx):
    async def work(cl):
        from kiel.clients import SingleConsumer
        ids = layout(rng, cl)
        parts = cl.topics["t"]
        made = collections.Counter()

        def grow():
            for pid, p in parts.items():
                k = rng.choice((0, 1, 2, 3))
                items = []
                for _ in range(k):
                    items.append((None, json.dumps([pid, made[pid]]).encode()))
                    made[pid] += 1
                if items:
                    p.append(items, rng.choice((0, 0, 1, 2)))
        grow()
        c = SingleConsumer(cl.hosts)
        await c.connect()
        got = collections.defaultdict(list)

        async def consume(label):
            k, r = await outcome(c.consume("t", start=c.BEGINNING))
            ctx.check(k == "ok", "%s: consume raised %r", label, r)
            new = collections.defaultdict(list)
            for pid, i in r:
                new[pid].append(i)
            return new
        for pid, m in (await consume("first")).items():
            got[pid] += m
        for pid in parts:
            ctx.check(got[pid] == list(range(made[pid])), "initial consume got %s of partition %d, not %d messages", got[pid], pid, made[pid])
        for rnd in range(rng.choice((1, 2, 4))):
            grow()
            codes, lost = pick_faults(rng, ctx, cl, ids, any_code)
            out_of_range = rng.random() < .2
            if out_of_range:  # makes the consumer look its positions up again, so this is the last round
                for pid, q in parts.items():
                    if q.leader not in lost and rng.random() < .4:
                        codes[pid] = 1
            moved = set()
            if rng.random() < .3:
                for pid, p in parts.items():
                    if pid not in codes and p.leader not in lost and rng.random() < .4:
                        old = p.leader
                        p.leader = rng.choice(ids)
                        if p.leader != old:
                            moved.add(pid)
                        # leads somewhere the connection is lost: still answered with an error by the old one
            if any(m == "dead" for m in lost.values()):
                for b, m in lost.items():
                    if m == "dead":
                        for conn in list(cl.brokers[b].conns):
                            rng.choice((conn.close, conn.reset))()
                if rng.random() < .7:
                    await settle(cl, 1)
            asked = {}
            state = {"on": True}

            def plan(x):
                if x.api != "fetch":
                    return
                for t in x.body["topics"]:
                    for p in t["partitions"]:
                        asked.setdefault(p["partition_id"], []).append(p["offset"])
                if not state["on"]:
                    return
                m = lost.get(x.broker.id)
                if m in ("drop_before", "drop_after", "reset_before", "reset_after", "partial"):
                    return Action(mode=m, cut=rng.randrange(0, 80), delay=rng.choice((0, .01)))
                a = Action(delay=rng.choice((0, 0, .005)))
                a.errors = {("t", pid): code for pid, code in codes.items()}
                return a
            cl.plan = plan
            start_of = {pid: len(got[pid]) for pid in parts}
            leaders = {pid: p.leader for pid, p in parts.items()}
            new = await consume("faulty round")
            ctx.count("fetch_rounds")
            failed = set(codes) | moved | {pid for pid in parts if leaders[pid] in lost and pid not in moved}
            ctx.count("failed_partitions", len(failed))
            for pid in parts:
                want = [] if pid in failed else list(range(start_of[pid], made[pid]))
                if new[pid] != want:
                    ctx.violation("partition %d returned %s instead of %s while %s failed (codes %s, lost %s)" % (
                        pid, new[pid], want, sorted(failed), codes, lost))
                got[pid] += new[pid]
            if out_of_range:
                ctx.sig("range", sorted(codes.items()), sorted(lost.items()))
                break
            state["on"] = False
            asked.clear()
            for call in range(6):
                for pid, m in (await consume("after the faults")).items():
                    got[pid] += m
                if call == 0:
                    for pid in failed:
                        if pid in asked:
                            ctx.check(asked[pid][0] == start_of[pid], "after failing with %s partition %d was fetched at %d instead of %d",
                                      codes.get(pid, "a lost connection"), pid, asked[pid][0], start_of[pid])
                if all(len(got[pid]) == made[pid] for pid in parts):
                    break
            for pid in parts:
                ctx.check(got[pid] == list(range(made[pid])), "partition %d: returned %s of %d messages (codes %s, lost %s)",
                          pid, got[pid], made[pid], codes, lost)
            if failed:
                ctx.sig("fetch", sorted(codes.items()), sorted(lost.items()), sorted(moved), sorted(leaders.items()))
            ctx.sample({"operation": "fetch", "codes": codes, "lost": lost, "moved": sorted(moved)})
            await c.cluster.heal()  # no idle connection is dead when the next round begins
        await c.close()
    simulate(ctx, work, rng.choice((2, 2, 3, 4)))


def produce(rng, ctx):
    async def work(cl):
        from kiel.clients import Producer
        ids = layout(rng, cl)
        parts = cl.topics["t"]
        n = len(parts)
        total = rng.choice((n, 2 * n, 3 * n))
        p = Producer(cl.hosts, batch_size=total, key_maker=lambda m: str(m[0]), partitioner=lambda key, pids: int(key),
                     compression=rng.choice((None, None, 1, 2)))
        await p.connect()
        codes, lost = pick_faults(rng, ctx, cl, ids, any_code)
        for b, m in lost.items():
            if m == "dead":
                for conn in list(cl.brokers[b].conns):
                    rng.choice((conn.close, conn.reset))()
        if rng.random() < .7:
            await settle(cl, 1)
        state = {"on": True}
        sent = []

        def plan(x):
            if x.api != "produce":
                return
            sent.append([(q["partition_id"], m[3].decode()) for t in x.body["topics"] for q in t["partitions"] for m in q["messages"]])
            if not state["on"]:
                return
            m = lost.get(x.broker.id)
            if m in ("drop_before", "drop_after", "reset_before", "reset_after", "partial"):
                return Action(mode=m, cut=rng.randrange(0, 30), delay=rng.choice((0, .01)))
            return Action(errors={("t", pid): code for pid, code in codes.items()}, delay=rng.choice((0, 0, .005)))
        cl.plan = plan
        msgs = [[i % n, i] for i in range(total)]
        for m in msgs:
            k, r = await outcome(p.produce("t", m))
            ctx.check(k == "ok", "produce raised %r (codes %s, lost %s)", r, codes, lost)
        ctx.count("produce_rounds")
        failed = set(codes) | {pid for pid, q in parts.items() if q.leader in lost}
        ctx.count("failed_partitions", len(failed))
        logs = {pid: [json.loads(v) for _, _, v in q.records()] for pid, q in parts.items()}
        pending = 0
        for pid in parts:
            mine = [m for m in msgs if m[0] == pid]
            if pid not in failed:
                ctx.check(logs[pid] == mine, "healthy partition %d has %s instead of %s", pid, logs[pid], mine)
            elif pid in codes:
                ctx.check(logs[pid] == [], "partition %d", pid)
                if codes[pid] in RETRIABLE:
                    pending += len(mine)
            else:
                pending += len(mine)
        ctx.check(p.unsent_count == pending, "%d messages pending instead of %d (codes %s, lost %s)", p.unsent_count, pending, codes, lost)
        state["on"] = False
        sent.clear()
        k, r = await outcome(p.flush())
        ctx.check(k == "ok", "flush raised %r", r)
        again = {pid for s in sent for pid, _ in s}
        settled = {pid for pid in parts if pid not in failed or (pid in codes and codes[pid] not in RETRIABLE)}
        ctx.check(not again & settled, "messages of partitions %s were sent again (codes %s, lost %s)", sorted(again & settled), codes, lost)
        for pid, q in parts.items():
            mine = [m for m in msgs if m[0] == pid]
            have = [json.loads(v) for _, _, v in q.records()]
            if pid in codes and codes[pid] not in RETRIABLE:
                ctx.check(have == [], "fatally rejected messages of partition %d were appended later", pid)
            elif pid in failed and pid not in codes:
                ctx.check(all(m in have for m in mine), "messages of partition %d are lost: %s of %s", pid, have, mine)
            else:
                ctx.check(sorted(have) == sorted(mine), "partition %d ends up with %s instead of %s", pid, have, mine)
        ctx.check(p.unsent_count == 0, "%d messages pending after the retry", p.unsent_count)
        if failed:
            ctx.sig("produce", sorted(codes.items()), sorted(lost.items()), [q.leader for q in parts.values()])
        ctx.sample({"operation": "produce", "codes": codes, "lost": lost})
        await p.close()
    simulate(ctx, work, rng.choice((2, 2, 3, 4)))


def reconnecting(rng, ctx):
    """Fetches while the connections to some leaders are being replaced."""
    async def work(cl):
        from kiel.clients import SingleConsumer
        ids = layout(rng, cl)
        parts = cl.topics["t"]
        made = collections.Counter()

        def grow():
            for pid, p in parts.items():
                for _ in range(rng.choice((1, 2))):
                    p.append([(None, json.dumps([pid, made[pid]]).encode())])
                    made[pid] += 1
        grow()
        cl.plan = lambda x: Action(delay=rng.choice((0, .001, .004)))
        c = SingleConsumer(cl.hosts)
        await c.connect()
        got = collections.defaultdict(list)

        def take(r):
            for pid, i in r:
                got[pid].append(i)
        k, r = await outcome(c.consume("t", start=c.BEGINNING))
        ctx.check(k == "ok", "first consume raised %r", r)
        take(r)
        for rnd in range(rng.choice((1, 2, 3))):
            victims = rng.sample(ids, rng.randrange(1, len(ids)))
            for b in victims:
                if rng.random() < .5:
                    cl.brokers[b].stop(rng.random() < .5)
                    cl.brokers[b].start()
                else:
                    for conn in list(cl.brokers[b].conns):
                        rng.choice((conn.close, conn.reset))()
            await settle(cl, 1)
            grow()
            healing = asyncio.ensure_future(outcome(c.cluster.heal()))
            await asyncio.sleep(rng.choice((.001, .01, .02, .04, .06)))
            gone = [b for b in victims if b not in c.cluster]
            k, r = await outcome(c.consume("t", start=c.BEGINNING))
            ctx.check(k == "ok", "consume raised %r while reconnecting to brokers %s", r, victims)
            take(r)
            for pid, p in parts.items():
                if p.leader not in victims:
                    ctx.check(got[pid] == list(range(made[pid])), "while reconnecting to brokers %s partition %d led by %s returned %s of %d messages",
                              victims, pid, p.leader, got[pid], made[pid])
            ctx.count("fetches_while_reconnecting", bool(gone))
            k, r = await healing
            ctx.check(k == "ok", "heal raised %r", r)
            for _ in range(3):
                k, r = await outcome(c.consume("t", start=c.BEGINNING))
                ctx.check(k == "ok", "consume raised %r after reconnecting", r)
                take(r)
            for pid in parts:
                ctx.check(got[pid] == list(range(made[pid])), "after reconnecting partition %d returned %s of %d messages", pid, got[pid], made[pid])
            ctx.sig("reconnecting", sorted(victims), sorted(gone), [p.leader for p in parts.values()])
        await c.close()
    simulate(ctx, work, rng.choice((2, 3, 4)), slow=.03)


@zk_case()
def unknown(rng, ctx, zk):
    """A grouped consumer is given partitions its metadata does not tell the leader of (yet)."""
    async def work(cl):
        g = Group(rng, ctx, zk, cl, topics=rng.choice((1, 2)), autocommit=rng.random() < .7)
        g.watch_commit = g.watch_coord = False
        known = collections.defaultdict(set)
        sent = cl.on_sent

        def seen(x, what):
            if x.api == "metadata":
                known.clear()
                for t in x.response["topics"]:
                    known[t["name"]] = {p["partition_id"] for p in t["partitions"]}
            return sent(x, what)
        cl.on_sent = seen
        for m in zk.children(BASE + "/members"):
            if rng.random() < .7:
                zk.remove(BASE + "/members/" + m)
        await g.c.connect()
        g.joined()
        for _ in range(rng.choice((1, 2, 3))):
            t = rng.choice(g.names)
            if rng.random() < .7:
                g.begin()
                k, v = await outcome(g.c.consume(t))
                ctx.check(k == "ok", "consume() raised %r", v)
                g.returned(t, v, "first call")
            for pid in cl.topics[t]:
                g.append(t, pid, rng.choice((1, 3)))

            def grow():
                have = set(g.state()[1])
                free = [i for i in range(14) if i not in cl.topics[t]]
                for pid in rng.sample(free, min(len(free), rng.choice((1, 1, 2)))):
                    cl.topics[t][pid] = Partition(pid, rng.choice(g.ids))
                    g.append(t, pid, rng.choice((1, 2)))
                    g.commit(t, pid, 0)
                    have.add("%s:%d" % (t, pid))
                g.zk.put(BASE + "/partitions", json.dumps(sorted(have)).encode())
            g.rebalance(grow)
            mine = {tp for tp in g.epoch.share if tp[0] == t}
            before = {tp for tp in mine if tp[1] in known[t]}
            for turn in range(2):
                g.begin()
                k, v = await outcome(g.c.consume(t))
                label = "call %d after %d partitions unknown to the consumer were assigned to it" % (turn + 1, len(mine - before))
                ctx.check(k == "ok", "%s: consume() raised %r", label, v)
                g.returned(t, v, label)
                want = before if turn == 0 and before else mine
                ctx.check(set(g.asked) >= (want if turn or before else set()), "%s: fetched are %r, assigned and known are %r", label, sorted(g.asked), sorted(want))
            for tp in mine:
                ctx.check(g.epoch.pos.get(tp) == cl.part(*tp).end, "%s|%d is at %r of %d", tp[0], tp[1], g.epoch.pos.get(tp), cl.part(*tp).end)
            if before and mine - before:
                ctx.count("leaders_unknown")
        ctx.sig("unknown", sorted(g.epoch.share), g.label)
        await g.close()
    simulate(ctx, work, rng.choice((1, 2, 3)))


SCENARIOS = [(6, fetch), (4, produce), (1, reconnecting), (1, unknown)]
