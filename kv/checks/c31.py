import asyncio
import base64
import collections
import json
import zlib

from kv import gen
from kv.broker import Action
from kv.world import outcome, settle, simulate
from .grp import BASE, DROPS, GROUP, RETRIABLE
from .zkc import zk_case

ID = "C31"
LEVEL = "exploration"
QUICK, THOROUGH = 1000, 22000
RULE = ("1-3 producers (any batch size, compression, key maker, partitioner; the default JSON pair or a custom serializer/deserializer pair over text or "
        "binary) and 1-3 consumers (single ones from the beginning, or from the end before anything is produced; grouped ones against real kazoo) "
        "work on 1-2 topics of 1-5 partitions at the same time, in any interleaving, while brokers rewrap sets, cut them at size limits, delay, drop, answer "
        "retriable codes and leaders move; checker: each value consumed equals, type for type, one produced (some are produced twice; givers and takers change theirs afterwards), each consumer is given each message exactly as "
        "often as brokers appended it (once without faults), in the log's order; what one producer produced in turn is in that order; distinct non-trivial = distinct histories")
NEED = {"produced": 6000, "consumed": 9000, "compressed": 1500, "custom_pair": 1500, "odd_values": 1500, "grouped": 150, "clean_cases": 100, "faults": 1000, "order_checks": 3000, "repeated": 2000}


def exact(v):
    """A value's identity, types included (1, 1.0 and True differ)."""
    return json.dumps(v, sort_keys=True)


def obj(rng, depth=0):
    r = rng.random()
    if depth > 3 or r < .5:
        return rng.choice((1, -7, 0, 1.5, 1.0, True, False, None, "", gen.text(rng), "\ud800", "\udc80x", "null", 10 ** 25, -2 ** 63, 1e300, 5e-324, "\u2028\u2029",
                           "x" * rng.choice((10, 300, 5000)), [], {}))
    if r < .75:
        return {gen.text(rng)[:8] + str(i): obj(rng, depth + 1) for i in range(rng.randrange(0, 4))}
    return [obj(rng, depth + 1) for _ in range(rng.randrange(0, 4))]


def raw(b):
    """What arrives: text if it is any, else bytes; a deserializer takes both."""
    return b.encode("utf-8") if isinstance(b, str) else b


PAIRS = {
    "json": (None, None),
    "plain": (lambda m: json.dumps(m, ensure_ascii=True, indent=1), lambda b: json.loads(b)),
    "zlib": (lambda m: zlib.compress(json.dumps(m).encode()), lambda b: json.loads(zlib.decompress(raw(b)).decode())),
    "latin": (lambda m: b"\xff\xfe" + json.dumps(m).encode(), lambda b: json.loads(raw(b)[2:].decode())),
    "b64": (lambda m: base64.b64encode(json.dumps(m).encode()), lambda b: json.loads(base64.b64decode(b).decode())),
    "padded": (lambda m: b"\x00" + json.dumps(m).encode() + b"\x00\n", lambda b: json.loads(raw(b)[1:-2].decode())),
}


def stream(rng, ctx, zk=None):
    async def work(cl):
        from kiel.clients import GroupedConsumer, Producer, SingleConsumer
        cl.max_requests = 9000
        cl.whole_first = True                            # else an entry larger than a consumer's limit could not be fetched
        ids = list(cl.brokers)
        cl.coordinator = rng.choice(ids)
        names = ["t%d" % i for i in range(rng.choice((1, 1, 2)))]
        for n in names:
            cl.add_topic(n, [rng.choice(ids) for _ in range(rng.choice((1, 2, 3, 5) * 5 + (14,)))])
            for q in cl.topics[n].values():
                q.start = q.end = rng.choice((0, 0, 0, 5, 2 ** 31 - 2, 2 ** 45))
        pair = rng.choice(("json", "json", "json", "plain", "zlib", "latin", "b64", "padded"))
        ser, des = PAIRS[pair]
        faulty = rng.random() < .55
        st = {"faults": 0, "rate": 0}
        made = {}                                        # identity -> (topic, producer, number)
        accepted = collections.defaultdict(list)         # (producer, topic) -> identities in order
        placed = {}                                      # identity -> partition its key asks for
        appended = collections.Counter()
        log = collections.defaultdict(list)              # (topic, pid) -> identities
        story = []

        def on_append(x, topic, pid, items):
            for k, v in items:
                try:
                    u = exact((des or json.loads)(v))
                except Exception as e:
                    cl.fail("a broker was sent %r, which cannot be deserialized: %r" % ((v or b"")[:80], e))
                    return
                if u not in made or made[u][0] != topic:
                    cl.fail("a broker was sent %s for %s, which was not produced to it" % (u[:120], topic))
                    return
                if u in placed and placed[u] != pid:
                    cl.fail("%s went to partition %d, its key asks for %d" % (u[:120], pid, placed[u]))
                appended[u] += 1
                log[(topic, pid)].append(u)
        cl.on_append = on_append

        def plan(x):
            a = Action(delay=rng.choice((0, 0, .002)))
            if st["faults"] <= 0 or rng.random() > st["rate"]:
                return a
            st["faults"] -= 1
            ctx.count("faults")
            if rng.random() < .3:
                for t in cl.topics.values():
                    for q in t.values():
                        if rng.random() < .4:
                            q.leader = rng.choice(ids)
            if x.broker.id != ids[0] and rng.random() < .4:
                a.mode, a.cut = rng.choice(DROPS), rng.randrange(60)
            elif x.api in ("fetch", "produce", "offset"):
                for t in x.body["topics"]:
                    for p in t["partitions"]:
                        if rng.random() < .5:
                            a.errors[(t["name"], p["partition_id"])] = rng.choice(RETRIABLE)
            elif x.api == "group_coordinator":
                a.error = rng.choice(RETRIABLE)
            elif x.api in ("offset_fetch", "offset_commit"):
                a.errors["*"] = rng.choice((14, 15, 16, 7))
            return a
        cl.plan = plan

        producers, consumers = [], []
        by_key = rng.random() < .5

        def partition_for(key, pids):
            return sorted(pids)[zlib.crc32(raw(key)) % len(pids)]
        for i in range(rng.choice((1, 1, 2, 3))):
            kw = {"batch_size": rng.choice((0, 1, 1, 2, 5, 12) * 3 + (70,)), "compression": rng.choice((None, None, 1, 2))}
            if ser:
                kw["serializer"] = ser
            if by_key:
                kw["key_maker"] = lambda m: "k%d" % (zlib.crc32(exact(m).encode()) % 7)
                kw["partitioner"] = partition_for
            p = Producer(cl.hosts, **kw)
            p.kv_n, p.kv_z = i, kw["compression"]
            producers.append(p)

        class Reader(object):
            def __init__(self, c, topics, start):
                self.c, self.topics, self.start = c, topics, start
                self.got = collections.Counter()
                self.order = collections.defaultdict(list)
                self.busy = set()
        small = rng.random() < .35
        for i in range(rng.choice((1, 1, 2, 3))):
            kw = {"deserializer": des} if des else {}
            if small:
                kw["max_bytes"] = max(len(cl.topics[n]) for n in names) * rng.choice((300, 3000, 20000))
            if zk is not None and i == 0:
                c = GroupedConsumer(cl.hosts, GROUP, zk.hosts, **kw)
                zk.cleanup.append(c.allocator.conn)
                for n in names:
                    for pid in cl.topics[n]:
                        cl.committed[(GROUP, n, pid)] = (cl.part(n, pid).start, "")
                zk.put(BASE + "/partitions", json.dumps(["%s:%d" % (n, pid) for n in names for pid in cl.topics[n]]).encode())
                consumers.append(Reader(c, names, None))
                ctx.count("grouped")
            else:
                c = SingleConsumer(cl.hosts, **kw)
                consumers.append(Reader(c, [n for n in names if rng.random() < .8] or names[:1], rng.choice((c.BEGINNING, c.BEGINNING, c.END, None))))
        for x in producers + [r.c for r in consumers]:
            await x.connect()

        async def consume(r, topic):
            if topic in r.busy:
                return 0
            r.busy.add(topic)
            try:
                k, v = await outcome(r.c.consume(topic) if r.start is None else r.c.consume(topic, start=r.start))
            finally:
                r.busy.discard(topic)
            ctx.check(k == "ok" and isinstance(v, list), "consume(%r) gave %r", topic, v)
            for value in v:
                try:
                    u = exact(value)
                except (TypeError, ValueError):
                    u = repr(value)
                ctx.check(u in made and made[u][0] == topic, "consuming %s gave %s, which was not produced to it", topic, u[:200])
                r.got[u] += 1
                ctx.check(r.got[u] <= appended[u], "%s was consumed %d times, it is in the logs %d times", u[:120], r.got[u], appended[u])
                r.order[topic].append(u)
                spoil(value)
            ctx.count("consumed", len(v))
            return len(v)
        for r in consumers:                              # those at the end are there before anything is produced
            if not isinstance(r.c, GroupedConsumer) and r.start in (None, r.c.END):
                for n in r.topics:
                    ctx.check(await consume(r, n) == 0, "an empty log was consumed from")
        number = [0]

        def make():
            number[0] += 1
            n = number[0]
            if rng.random() < .25:
                ctx.count("odd_values")
                return rng.choice((n, float(n) + .5, "text %d %s" % (n, gen.text(rng)), [n, obj(rng)], [[n]], str(n), {str(n): obj(rng)}, {"": n}, [None, n],
                                   "\u00e9" * n, -10 ** 20 - n, "\ud83d%d" % n))
            return {"u": n, "x": obj(rng)}
        concurrent = [False]

        times = collections.Counter()

        def spoil(v):
            """Whoever gave or was given a value may change it."""
            if isinstance(v, dict):
                for x in v.values():
                    spoil(x)
                v["changed"] = 1
            elif isinstance(v, list):
                for x in v:
                    spoil(x)
                v.append("changed")

        async def produce(p, topic):
            v = make()
            u = exact(v)
            here = [x for x in list(made)[-5:] if made[x][0] == topic]
            if here and rng.random() < .12:              # once more, maybe while the first is pending
                u = rng.choice(here)
                v = json.loads(u)
                ctx.count("repeated")
            elif u in made:                              # by chance the same value
                return
            else:
                made[u] = (topic, p.kv_n, number[0])
            times[u] += 1
            if by_key:
                key = "k%d" % (zlib.crc32(exact(v).encode()) % 7)
                placed[u] = partition_for(key, cl.topics[topic])
            accepted[(p.kv_n, topic)].append(u)
            k, e = await outcome(p.produce(topic, v))
            ctx.check(k == "ok", "produce(%s) raised %r", u[:100], e)
            spoil(v)
            ctx.count("produced")
            ctx.count("compressed", p.kv_z is not None)
            ctx.count("custom_pair", ser is not None)
        for step in range(rng.choice((3, 8, 15))):
            if faulty:
                st["faults"], st["rate"] = rng.choice((0, 2, 6)), rng.choice((.1, .4))
            acts = []
            for _ in range(rng.choice((1, 2, 4))):
                if rng.random() < .65:
                    p, t, n = rng.choice(producers), rng.choice(names), rng.choice((1, 2, 5) * 15 + (150,))

                    async def several(p=p, t=t, n=n):
                        for _ in range(n):
                            await produce(p, t)
                    acts.append(("produce", several))
                else:
                    r = rng.choice(consumers)
                    acts.append(("consume", lambda r=r, t=rng.choice(r.topics): consume(r, t)))
            together = rng.random() < .5
            story.append([a for a, _ in acts] + [together])
            if together:
                concurrent[0] = concurrent[0] or len([a for a, _ in acts if a == "produce"]) > 1
                await asyncio.gather(*[f() for _, f in acts])
            else:
                for _, f in acts:
                    await f()
        st["faults"] = 0
        for p in producers:
            k, e = await outcome(p.close())
            ctx.check(k == "ok", "close() raised %r", e)
        lost = [u for u in made if appended[u] < times[u]]
        ctx.check(not lost, "%d produced messages are not, or not as often as produced, in the logs after the producers were closed: %s", len(lost), lost[:3])
        for r in consumers:
            for t in r.topics:
                idle = 0
                while idle < 3:
                    idle = 0 if await consume(r, t) else idle + 1
                for u in made:
                    if made[u][0] == t:
                        ctx.check(r.got[u] == appended[u], "%s (%s) is in the logs %d times and was consumed %d times by a %s", u[:160], t, appended[u], r.got[u],
                                  type(r.c).__name__)
                once = {u for u in made if appended[u] == 1}
                at = {u: i for i, u in enumerate(r.order[t])}
                for pid in cl.topics[t]:
                    seq = [u for u in log[(t, pid)] if u in once]
                    ctx.check(all(at[a] < at[b] for a, b in zip(seq, seq[1:])), "%s|%d holds %r, consumed were %r", t, pid, seq[:9],
                              [u for u in r.order[t] if u in set(seq)][:9])
                    ctx.count("order_checks", max(0, len(seq) - 1))
        if not faulty:
            ctx.count("clean_cases")
            twice = [u for u in made if appended[u] != times[u]]
            ctx.check(not twice, "without any fault %s was appended %d times, it was produced %d times", twice and twice[0][:120], twice and appended[twice[0]],
                      twice and times[twice[0]])
            if not concurrent[0]:
                for (i, t), us in accepted.items():
                    for pid in cl.topics[t]:
                        have = [u for u in log[(t, pid)] if made[u][1] == i and times[u] == 1]
                        ctx.check(have == sorted(have, key=lambda u: made[u][2]), "producer %d's messages are in %s|%d as %r", i, t, pid, [made[u][2] for u in have])
                        ctx.count("order_checks", max(0, len(have) - 1))
        ctx.sig(pair, story, len(made), sorted(appended.values()), [type(r.c).__name__ for r in consumers])
        ctx.sample({"pair": pair, "steps": story[:5], "messages": len(made), "faulty": faulty})
        for r in consumers:
            await r.c.close()
    simulate(ctx, work, rng.choice((1, 2, 3, 4)))


def single(rng, ctx):
    stream(rng, ctx)


@zk_case()
def grouped(rng, ctx, zk):
    stream(rng, ctx, zk)


SCENARIOS = [(2, single), (1, grouped)]
