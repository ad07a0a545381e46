import collections
import json

from kv import gen
from kv.world import Action, outcome, settle, simulate

ID = "C12"
LEVEL = "exploration"
QUICK, THOROUGH = 900, 25000
RULE = ("producers with random configuration (default/custom serializer, key maker, partitioner; none/gzip/snappy; acks 1/-1; any timeout; batch "
        "0-6) and random text/binary/null/numeric/any-object keys and values (nested unsorted objects, scalars, lists), now and then refused by the user's own key maker or serializer, produce to 1-3 topics over 1-4 brokers while leaders move and topics grow; "
        "monitors at the brokers: key and value bytes equal what key maker and serializer returned, the partition is the one the "
        "partitioner chose last for that key, the partitioner is offered exactly the partitions of the latest metadata, the receiving broker is "
        "the leader in the latest metadata, acks/timeout/codec as configured; the default partitioner uses every one of 2-60 partitions; distinct non-trivial = distinct (configuration, layout, keys)")
NEED = {"messages_seen": 4000, "partitioner_calls": 2000, "moved": 200, "default_json": 300, "binary": 300, "spread": 600, "stringable": 500, "refused": 200}


def obj(rng, depth=0):
    r = rng.random()
    if depth > 2 or r < .5:
        return rng.choice((1, -7, 0, 1.5, True, False, None, "", gen.text(rng), "z", 10 ** 15))
    if r < .75:
        return {gen.text(rng)[:8] + str(i): obj(rng, depth + 1) for i in range(rng.randrange(0, 4))}
    return [obj(rng, depth + 1) for _ in range(rng.randrange(0, 4))]


def nested(rng):
    """Something whose inner dicts are not in order as they stand."""
    d = {k: obj(rng, 2) for k in rng.sample(("b", "a", "z", "B", "10", "9", "\u00e9", "_"), 4)}
    return rng.choice((d, [d], [[d], 1], {"y": d, "x": [d]}))


class Name(object):
    """Anything that can be made a string of may be a key."""

    def __init__(self, n):
        self.n = n

    def __str__(self):
        return "name-%d" % self.n


def stringable(rng):
    return rng.choice((0, 1, -1, 7, 10 ** 12, 0.0, 1.5, -0.25, True, False, (1, "a"), (), Name(rng.randrange(100)), rng.randrange(10 ** 6), rng.random()))


class Unfit(Exception):
    pass


def sorted_keys(pairs):
    keys = [k for k, _ in pairs]
    if keys != sorted(keys):
        raise ValueError("keys not sorted: %r" % keys)
    return dict(pairs)


def one(rng, ctx):
    async def work(cl):
        from kiel.clients import Producer
        from kv.broker import Partition
        ids = list(cl.brokers)
        names = ["t%d" % i for i in range(rng.choice((1, 2, 3)))]
        for n in names:
            cl.add_topic(n, [rng.choice(ids) for _ in range(rng.choice((1, 2, 3, 5) * 6 + (18, 150)))])
        cfg = {"batch_size": rng.choice((0, 1, 1, 2, 3, 6) * 4 + (30,)), "compression": rng.choice((None, 1, 2)),
               "required_acks": rng.choice((1, -1)), "ack_timeout": rng.choice((500, 0, 1, 2 ** 31 - 1, 12345))}
        want = {k: cfg[k] for k in ("required_acks", "ack_timeout")}
        if rng.random() < .3:
            cfg.pop("required_acks")
            cfg.pop("ack_timeout")
            want = {"required_acks": -1, "ack_timeout": 500}
        custom_ser, custom_key, custom_part = rng.random() < .6, rng.random() < .7, rng.random() < .6
        values, keys = {}, {}

        unfit = [None]

        def ser(m):
            if unfit[0] == "ser":
                raise Unfit
            return values[m["u"]]

        def key_maker(m):
            if unfit[0] == "key":
                raise Unfit
            return keys[m["u"] if isinstance(m, dict) else current[0]]
        current = [None]
        latest = {}          # metadata as last delivered
        calls = collections.defaultdict(list)

        def partitioner(key, partitions):
            offered = list(partitions)
            ctx.count("partitioner_calls")
            u = by_key[kb(key)]
            t = topic_of[u]
            if type(key) is not type(keys[u]) or key != keys[u]:
                cl.fail("the key maker gave %r, the partitioner was given %r" % (keys[u], key))
            if sorted(offered) != sorted(latest.get(t, {})):
                cl.fail("partitioner was offered %r for topic %s whose partitions are %r" % (offered, t, sorted(latest.get(t, {}))))
            choice = rng.choice(offered)
            calls[u].append(choice)
            return choice
        if custom_part:
            custom_key = True
            cfg["partitioner"] = partitioner
        if custom_ser:
            cfg["serializer"] = ser
        if custom_key:
            cfg["key_maker"] = key_maker
        by_key, topic_of, seen, objs = {}, {}, collections.Counter(), {}

        def kb(k):
            return k if k is None or isinstance(k, bytes) else str(k).encode("utf-8")

        def ident(topic, key, value):
            """Which produced message this is."""
            if custom_part:
                return by_key.get(key)
            for u in topic_of:
                if topic_of[u] != topic:
                    continue
                if custom_key and kb(keys[u]) != key:
                    continue
                if custom_ser:
                    if kb(values[u]) == value:
                        return u
                elif value is not None:
                    if json.loads(value.decode("utf-8"), object_pairs_hook=sorted_keys) == objs[u]:
                        return u
            return None

        def plan(c):
            a = Action(delay=rng.choice((0, 0, .003)))
            if c.api == "metadata":
                a.edit = learn
            if c.api != "produce":
                return a
            b = c.body
            if (b["required_acks"], b["timeout"]) != (want["required_acks"], want["ack_timeout"]):
                cl.fail("produce request has acks %r and timeout %r, configured are %r" % (b["required_acks"], b["timeout"], want))
            tps = [(t["name"], p["partition_id"]) for t in b["topics"] for p in t["partitions"]]
            if len(set(tps)) != len(tps):
                cl.fail("produce request names a partition twice: %r" % tps)
            for t in b["topics"]:
                for p in t["partitions"]:
                    n, pid = t["name"], p["partition_id"]
                    if latest.get(n, {}).get(pid) != c.broker.id:
                        cl.fail("%s|%d was sent to broker %s, the latest metadata says %r" % (n, pid, c.broker.id, latest.get(n)))
                    if p["codecs"] != [cfg["compression"] or 0]:
                        cl.fail("codecs %r with compression %r" % (p["codecs"], cfg["compression"]))
                    for m in p["messages"]:
                        ctx.count("messages_seen")
                        try:
                            u = ident(n, m[2], m[3])
                        except ValueError as e:
                            cl.fail("value %r is not JSON with sorted keys: %s" % (m[3], e))
                            return
                        if u is None or topic_of[u] != n:
                            cl.fail("message %r => %r sent to %s was never produced to it" % (m[2], (m[3] or b"")[:60], n))
                            return
                        if not custom_key and m[2] is not None:
                            cl.fail("default key is %r" % m[2])
                        if custom_ser and kb(values[u]) != m[3]:
                            cl.fail("serializer gave %r, sent was %r" % (values[u], m[3]))
                        if not custom_ser:
                            ctx.count("default_json")
                            try:
                                if json.loads(m[3].decode("utf-8"), object_pairs_hook=sorted_keys) != objs[u]:
                                    cl.fail("value %r is not %r" % (m[3], objs[u]))
                            except (ValueError, AttributeError) as e:
                                cl.fail("value %r is not JSON with sorted keys: %s" % (m[3], e))
                        if custom_part and calls[u][-1] != pid:
                            cl.fail("partitioner chose %r for key %r, sent to %d" % (calls[u], m[2], pid))
                        if isinstance(values.get(u), bytes) or isinstance(keys.get(u), bytes):
                            ctx.count("binary")
                        seen[u] += 1
                        where[u] = pid
            return a
        where = {}

        def learn(v):
            latest.clear()
            for t in v["topics"]:
                latest[t["name"]] = {p["partition_id"]: p["leader"] for p in t["partitions"]}
            return v
        cl.plan = plan
        p = Producer(cl.hosts, **cfg)
        await p.connect()
        n_msgs = rng.choice((3, 10, 25) * 8 + (140,))
        for u in range(n_msgs):
            t = rng.choice(names)
            while True:
                key = gen.payload(rng, 3000) if rng.random() < .7 else stringable(rng)
                if not custom_part or (key is not None and kb(key) not in by_key):
                    break
            keys[u] = key
            by_key[kb(key)] = u
            values[u] = gen.payload(rng, 3000) if rng.random() < .85 else stringable(rng)
            ctx.count("stringable", custom_key and not isinstance(key, (str, bytes, type(None))))
            objs[u] = {"u": u, "data": rng.choice((obj, nested))(rng), gen.text(rng)[:9] + "k": obj(rng)} if not custom_ser else {"u": u}
            if not custom_ser and not custom_key and rng.random() < .4:   # any JSON value will do
                objs[u] = rng.choice(([u, nested(rng)], "text %d" % u, 10 ** 6 + u, [[u]]))
            topic_of[u] = t
            if (custom_ser or custom_key) and rng.random() < .12:  # a message the user's own function rejects
                before, unfit[0] = p.unsent_count, rng.choice((["ser"] if custom_ser else []) + (["key"] if custom_key else []))
                k, r = await outcome(p.produce(t, {"u": u, "no": 1} if not custom_ser else {"u": u}))
                unfit[0] = None
                ctx.check(k == "err" and isinstance(r, Unfit), "the message was refused by the user's function, produce() gave %r", r)
                ctx.check(p.unsent_count == before, "a refused message changed the number pending from %d to %d", before, p.unsent_count)
                ctx.count("refused")
            current[0] = u
            k, r = await outcome(p.produce(t, objs[u]))
            ctx.check(k == "ok", "produce raised %r", r)
            if rng.random() < .15:
                for q in cl.topics[rng.choice(names)].values():
                    q.leader = rng.choice(ids)
                ctx.count("moved")
            if rng.random() < .08:
                n = rng.choice(names)
                pid = len(cl.topics[n])
                cl.topics[n][pid] = Partition(pid, rng.choice(ids))
            if rng.random() < .1:
                await p.cluster.heal()
        for _ in range(8):
            k, r = await outcome(p.flush())
            ctx.check(k == "ok", "flush raised %r", r)
            if not p.unsent_count:
                break
        ctx.check(p.unsent_count == 0, "%d messages are still pending on a healthy cluster", p.unsent_count)
        if custom_part or custom_ser is False:
            ctx.check(set(seen) == set(topic_of), "messages %s never reached a broker", sorted(set(topic_of) - set(seen)))
        for n in names:
            have = sum(len(q.records()) for q in cl.topics[n].values())
            made = sum(1 for u in topic_of if topic_of[u] == n)
            ctx.check(have == made, "topic %s holds %d messages, %d were produced", n, have, made)
        if custom_part:
            for u, pid in where.items():
                ctx.check(any(r[1] == kb(keys[u]) for r in cl.topics[topic_of[u]][pid].records()),
                          "message with key %r is not in partition %d", keys[u], pid)
        ctx.sig(sorted(k for k in cfg), cfg.get("compression"), cfg["batch_size"], [[q.leader for q in cl.topics[n].values()] for n in names],
                sorted(where.items()))
        ctx.sample({"batch": cfg["batch_size"], "compression": cfg["compression"], "messages": n_msgs,
                    "custom": [custom_ser, custom_key, custom_part]})
        await p.close()
    simulate(ctx, work, rng.choice((1, 2, 3, 4)))


def spread(rng, ctx):
    """By default every partition of the topic is eventually chosen."""
    async def work(cl):
        from kiel.clients import Producer
        n = rng.choice((2, 3, 4, 9, 12, 17, 33, 60) * 3 + (140, 270))
        count = max(120, n * 28)
        cl.add_topic("t", [rng.choice(list(cl.brokers)) for _ in range(n)])
        p = Producer(cl.hosts, batch_size=rng.choice((1, 10, 50)))
        await p.connect()
        for i in range(count):
            await p.produce("t", {"i": i})
        empty = [pid for pid, q in cl.topics["t"].items() if not q.records()]
        ctx.check(not empty, "of %d messages over %d partitions none went to %s", count, n, empty)
        ctx.count("spread", n)
        ctx.sig("spread", n, [len(q.records()) for q in cl.topics["t"].values()])
        await p.close()
    simulate(ctx, work, rng.choice((1, 2)))


SCENARIOS = [(9, one), (1, spread)]
