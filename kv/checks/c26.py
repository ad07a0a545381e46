import collections
import json

from kv.world import Action, outcome, settle, simulate

ID = "C26"
LEVEL = "exploration"
QUICK, THOROUGH = 1100, 30000
RULE = ("topics of 1-5 partitions hold plain and compressed sets in which 5-100% of the messages cannot be deserialized - invalid JSON, "
        "binary, null, or a custom deserializer raising any kind of exception - anywhere, also alone, at the end of a set or before a cut; "
        "read in full by consume() calls with size limits and errors in between; checker: returned values are exactly the good messages in "
        "order, once each, the deserializer's own results unaltered, consume() never raises, and every fetch position moves past the bad "
        "messages; distinct non-trivial = distinct (logs, calls)")
NEED = {"bad_messages": 8000, "good_messages": 6456, "trailing_bad": 300, "all_bad_sets": 100, "bad_in_compressed": 1000}
BAD = [b"", b"{", b"nul", b"\xff\xfe", b"\x80abc", b"[1,", b"'a'", b"{\"a\": }", None, b"\x00", b"1 2"]


class Odd(Exception):
    pass


def bad(rng, ctx):
    async def work(cl):
        from kiel.clients import SingleConsumer
        ids = list(cl.brokers)
        cl.add_topic("t", [rng.choice(ids) for _ in range(rng.choice((1, 2, 3, 5) * 5 + (13,)))])
        for q in cl.topics["t"].values():
            q.start = q.end = rng.choice((0, 0, 0, 7, 2 ** 31 - 2, 2 ** 40))
        custom = rng.random() < .5
        errors = [ValueError("x"), KeyError("k"), TypeError("t"), IndexError(), AttributeError("value"), Odd(), RuntimeError("r"),
                  UnicodeDecodeError("utf-8", b"\xff", 0, 1, "z"), ZeroDivisionError(), AssertionError(), OSError(5, "io"),
                  StopIteration(), LookupError(), EOFError(), NotImplementedError()]
        share = rng.choice((.05, .3, .6, .95, 1))
        expected = collections.defaultdict(list)
        desc = []

        def deserialize(raw):
            text = raw if isinstance(raw, str) else (raw or b"").decode("latin-1")
            if text.startswith("bad"):
                e = rng.choice(errors)
                raise e
            return ["seen", json.loads(raw)]

        def fill(pid, n):
            q = cl.topics["t"][pid]
            while n > 0:
                k = min(n, rng.choice((1, 2, 3, 6)))
                n -= k
                items, flags = [], []
                gap = rng.choice((0, 0, 0, 2)) if q.end else 0
                for i in range(k):
                    off = q.end + gap + i
                    isbad = rng.random() < share
                    flags.append(isbad)
                    if isbad:
                        v = b"bad%d" % rng.randrange(100) if custom else rng.choice(BAD)
                    else:
                        v = json.dumps({"p": pid, "o": off, "x": "y" * rng.choice((0, 0, 60))}).encode()
                        expected[pid].append(off)
                    items.append((rng.choice((None, b"k")), v))
                codec = rng.choice((0, 0, 1, 2))
                q.append(items, codec, gap=gap)
                desc.append((pid, codec, flags))
                ctx.count("bad_messages", sum(flags))
                ctx.count("good_messages", k - sum(flags))
                if flags[-1]:
                    ctx.count("trailing_bad")
                if all(flags):
                    ctx.count("all_bad_sets")
                if codec:
                    ctx.count("bad_in_compressed", sum(flags))
        for pid in cl.topics["t"]:
            fill(pid, rng.choice((0, 1, 4, 15, 30)))
        kw = {}
        if custom:
            kw["deserializer"] = deserialize
        if rng.random() < .5:
            kw["max_bytes"] = len(cl.topics["t"]) * rng.choice((700, 900, 1300))
        c = SingleConsumer(cl.hosts, **kw)
        budget = [rng.choice((0, 0, 3))]
        asked = {}

        def plan(x):
            if x.api != "fetch":
                return
            for t in x.body["topics"]:
                for p in t["partitions"]:
                    pid = p["partition_id"]
                    if p["offset"] < asked.get(pid, 0):
                        cl.fail("partition %d went back from %d to %d" % (pid, asked[pid], p["offset"]))
                    asked[pid] = p["offset"]
            if budget[0] > 0 and rng.random() < .5:
                budget[0] -= 1
                return Action(errors={("t", pid): rng.choice((5, 6, 7, 29)) for pid in cl.topics["t"] if rng.random() < .5})
        cl.plan = plan
        await c.connect()
        got = collections.defaultdict(list)
        calls = 0
        grow = rng.choice((0, 3))
        while True:
            k, r = await outcome(c.consume("t", start=c.BEGINNING))
            ctx.check(k == "ok", "consume raised %r", r)
            calls += 1
            for v in r:
                if custom:
                    ctx.check(isinstance(v, list) and v[0] == "seen", "deserializer results were altered: %r", v)
                    v = v[1]
                ctx.check(isinstance(v, dict) and set(v) == {"p", "o", "x"}, "returned %r", v)
                got[v["p"]].append(v["o"])
            for pid in got:
                ctx.check(got[pid] == expected[pid][:len(got[pid])], "partition %d returned %r, good are %r", pid, got[pid], expected[pid])
            if grow and rng.random() < .4:
                grow -= 1
                fill(rng.choice(list(cl.topics["t"])), rng.choice((1, 3)))
                continue
            done = all(asked[pid] >= q.end for pid, q in cl.topics["t"].items())
            if done:
                break
            left = sum(max(0, q.end - asked[pid]) for pid, q in cl.topics["t"].items())
            ctx.check(calls < 200, "after %d calls the positions are %r, the logs end at %r", calls, asked,
                      {pid: q.end for pid, q in cl.topics["t"].items()})
            limit = left + 30
            ctx.check(calls <= limit + 200, "no progress")
        for pid in cl.topics["t"]:
            ctx.check(got[pid] == expected[pid], "partition %d returned %r, good are %r", pid, got[pid], expected[pid])
        ctx.sig(desc, sorted(kw), calls)
        ctx.sample({"sets": [(a, b, [int(f) for f in fl]) for a, b, fl in desc[:6]], "calls": calls, "custom": custom})
        await c.close()
    simulate(ctx, work, rng.choice((1, 1, 2, 3)))


SCENARIOS = [(1, bad)]
