import calendar
import datetime
import json
import os
import time

from kv.world import Action, outcome, settle, simulate

ID = "C16"
LEVEL = "exploration"
QUICK, THOROUGH = 1300, 35000
RULE = ("single consumers start 1-3 topics (known when connecting, created later, or growing) at the beginning, the end, no start, a datetime "
        "(microseconds, before 1970, far future) or a timedelta (fractional, negative), in random time zones, while lookups meet retriable codes for some "
        "partitions, fatal codes, answers without offsets, lost connections, leader moves and restarts, and fetches go out of range; monitors "
        "at the brokers: every lookup carries the requested start in whole epoch seconds, no fetch precedes a lookup answered for every "
        "partition, and each partition's first fetch is at the offset given for it; distinct non-trivial = distinct (starts, lookups)")
NEED = {"first_fetches": 3000, "lookup_lost": 200, "lookup_retriable": 400, "lookup_fatal": 102, "no_offsets": 52, "late_topics": 250,
        "datetime": 250, "timedelta": 250, "out_of_range": 150}
DROPS = ("drop_before", "drop_after", "reset_before", "reset_after", "partial")
RETRIABLE = (2, 3, 5, 6, 7, 14, 15, 16, 19, 20)
FATAL = (-1, 1, 4, 8, 9, 10, 12, 13, 17, 18, 22, 25, 27, 29, 30, 31, 44, 500, -77)


def starts(rng, c):
    """-> (start, lowest and highest whole second it may stand for)."""
    r = rng.random()
    if r < .2:
        return "beginning", c.BEGINNING, lambda: (-2, -2)
    if r < .4:
        return "end", c.END, lambda: (-1, -1)
    if r < .5:
        return "default", None, lambda: (-1, -1)
    if r < .75:
        sec = rng.choice((0, 1, 59, 1431617513, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 4102444800, rng.randrange(10 ** 9, 2 * 10 ** 9)))
        micro = rng.choice((0, 0, 1, 499999, 500000, 999999))
        return "datetime", datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=sec, microseconds=micro), lambda: (sec, sec)
    delta = datetime.timedelta(days=rng.choice((0, 0, 1, 400)), seconds=rng.choice((0, 1, 30, 86399, 3600)),
                               microseconds=rng.choice((0, 0, 1, 500000, 999999)))
    if rng.random() < .1:
        delta = -delta
    t0 = int(time.time())

    def window():
        now = int(time.time())
        d = delta.total_seconds()
        return int(t0 - d) - 1, int(now - d) + 1
    return "timedelta", delta, window


ZONES = ("UTC", "Asia/Tokyo", "KVX-5:30", "KVW+8KVS,M3.2.0,M11.1.0", "KVE-1KVT,M3.5.0,M10.5.0/3", "KVZ+11:45")


def one(rng, ctx):
    """The process may run in any time zone."""
    before = os.environ.get("TZ")
    os.environ["TZ"] = rng.choice(ZONES)
    time.tzset()
    try:
        run(rng, ctx)
    finally:
        if before is None:
            os.environ.pop("TZ")
        else:
            os.environ["TZ"] = before
        time.tzset()


def run(rng, ctx):
    alone = rng.random() < .2

    async def work(cl):
        from kiel.clients import SingleConsumer
        ids = list(cl.brokers)
        anchor = ids[0]
        names = ["t%d" % i for i in range(rng.choice((1, 1, 2, 3)))]
        late = {}
        for n in names:
            leaders = [rng.choice(ids) for _ in range(rng.choice((1, 2, 3, 5) * 5 + (17,)))]
            cl.add_topic(n, leaders)
            for pid, q in cl.topics[n].items():
                q.start = q.end = rng.choice((0, 0, 5, 1000, 2 ** 33))
                for i in range(rng.choice((0, 1, 4, 9))):
                    q.append([(None, json.dumps([n, pid, q.end]).encode())])
            if rng.random() < .3:
                late[n] = cl.topics.pop(n)
        c = SingleConsumer(cl.hosts)
        await c.connect()
        await settle(cl, 1)
        for n, t in late.items():
            cl.topics[n] = t
            ctx.count("late_topics")
        st = {"topic": None, "window": None, "given": {}, "ready": False, "fatal": False, "empty": False, "fetched": {}, "lookups": 0, "call": 0, "stubborn": False}
        asked_in = {}
        budget = [0]
        log = []

        def seen(x):
            if x.api == "offset":
                asked_in[(x.conn.cid, x.corr)] = st["call"]
                lo, hi = st["window"]()
                for t in x.body["topics"]:
                    if t["name"] != st["topic"]:
                        cl.fail("consuming %s looked up %s" % (st["topic"], t["name"]))
                    for p in t["partitions"]:
                        if not lo <= p["time"] <= hi:
                            cl.fail("start %s was looked up as %d instead of %d..%d" % (st["label"], p["time"], lo, hi))
                        if p["max_offsets"] < 1:
                            cl.fail("lookup asks for %d offsets" % p["max_offsets"])
                        st["lookups"] += 1
            if x.api == "fetch":
                for t in x.body["topics"]:
                    for p in t["partitions"]:
                        tp = (t["name"], p["partition_id"])
                        if st["synced"].get(t["name"]):
                            continue
                        if tp not in st["given"]:
                            cl.fail("%s|%d is fetched at %d although no broker gave an offset for it" % (tp + (p["offset"],)))
                        elif p["offset"] not in (st["given"][tp] if st.get("hurried") else st["given"][tp][-1:]):
                            cl.fail("%s|%d is first fetched at %d, the brokers gave %r" % (tp + (p["offset"], st["given"][tp])))
                        st["fetched"][tp] = p["offset"]
                        ctx.count("first_fetches")
        st["synced"] = {}
        cl.on_request = seen

        def plan(x):
            slow = rng.choice((0, 0, .002))
            if x.api == "fetch" and st.get("oor"):
                a = Action(delay=slow)
                for t in x.body["topics"]:
                    for p in t["partitions"]:
                        if (t["name"], p["partition_id"]) in st["oor"]:
                            a.errors[(t["name"], p["partition_id"])] = 1
                return a
            if x.api != "offset" or budget[0] <= 0:
                return Action(delay=slow)
            budget[0] -= 1
            if st["stubborn"]:
                return Action(delay=slow, errors={"*": rng.choice(RETRIABLE)})
            r = rng.random()
            if r < .35 and x.broker.id != anchor:
                m = rng.choice(DROPS)
                log.append(m)
                st["lost"] += 1
                ctx.count("lookup_lost")
                if rng.random() < .3:
                    b = x.broker
                    cl.loop.call_soon(lambda: (b.stop(rng.random() < .5), b.start()))
                return Action(mode=m, cut=rng.randrange(60), delay=slow)
            if r < .5:
                for q in cl.topics[st["topic"]].values():
                    if rng.random() < .5:
                        q.leader = rng.choice(ids)
                log.append("move")
            a = Action(delay=slow)
            if st["allow_fatal"] and r > .85:
                tps = [(t["name"], p["partition_id"]) for t in x.body["topics"] for p in t["partitions"]]
                tp = rng.choice(tps)
                if rng.random() < .35:
                    st["none"] = tp
                    ctx.count("no_offsets")
                    log.append(("none", tp))

                    def edit(body):
                        for t in body["topics"]:
                            for p in t["partitions"]:
                                if (t["name"], p["partition_id"]) == tp and p["error_code"] == 0:
                                    p["offsets"] = []
                        return body
                    a.edit = edit
                else:
                    a.errors[tp] = rng.choice(FATAL)
                    ctx.count("lookup_fatal")
                    log.append(sorted(a.errors.items()))
                return a
            for t in x.body["topics"]:
                for p in t["partitions"]:
                    if rng.random() < .5:
                        a.errors[(t["name"], p["partition_id"])] = rng.choice(RETRIABLE)
                        ctx.count("lookup_retriable")
            log.append(sorted(a.errors.items()))
            return a
        cl.plan = plan

        def sent(x, how):
            if x.api == "offset" and how == "resp" and asked_in.get((x.conn.cid, x.corr)) == st["call"]:
                for t in x.response["topics"]:
                    for p in t["partitions"]:
                        if p["error_code"] == 0 and p["offsets"]:
                            st["given"].setdefault((t["name"], p["partition_id"]), []).append(p["offsets"][0])
                        elif p["error_code"] not in RETRIABLE:
                            st["fatal"] = True
        cl.on_sent = sent
        labels = []

        async def call(n, start, label):
            st.update(topic=n, label=label, fatal=False, lost=0, call=st["call"] + 1)
            k, r = await outcome(c.consume(n, start) if rng.random() < .5 else c.consume(n, start=start))
            ctx.check(k == "ok", "consume(%s, %s) raised %r", n, label, r)
            ctx.check(isinstance(r, list), "consume(%s, %s) returned %r", n, label, r)
            return r
        for n in rng.sample(names, len(names)):
            label, start, window = starts(rng, c)
            ctx.count(label) if label in ("datetime", "timedelta") else None
            labels.append(label)
            st.update(window=window, allow_fatal=rng.random() < .4)
            budget[0] = rng.choice((0, 1, 3, 8))
            st["stubborn"] = rng.random() < .05
            if st["stubborn"]:
                budget[0] = rng.choice((30, 90))
                ctx.count("stubborn")
            hurried = st["hurried"] = False
            for attempt in range(12):
                if rng.random() < .3:
                    for q in cl.topics[n].values():
                        q.append([(None, json.dumps([n, q.pid, q.end]).encode())])
                st["given"], st["fetched"] = {}, {}
                r = await call(n, start, label)
                if st["fatal"] and (st["lost"] or hurried) and st["fetched"]:
                    st["fatal"] = False   # not an answer to this call, or one that never arrived
                if st["fatal"]:
                    ctx.check(r == [] and not st["fetched"], "after a fatal lookup error consume returned %r and fetched %r", r, st["fetched"])
                    hurried = rng.random() < .5
                    st["hurried"] = hurried
                    if not hurried:
                        await settle(cl, 1)
                    continue
                break
            budget[0], st["stubborn"] = 0, False
            ctx.check(not st["fatal"], "harness: lookups never succeeded")
            ctx.check(set(st["fetched"]) == {(n, pid) for pid in cl.topics[n]}, "%s: of partitions %r only %r were fetched", n,
                      sorted(cl.topics[n]), sorted(st["fetched"]))
            st["synced"][n] = True
            for _ in range(2):    # leaders may have moved right after they were asked
                r = r + await call(n, start, label)
            for pid, q in cl.topics[n].items():
                lo = st["fetched"][(n, pid)]
                want = [x[0] for x in q.records() if x[0] >= lo]
                have = [v[2] for v in r if v[1] == pid]
                ctx.check(have == want, "%s|%d started at %d returned %r, the log holds %r", n, pid, lo, have, want)
            # positions hold from now on, unless a fetch is out of range
            looked = st["lookups"]
            await call(n, start, label)
            ctx.check(st["lookups"] == looked, "the start of %s was looked up again without need", n)
            if rng.random() < .4:
                st["oor"] = {(n, pid) for pid in cl.topics[n] if rng.random() < .6} or {(n, 0)}
                await call(n, start, label)
                st["oor"] = None
                st["synced"][n] = False
                ctx.count("out_of_range")
                st["given"], st["fetched"] = {}, {}
                st["allow_fatal"] = False
                budget[0] = rng.choice((0, 0, 2))
                await call(n, start, label)
                budget[0] = 0
                ctx.check(set(st["fetched"]) == {(n, pid) for pid in cl.topics[n]}, "%s: fetched %r after being out of range", n, sorted(st["fetched"]))
                st["synced"][n] = True
        ctx.sig(labels, log, sorted(late), [[q.leader for q in cl.topics[n].values()] for n in names])
        ctx.sample({"starts": labels, "lookup_faults": log[:10], "late": sorted(late)})
        await c.close()
    simulate(ctx, work, 1 if alone else rng.choice((2, 3, 4)))


SCENARIOS = [(1, one)]
