import asyncio
import os
import struct

from kv.world import Action, outcome, settle, simulate

ID = "C08"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 1200, 30000
RULE = ("lists of 0-5 bootstrap hosts (with port, without port on 9092, by name, repeated, also being cluster brokers), each with one "
        "failure mode out of refuse, unresolvable, accept+FIN, accept+RST, FIN/RST before or after handling, answer cut at a random byte, "
        "undecodable or unsolicited answer, or healthy; every healthy host serves a distinguishable view; monitors: order of contacts, "
        "which view the client ends up with, outcome of connect(), sockets left at bootstrap hosts and one at each cluster broker; "
        "distinct non-trivial = distinct mode sequences with at least one failing host")
NEED = {"failed_hosts": 800, "connected": 186, "no_brokers": 100, "default_port": 60}
MODES = ("refuse", "accept_close", "accept_reset", "drop_before", "reset_before", "drop_after", "reset_after", "partial", "garbage",
         "unsolicited", "unresolvable")
_n = 0


def one(rng, ctx):
    global _n
    _n += 1
    unique = "127.%d.%d.%%d" % (20 + os.getpid() % 200, _n % 250 + 1)

    async def work(cl):
        from kiel.cluster import Cluster
        from kiel.clients import Producer, SingleConsumer
        from kiel.exc import NoBrokersError
        real = list(cl.brokers)
        cl.reported = real
        cl.add_topic("t", [rng.choice(real) for _ in range(rng.choice((1, 3)))])
        n = rng.choice((0, 1, 1, 2, 2, 3, 4, 5))
        ok_p = rng.choice((0, .2, .5))
        hosts, modes, faults = [], [], {}
        for i in range(n):
            mode = "ok" if rng.random() < ok_p else rng.choice(MODES)
            if mode == "unresolvable":
                hosts.append("nosuch host.invalid:9092")
                modes.append(mode)
                faults[hosts[-1]] = None
                continue
            style = rng.choice(("port", "port", "noport", "name", "real"))
            bid = 900 + i
            if style == "real":
                bid = rng.choice(real)
                if any(f == bid for f in faults.values()) or mode in ("refuse", "accept_close", "accept_reset"):
                    style = "port"
                    bid = 900 + i
            if style == "noport":
                try:
                    b = cl.add_broker(bid, start=False, host=unique % (i + 2), port=9092)
                    hosts.append(b.host)
                    ctx.count("default_port")
                except OSError:
                    style = "port"
            if style in ("port", "name"):
                b = cl.add_broker(bid, start=False)
                hosts.append("%s:%d" % ("localhost" if style == "name" else b.host, b.port))
            elif style == "real":
                b = cl.brokers[bid]
                hosts.append(b.addr)
            if mode != "refuse":
                b.start()
            faults[hosts[-1]] = bid
            modes.append(mode)
        if n and rng.random() < .2:  # the same host listed again
            k = rng.randrange(n)
            hosts.append(hosts[k])
            modes.append(modes[k])
        mode_of = {faults[h]: m for h, m in zip(hosts, modes) if faults[h] is not None}
        contacts = []
        booting = [True]

        def first(bid):
            return booting[0] and (bid >= 900 or bid in mode_of)

        def on_accept(conn):
            bid = conn.broker.id
            if not first(bid):
                return
            contacts.append(bid)
            m = mode_of.get(bid)
            if m == "accept_close":
                return "close"
            if m == "accept_reset":
                conn.reset()
        cl.on_accept = on_accept
        asked = []

        def plan(c):
            bid = c.broker.id
            if not first(bid):
                return
            m = mode_of.get(bid, "ok")
            asked.append(bid)
            if m == "ok":
                booting[0] = False
                return Action(delay=rng.choice((0, .01)), chunks=[3, 1, 7] if rng.random() < .3 else None)
            if m in ("drop_before", "reset_before", "drop_after", "reset_after"):
                return Action(mode=m, delay=rng.choice((0, .01)))
            if m == "partial":
                return Action(mode="partial", cut=rng.randrange(0, 60))
            if m == "garbage":
                body = rng.choice((b"", b"\x00\x00", b"\x7f\xff\xff\xff", b"\x00\x00\x00\x01\x00\x00\x00\x05\xff\xff"))
                return Action(raw=struct.pack(">ii", len(body) + 4, c.corr) + body)
            if m == "unsolicited":
                return Action(raw=struct.pack(">ii", 12, c.corr + 4711) + b"\x00" * 8)
        cl.plan = plan

        def view(v, c):
            v["topics"].append({"error_code": 0, "name": "view-%d" % c.broker.id, "partitions": [
                {"error_code": 0, "partition_id": c.broker.id, "leader": real[0], "replicas": [], "isrs": []}]})
            return v
        cl.metadata_view = view
        hosts_arg = hosts if rng.random() < .8 else tuple(hosts)
        kind = rng.choice((Cluster, Producer, SingleConsumer))
        client = kind(hosts_arg)
        expected = [i for i, m in enumerate(modes) if m == "ok"]
        k, r = await outcome(client.start() if kind is Cluster else client.connect())
        cluster = client if kind is Cluster else client.cluster
        await settle(cl)
        want_contacts = []
        for i, h in enumerate(hosts):
            if modes[i] not in ("refuse", "unresolvable"):
                want_contacts.append(faults[h])
            if modes[i] == "ok":
                break
        if expected:
            if k != "ok":
                ctx.violation("connect failed with %r although host %d of %s answers" % (r, expected[0], modes))
            bid = faults[hosts[expected[0]]]
            want = {"t": sorted(cl.topics["t"]), "view-%d" % bid: [bid]}
            got = {t: sorted(p) for t, p in cluster.topics.items()}
            ctx.check(got == want, "topics after connect are %r, host %d of %s serves %r", got, expected[0], modes, want)
            got = {t: dict(p) for t, p in cluster.leaders.items() if p}
            lead = {"t": {p.pid: p.leader for p in cl.topics["t"].values()}, "view-%d" % bid: {bid: real[0]}}
            ctx.check(got == lead, "leaders after connect are %r instead of %r", got, lead)
            ctx.check(sorted(cluster) == sorted(real), "connected to brokers %s instead of %s", sorted(cluster), real)
            ctx.count("connected")
        else:
            ctx.check(k == "err" and isinstance(r, NoBrokersError), "connect with hosts %s gave %s %r instead of the no-brokers error",
                      modes, k, r)
            ctx.count("no_brokers")
        ctx.check(contacts == want_contacts, "bootstrap hosts contacted %s, expected %s (%s)", contacts, want_contacts, modes)
        for bid, b in cl.brokers.items():
            n_open = len([c for c in b.conns if not c.closed])
            want_open = 1 if expected and bid in real else 0
            ctx.check(n_open == want_open, "%d connections open at broker %s after connect (%s), expected %d", n_open, bid, modes, want_open)
        ctx.count("failed_hosts", len(modes) - len(expected))
        if len(expected) < len(modes):
            ctx.sig(modes, [faults[h] in real for h in hosts], kind.__name__)
            ctx.sample({"hosts": modes, "client": kind.__name__})
        cluster.stop()
        await settle(cl)
        ctx.check(not cl.open_conns(), "sockets left open after stop")
    simulate(ctx, work, rng.choice((1, 1, 2, 3)))


SCENARIOS = [(1, one)]
