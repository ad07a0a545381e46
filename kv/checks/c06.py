import asyncio
import struct

from kv import gen, wire
from kv.checks import proto
from kv.world import Action, outcome, settle, simulate

ID = "C06"
LEVEL = "exploration"
QUICK, THOROUGH = 1600, 40000
RULE = ("1-3 real connections to a fake broker, 1-40 requests of all 7 client APIs sent from concurrent tasks; responses are "
        "delayed, reordered across requests, split into random segments and coalesced; monitors: every future resolves to the "
        "response that echoes its own request's marker, frames seen by the broker equal serialize() output exactly once each, "
        "ids unique across the process and within 32 bits; distinct non-trivial = distinct (request order, response order, "
        "segmentation) with >= 2 requests outstanding together")
NEED = {"responses": 2000, "reordered": 300, "segmented": 200}
APIS = ("metadata", "produce", "fetch", "offset", "offset_commit", "offset_fetch", "group_coordinator")
_C = None


def C():
    global _C
    if _C is None:
        _C = proto.classes()
    return _C


def build(rng, api, mark):
    """A request whose response can be told from every other by ``mark``."""
    schema = proto.REQ_SCHEMA[api]
    body = gen.tree(rng, schema)
    if api == "metadata":
        body["topics"] = [mark]
    elif api == "group_coordinator":
        body["group"] = mark
    else:
        part = {"produce": {"partition_id": 3, "message_set": [(None, mark)]},
                "fetch": {"partition_id": 3, "offset": 0, "max_bytes": 10},
                "offset": {"partition_id": 3, "time": -1, "max_offsets": 1},
                "offset_commit": {"partition_id": 3, "offset": 9, "metadata": mark},
                "offset_fetch": 3}[api]
        body["topics"] = [{"name": mark, "partitions": [part]}]
    cls, sub = C()["req"][api]
    return proto.to_kiel(C(), schema, body, dict(sub, **{"": cls}))


def echo(api, resp):
    if api == "group_coordinator":
        return resp.coordinator_host
    return resp.topics[0].name


def fill(body, size):
    """The fetch response with one message of ``size`` bytes."""
    body["topics"][0]["partitions"][0].update(error_code=0, message_set=wire.entry(0, wire.message(None, b"v" * size)))
    return body


def one(rng, ctx):
    wrap = rng.random() < .1

    async def work(cl):
        from kiel.connection import Connection
        from kiel.protocol import request as request_mod
        if wrap and isinstance(getattr(request_mod, "last_id", None), int):
            request_mod.last_id = 2 ** 31 - 1 - rng.randrange(1, 12)
            ctx.count("near_wrap")
        cl.in_order = False
        cl.frames = []
        b = next(iter(cl.brokers.values()))
        style = rng.choice(("instant", "delay", "delay", "segments", "mixed", "burst") * 5 + ("slow",))
        marks = {}
        big = rng.random() < .06

        def plan(c):
            a = Action()
            if c.api == "group_coordinator":
                a.edit = lambda body: dict(body, coordinator_host=c.body["group"])
            elif c.api == "fetch" and big and rng.random() < .5:
                size = rng.choice((2 ** 16 - 1, 2 ** 16, 2 ** 20 - 30, 2 ** 20 + 1, 3 * 2 ** 20, 9 * 2 ** 20))
                a.edit = lambda body: fill(body, size)
                ctx.count("big_responses")
            if style in ("delay", "mixed") or (style == "segments" and rng.random() < .3):
                a.delay = rng.choice((0, 0, .001, .002, .005, .01, .05)) * rng.random()
            if style == "slow":
                a.delay = rng.choice((0, 1, 12, 40, 100, 700, 4000)) * rng.random()
                ctx.count("slow_answers")
            if style == "burst":
                a.delay = 0.02  # all answers in one go, coalesced
            if style in ("segments", "mixed") and rng.random() < .7:
                a.chunks = [rng.choice((1, 1, 2, 3, 4, 5, 8, 9, 50)) for _ in range(rng.randrange(1, 30))]
                ctx.count("segmented")
            return a
        cl.plan = plan
        conns = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            conn = Connection("127.0.0.1", rng.choice((b.port, str(b.port))))
            await conn.connect()
            conns.append(conn)
        n = rng.choice((1, 2, 3, 5, 8, 12, 40))
        sent, order = [], []

        async def sender(k):
            for i in range(k):
                api = rng.choice(APIS)
                mark = "m%d-%s" % (len(sent), gen.text(rng)[:20].replace("\x00", ""))
                req = build(rng, api, mark)
                conn = rng.choice(conns)
                expect = req.serialize()
                sent.append((api, mark, req.correlation_id, expect))
                f = conn.send(req)
                marks[req.correlation_id] = mark
                if rng.random() < .3:
                    await asyncio.sleep(rng.random() * .004)
                order.append((api, mark, req.correlation_id, f))
        tasks = [asyncio.ensure_future(sender(n)) for _ in range(rng.choice((1, 1, 2, 4)))]
        for t in tasks:
            await t
        done = []
        for api, mark, corr, f in order:
            f.add_done_callback(lambda _, c=corr: done.append(c))
        for api, mark, corr, f in order:
            kind, resp = await outcome(f)
            ctx.count("responses")
            if kind != "ok":
                ctx.violation("%s request %d failed on a healthy connection: %r" % (api, corr, resp))
            ctx.check(resp.correlation_id == corr, "future of request %d got response %r", corr, resp.correlation_id)
            ctx.check(resp.api == api, "future of a %s request got a %s response", api, resp.api)
            ctx.check(echo(api, resp) == mark, "future of %s request %r got the answer to %r", api, mark, echo(api, resp))
        ids = [s[2] for s in sent]
        ctx.check(len(set(ids)) == len(ids), "correlation ids repeat: %s", sorted(ids))
        ctx.check(all(-2 ** 31 <= i < 2 ** 31 for i in ids), "correlation id outside 32 bits: %s", ids)
        got = sorted(f for _, f in cl.frames)
        ctx.check(got == sorted(s[3] for s in sent),
                  "frames at the broker are not exactly the serialized requests (%d frames, %d requests)", len(got), len(sent))
        await asyncio.sleep(.05)
        for conn in conns:
            ctx.check(not conn.closing, "healthy connection reports closing")
            conn.close()
        resp_order = [e[4] for e in cl.events if e[0] == "resp"]
        if resp_order != [e[4] for e in cl.events if e[0] == "req"]:
            ctx.count("reordered", len(resp_order))
        if len(sent) > 1:
            ctx.sig(style, tuple(s[0] for s in sent), tuple(ids.index(i) for i in resp_order if i in ids))
        ctx.sample({"style": style, "requests": len(sent), "connections": len(conns)})
    cl = simulate(ctx, work)
    if wrap:
        from kiel.protocol import request as request_mod
        if isinstance(getattr(request_mod, "last_id", None), int):
            request_mod.last_id = 12345


def drawn(rng, ctx):
    """Ids do not come back within millions of requests."""
    from kiel.protocol import request
    draw = getattr(request, "generate_correlation_id", None)
    if draw is None:
        ctx.count("not_drawable")
        return
    first = {draw() for _ in range(1000)}
    ctx.check(len(first) == 1000, "1000 ids drawn in a row are %d different ones", len(first))
    n = 2 ** 24 + 2 ** 12 if not ctx.thorough else 2 ** 25
    i = next((i for i in range(n) if draw() in first), None)
    ctx.check(i is None, "an id drawn before came back after %s more", i)
    ctx.count("ids_drawn", n)


SCENARIOS = [(199, one), (1, drawn)]
