import asyncio
import struct

from kv import gen, wire
from kv.checks import proto
from kv.checks.c06 import APIS, build, echo
from kv.world import Action, outcome, settle, simulate

ID = "C07"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 1500, 40000
RULE = ("a real connection with 1-12 outstanding requests is hit by one fault: FIN, RST, a response cut at an enumerated byte "
        "followed by FIN or RST, undecodable body, compressed messages that do not decompress, unsolicited or duplicate correlation id, tiny or negative frame size, local close() or "
        "abort() at a random moment (also before any read); or it dies while a request is sent in every turn of the event loop; monitors: every future settles (the virtual loop going idle is the "
        "verdict for a hang), answers fully sent earlier still arrive, settled futures never change, the connection reports "
        "closing, later sends fail at once and no byte reaches the broker; distinct non-trivial = distinct (fault, cut, "
        "outstanding, answered) combinations")
NEED = {"faults": 300, "outstanding_failed": 600, "cut_positions": 150, "busy_connections": 80, "busy_answered": 300}


def faulted(rng, ctx, kind, cut=None):
    async def work(cl):
        from kiel.connection import Connection
        from kiel.exc import BrokerConnectionError
        cl.frames = []
        cl.in_order = False
        b = next(iter(cl.brokers.values()))
        n = rng.choice((1, 2, 3, 5, 12))
        answered = rng.randrange(0, n) if rng.random() < .5 else 0
        victim = rng.randrange(answered, n)
        conn = Connection("127.0.0.1", b.port)
        await conn.connect()
        info = {"kind": kind, "cut": cut}

        def plan(c):
            i = c.n - 1
            a = Action()
            if c.api == "group_coordinator":
                a.edit = lambda body: dict(body, coordinator_host=c.body["group"])
            if i < answered:
                return a
            if i != victim or kind in ("local_close", "local_abort", "local_close_now"):
                a.mode = "hold"
                return a
            a.delay = 0.02
            if kind == "fin":
                a.mode = "drop_after"
            elif kind == "rst":
                a.mode = "reset_after"
            elif kind == "fin_at_once":
                a.mode = "drop_before"
            elif kind == "partial":
                a.mode, a.cut = "partial", cut
            elif kind == "undecodable":
                body = rng.choice((b"", b"\x00", b"\x7f\xff\xff\xff", b"\x00\x00\x00\x05\x00", b"\x00\x00\x00\x01\xff\xf0\x00\x00"))
                info["body"] = body.hex()
                a.raw = struct.pack(">ii", len(body) + 4, c.corr) + body
            elif kind == "bad_compressed":
                junk = rng.choice((b"\xff\xfe\x00\x80", b"\x1f\x8b\x08\x00", b"\x1f\x8b\xff" + bytes(20), b"{}",
                                   bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60)))))
                codec = 1
                if rng.random() < .3:
                    codec, junk = 2, b"\x82SNAPPY\x00\x00\x00\x00\x01\x00\x00\x00\x01\x00\x00\x00" + rng.choice((
                        b"\x05\x01", b"\x7f\xff\xff\xff", b"\x00\x00\x00\x04\xff\xff\xff\xff"))
                info["body"] = (codec, junk.hex())

                def spoil(body):
                    body["topics"][0]["partitions"][0].update(
                        error_code=0, message_set=wire.entry(5, wire.message(None, junk, codec=codec)))
                    return body
                a.edit = spoil
            elif kind == "unsolicited":
                a.raw = lambda cx, r: frame(cx.corr + rng.choice((1000000, -1000000, 77777)), cx.api, r)
            elif kind == "duplicate":
                a.raw = lambda cx, r: frame(cx.corr, cx.api, r) * 2
            elif kind == "bad_size":
                a.raw = struct.pack(">i", rng.choice((0, 1, 3, -1, -2 ** 31))) + struct.pack(">i", c.corr) * 3
            return a
        cl.plan = plan
        reqs, futs, settled = [], [], []
        for i in range(n):
            api = rng.choice(APIS) if kind != "bad_compressed" or i != victim else "fetch"
            req = build(rng, api, "m%d" % i)
            f = conn.send(req)
            futs.append(f)
            reqs.append((api, "m%d" % i))
            f.add_done_callback(lambda f, i=i: settled.append((i, repr(f.exception()), None if f.exception() else f.result())))
            if kind != "local_close_now":
                await asyncio.sleep(0)
        if kind == "local_close_now":
            conn.close()
        elif kind in ("local_close", "local_abort"):
            await asyncio.sleep(rng.choice((.005, .02)))
            conn.close() if kind == "local_close" else conn.abort()
        ctx.count("faults")
        ctx.count("fault_" + kind)
        failed = 0
        for i, f in enumerate(futs):
            k, r = await outcome(f)
            if i < answered and kind != "local_close_now" and kind != "fin_at_once":
                if k != "ok":
                    ctx.violation("request %d was answered before the fault but failed with %r" % (i, r))
                ctx.check(echo(reqs[i][0], r) == reqs[i][1], "request %d got a foreign answer", i)
            elif i == victim and kind == "duplicate":
                if k == "ok":
                    ctx.check(echo(reqs[i][0], r) == reqs[i][1], "request %d got a foreign answer", i)
            elif k == "ok":
                ctx.check(i < answered and echo(reqs[i][0], r) == reqs[i][1],
                          "request %d was never answered but completed with %r", i, r)
            else:
                failed += 1
        ctx.count("outstanding_failed", failed)
        await settle(cl)
        ctx.check(len(settled) == n, "%d of %d futures reported completion", len(settled), n)
        for i, e, r in settled:
            f = futs[i]
            now = (repr(f.exception()), None if f.exception() else f.result())
            ctx.check(now == (e, r), "request %d changed its outcome", i)
        ctx.check(conn.closing, "connection does not report closing after %s", kind)
        before = len(cl.frames)
        raw = cl.raw_bytes
        late = conn.send(build(rng, "metadata", "late"))
        k, r = await outcome(late)
        ctx.check(k == "err" and isinstance(r, BrokerConnectionError), "send on a dead connection gave %s %r", k, r)
        ctx.check((r.host, int(r.port)) == ("127.0.0.1", b.port), "error names %r:%r", r.host, r.port)
        await settle(cl)
        ctx.check(len(cl.frames) == before and cl.raw_bytes == raw, "a dead connection still sent a request")
        ctx.check(not cl.open_conns(), "socket still open after %s", kind)
        ctx.sig(info, n, answered, victim)
        ctx.sample({"fault": info, "outstanding": n - answered, "answered": answered})
    simulate(ctx, work)


def frame(corr, api, resp):
    p = struct.pack(">i", corr) + wire.enc(wire.RESPONSES[api], resp)
    return struct.pack(">i", len(p)) + p


KINDS = ("fin", "rst", "fin_at_once", "undecodable", "bad_compressed", "unsolicited", "duplicate", "bad_size", "local_close", "local_abort",
         "local_close_now")


def one(rng, ctx):
    faulted(rng, ctx, rng.choice(KINDS))


def every_cut(rng, ctx):
    """A response cut at consecutive byte positions, each on a new connection."""
    base = rng.randrange(0, 60)
    for cut in range(base, base + 6):
        faulted(rng, ctx, "partial", cut)
        ctx.count("cut_positions")


def big_write(rng, ctx):
    """The connection dies while a large request is still being written."""
    async def work(cl):
        from kiel.connection import Connection
        b = next(iter(cl.brokers.values()))
        conn = Connection("127.0.0.1", b.port)
        await conn.connect()
        await settle(cl, 1)
        for c in list(b.conns):
            c.transport.pause_reading()
        futs = [conn.send(build(rng, "metadata", "x" * 20))]
        from kiel.protocol import metadata
        futs += [conn.send(metadata.MetadataRequest(topics=["y" * 30000] * 400)) for _ in range(2)]
        await asyncio.sleep(rng.choice((0, .001, .01)))
        for c in list(b.conns):
            rng.choice((c.reset, c.close, c.transport.abort))()
        b.stop()
        for f in futs:
            k, r = await outcome(f)
            ctx.check(k == "err", "request completed with %r although nothing was answered", r)
            ctx.count("outstanding_failed")
        ctx.check(conn.closing, "connection does not report closing")
        ctx.count("faults")
        ctx.sig("big", rng.random())
    simulate(ctx, work)


def busy(rng, ctx):
    """Something is sent in every turn of the event loop, and whenever a request fails, while the connection dies."""
    async def work(cl):
        from kiel.connection import Connection
        b = next(iter(cl.brokers.values()))
        conn = Connection("127.0.0.1", b.port)
        await conn.connect()
        futs, settled, again = [], [], [rng.choice((0, 0, 3))]
        die = rng.randrange(1, 25)
        how = rng.choice(("fin", "rst", "stream", "close", "abort", "cut"))

        def plan(c):
            a = Action(delay=rng.choice((0, 0, .001)))
            if c.api == "group_coordinator":
                a.edit = lambda body: dict(body, coordinator_host=c.body["group"])
            if how == "cut" and c.n == die:
                a.mode, a.cut = "partial", rng.randrange(60)
            return a
        cl.plan = plan

        def send():
            i, api, mark = len(futs), rng.choice(APIS), "b%d" % len(futs)
            was = conn.closing
            raw = cl.raw_bytes
            f = conn.send(build(rng, api, mark))
            futs.append((f, api, mark))
            if was:
                ctx.check(f.done() and f.exception() is not None, "a request sent on a connection that is closing is %r", f)
            f.add_done_callback(lambda f: done(i, f))

        def done(i, f):
            settled.append(i)
            if f.exception() is not None and again[0]:
                again[0] -= 1
                send()
        turns = 0
        over = 0
        while over < rng.choice((5, 20)) and turns < 400:
            turns += 1
            if rng.random() < .9:
                send()
            if turns == die:
                if how == "stream":
                    conn.stream.close()          # as tornado does when the socket fails
                elif how in ("close", "abort"):
                    getattr(conn, how)()
                elif how != "cut":
                    for c in list(b.conns):
                        (c.close if how == "fin" else c.reset)()
            over += conn.closing
            await asyncio.sleep(0 if rng.random() < .95 else .0005)
        i = 0
        while i < len(futs):
            f, api, mark = futs[i]
            i += 1
            k, r = await outcome(f)
            if k == "ok":
                ctx.check(echo(api, r) == mark, "request %s got a foreign answer", mark)
                ctx.count("busy_answered")
            else:
                ctx.count("outstanding_failed")
        await settle(cl)
        ctx.check(sorted(settled) == list(range(len(futs))), "%d futures reported completion %d times", len(futs), len(settled))
        ctx.check(conn.closing, "connection does not report closing after %s", how)
        ctx.check(not cl.open_conns(), "socket still open after %s", how)
        ctx.count("faults")
        ctx.count("busy_connections")
        ctx.sig("busy", how, die, len(futs))
    simulate(ctx, work)


SCENARIOS = [(6, one), (3, every_cut), (1, big_write), (2, busy)]
