import struct
import zlib

from kv import gen, wire
from kv.checks import proto
from kv.checks.proto import same, short

ID = "C03"
LEVEL = "exploration"
QUICK, THOROUGH = 6000, 200000
RULE = ("random message lists (null/empty/text/binary keys and values, boundary sizes, values crafted so that the CRC32 hits "
        "chosen edge values) rendered by kiel under every compression setting, strictly read by an independent decoder (sizes, "
        "CRCs, codec, framing) and parsed back by kiel; and broker-stored sets mixing plain, gzip and snappy entries parsed by "
        "kiel; distinct non-trivial = distinct encodings with at least one message")
ASSUMPTIONS = ["zlib, gzip of the standard library and kv/wire.py's snappy decoder are correct"]
NEED = {"rendered": 300, "stored_sets": 100, "crc_edges": 20}
_C = None


def C():
    global _C
    if _C is None:
        _C = proto.classes()
    return _C


def tobytes(v):
    return None if v is None else v if isinstance(v, bytes) else v.encode("utf-8")


def messages(rng):
    n = rng.choice((0, 1, 1, 2, 2, 3, 5, 8, 30))
    out = [(gen.payload(rng, 40000), gen.payload(rng)) for _ in range(n)]
    if rng.random() < .004:
        out = [(None if i % 3 else b"k%d" % i, b"v%d" % i) for i in range(rng.choice((300, 1100, 5000)))]
    if rng.random() < .15 and out:
        # enough compressible / incompressible data for several snappy blocks
        out.append((None, rng.choice((b"ab", rng.randbytes(7))) * rng.choice((5000, 16384, 16385, 40000))))
    return out


def render(codec, msgs):
    objs = [C()["message"](magic=0, attributes=0, key=k, value=v) for k, v in msgs]
    fmt, data = C()["set"].compressed(codec, objs).render()
    return struct.pack("!" + fmt, *data)


def roundtrip(rng, ctx, msgs=None):
    msgs = messages(rng) if msgs is None else msgs
    for codec in (None, 1, 2):
        ctx.trace = lambda: {"codec": codec, "messages": short(msgs)}
        raw = render(codec, msgs)
        ctx.count("rendered")
        ctx.count("messages", len(msgs))
        size = struct.unpack(">i", raw[:4])[0]
        ctx.check(size == len(raw) - 4, "set announces %d bytes but has %d", size, len(raw) - 4)
        try:
            items = wire.read_set(raw[4:])
        except wire.WireError as e:
            ctx.violation("independent reader rejects the set (codec %r): %s" % (codec, e))
        got = [(k, v) for _, _, k, v in items]
        want = [(tobytes(k), tobytes(v)) for k, v in msgs]
        ctx.check(got == want, "codec %r: independent reader sees %s, not %s", codec, short(got), short(want))
        ctx.check(all(c == (codec or 0) for _, c, _, _ in items), "codec %r not flagged", codec)
        if codec and msgs:
            r = wire.R(raw[4:])
            r.num("i64")
            r.take(r.num("i32"))
            ctx.check(r.o == len(raw) - 4, "compressed set is not a single wrapper entry")
        # kiel reads back what kiel wrote, wherever it sits in the buffer
        pre = rng.randbytes(rng.choice((0, 3, 17)))
        post = rng.randbytes(rng.choice((0, 9)))
        back, end = C()["set"].parse(pre + raw + post, len(pre))
        ctx.check(end == len(pre) + len(raw), "codec %r: parse stopped at %d, not %d", codec, end, len(pre) + len(raw))
        kv = [(m.key, m.value) for _, m in back.messages]
        exp = [(gen.decoded(tobytes(k)), gen.decoded(tobytes(v))) for k, v in msgs]
        ctx.check(same(kv, exp), "codec %r: parsed back %s, not %s", codec, short(kv), short(exp))
        if msgs:
            ctx.sig(codec, raw[:4000])
    ctx.sample({"messages": short(msgs)})


def crc_edges(rng, ctx):
    key = rng.choice((None, b"", b"k", b"caf\xc3\xa9"))
    target = rng.choice((0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, rng.getrandbits(32)))
    value = gen.value_with_crc(key, gen.binary(rng, 200), target)
    ctx.count("crc_edges")
    ctx.trace = lambda: {"target": hex(target), "value": value.hex()}
    raw = render(None, [(key, value)])
    crc = struct.unpack(">I", raw[16:20])[0]
    ctx.check(crc == target, "message whose CRC32 is %#x is sent with crc %#x", target, crc)
    roundtrip(rng, ctx, [(None, b"first"), (key, value), (b"k", b"last")])


def stored(rng, ctx):
    """What a broker may have in its log: any mix of entries, absolute offsets."""
    off = rng.choice((0, 3, 2 ** 33))
    raw, want = b"", []
    shape = []
    for _ in range(rng.randrange(1, 6)):
        codec = rng.choice((0, 0, 1, 2))
        items = []
        for _ in range(rng.randrange(1, 5)) if rng.random() < .997 else range(rng.choice((300, 1100, 3000))):
            items.append((off, tobytes(gen.payload(rng, 9)), b"v%d" % off) if len(items) > 5 else (off, tobytes(gen.payload(rng, 500)), tobytes(gen.payload(rng, 3000))))
            off += rng.choice((1, 1, 1, 2, 7))
        shape.append((codec, len(items)))
        if codec == 0:
            raw += wire.plain_set(items)
        elif codec == 1:
            raw += wire.wrapped(1, items)
        else:
            plain = wire.plain_set(items)
            splits = []
            left = len(plain)
            while left > 0:
                s = rng.choice((1, 2, 5, 11, 12, 13, 64, 4096, 32768))
                splits.append(s)
                left -= s
            raw += wire.wrapped(2, items, splits=splits[:200],
                                encoder=rng.choice((wire.snappy_block_literal, wire.snappy_block_rle)))
        want += items
    ctx.trace = lambda: {"shape": shape, "bytes": raw.hex()[:4000]}
    ctx.count("stored_sets")
    sized = struct.pack(">i", len(raw)) + raw
    pre = rng.randbytes(rng.choice((0, 5)))
    got, end = C()["set"].parse(pre + sized + b"tail", len(pre))
    ctx.check(end == len(pre) + len(sized), "parse stopped at %d, not %d", end, len(pre) + len(sized))
    msgs = [(o, m.key, m.value) for o, m in got.messages]
    exp = [(o, gen.decoded(k), gen.decoded(v)) for o, k, v in want]
    ctx.check(same(msgs, exp), "stored set %s parses to %s, not %s", shape, short(msgs), short(exp))
    ctx.sig("stored", raw)


SCENARIOS = [(5, roundtrip), (2, crc_edges), (3, stored)]
