import gzip as stdgzip
import struct
import zlib

from kv import gen, wire
from kv.checks.proto import short

ID = "C05"
LEVEL = "exploration"
QUICK, THOROUGH = 3000, 100000
RULE = ("random byte strings (empty, runs, random, text, sizes around 32 KiB block and small-tail boundaries) through kiel's "
        "gzip and snappy in both directions, against the standard library's gzip, an independent xerial/snappy block decoder and "
        "two independent snappy encoders with arbitrary block splits (blocks of 1 byte to 1 MiB); distinct non-trivial = distinct (codec, direction, size, "
        "content hash)")
ASSUMPTIONS = ["the standard library's gzip/zlib and kv/wire.py's snappy block code are correct"]
NEED = {"compressed": 300, "foreign": 300, "multi_block": 20, "large_blocks": 25}


def data(rng):
    r = rng.random()
    if r < .15:
        n = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 15, 16, 17))
    elif r < .6:
        n = rng.randrange(0, 3000)
    elif r < .9:
        n = 32768 * rng.choice((1, 1, 2, 3)) + rng.choice((-2, -1, 0, 1, 2, 3, 5, 8, 11, 12, 100))
    else:
        n = rng.randrange(32768, 200000)
    kind = rng.random()
    if kind < .3:
        return rng.randbytes(n)
    if kind < .5:
        return bytes([rng.getrandbits(8)]) * n
    unit = gen.text(rng).encode("utf-8") or b"abc"
    return (unit * (n // len(unit) + 1))[:n]


def forward(rng, ctx):
    from kiel.compression import gzip, snappy
    d = data(rng)
    ctx.trace = lambda: {"data": d.hex()[:4000], "len": len(d)}
    z = gzip.compress(d)
    ctx.count("compressed", 2)
    ctx.check(isinstance(z, bytes), "gzip.compress gave %r", type(z))
    try:
        dobj = zlib.decompressobj(31)
        back = dobj.decompress(z) + dobj.flush()
        whole = dobj.eof and not dobj.unused_data
    except zlib.error as e:
        ctx.violation("gzip output is not a gzip stream: %s" % e)
    ctx.check(whole, "gzip output is not exactly one complete gzip member")
    ctx.check(back == d, "gzip output of %d bytes decompresses to something else (%d bytes)", len(d), len(back))
    ctx.check(gzip.decompress(z) == d, "gzip round trip of %d bytes changed the data", len(d))
    s = snappy.compress(d)
    try:
        blocks = wire.unxerial_blocks(s)
    except (wire.WireError, IndexError) as e:
        ctx.violation("snappy output is not a xerial stream: %s" % e)
    ctx.check(b"".join(blocks) == d, "snappy output of %d bytes decodes to something else", len(d))
    ctx.check(all(len(b) <= 32768 for b in blocks), "snappy block larger than 32 KiB: %s", [len(b) for b in blocks])
    if len(blocks) > 1:
        ctx.count("multi_block")
    got = snappy.decompress(s)
    ctx.check(got == d, "snappy round trip of %d bytes gave %d bytes", len(d), len(got))
    ctx.sig("fwd", d)
    ctx.sample({"len": len(d), "gzip": len(z), "snappy": len(s), "blocks": len(blocks)})


def foreign(rng, ctx):
    from kiel.compression import gzip, snappy
    d = data(rng)
    splits, left = [], len(d)
    style = rng.random()
    while left > 0 and len(splits) < 300:
        s = 32768 if style < .3 else rng.choice((65536, 65537, 100000, 1 << 20)) if style < .5 else \
            rng.choice((1, 2, 3, 8, 11, 12, 13, 100, 1000, 32767, 32768, 32769))
        if s > 32768 and left > 32768:
            ctx.count("large_blocks")
        splits.append(s)
        left -= s
    x = wire.xerial(d, splits, rng.choice((wire.snappy_block_literal, wire.snappy_block_rle)))
    ctx.trace = lambda: {"data": d.hex()[:2000], "len": len(d), "splits": splits, "tail": x[-64:].hex()}
    ctx.count("foreign")
    if len(splits) > 1:
        ctx.count("multi_block")
    got = snappy.decompress(x)
    ctx.check(got == d, "foreign snappy stream of %d bytes in %d blocks decompressed to %d bytes", len(d), len(splits), len(got))
    level = rng.randrange(0, 10)
    z = stdgzip.compress(d, level)
    if rng.random() < .3:  # concatenated members are one legal stream
        z, d = z + stdgzip.compress(b"more", level), d + b"more"
    got = gzip.decompress(z)
    ctx.check(got == d, "foreign gzip stream of %d bytes decompressed to %d bytes", len(d), len(got))
    ctx.sig("foreign", d, tuple(splits))


SCENARIOS = [(1, forward), (1, foreign)]
