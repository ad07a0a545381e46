import struct

from kv import gen, wire
from kv.checks import proto

ID = "C01"
LEVEL = "exploration"
QUICK, THOROUGH = 12000, 400000
RULE = ("random request objects of all 15 request classes built from a seeded value tree (extreme integers, null/empty/"
        "non-ASCII/binary strings, empty and nested arrays), serialized by kiel and compared byte for byte with an independent "
        "schema-driven encoder, then decoded by an independent decoder; distinct non-trivial = distinct encodings")
ASSUMPTIONS = ["the layouts of the group membership APIs are those documented in the request classes (their tests pin them)",
               "the independent encoder kv/wire.py follows the Kafka v0 protocol guide"]
NEED = {"encodings": 500}
_C = None


def C():
    global _C
    if _C is None:
        _C = proto.classes()
    return _C


def one(rng, ctx):
    name = rng.choice(sorted(proto.REQ_SCHEMA))
    schema = proto.REQ_SCHEMA[name]
    body = gen.tree(rng, schema)
    stringable(rng, schema, body)
    cls, sub = C()["req"][name]
    req = proto.to_kiel(C(), schema, body, dict(sub, **{"": cls}), rng)
    ctx.trace = lambda: {"api": name, "body": repr(body)[:4000]}
    got = req.serialize()
    corr = req.correlation_id
    api = name.split(":")[0]
    want = (struct.pack(">hhi", wire.API_KEYS[api], 0, corr) + wire.enc(wire.STR, "kiel")
            + wire.enc(schema, clean(schema, proto.to_wire(schema, body))))
    ctx.count("encodings")
    ctx.count("api_" + name)
    ctx.count("bytes", len(got))
    ctx.check(isinstance(got, bytes), "serialize() gave %r", type(got))
    ctx.check(got == want, "%s request encodes differently: %s", name, diff(want, got))
    ctx.check(req.serialize() == got, "%s request does not serialize to the same bytes twice", name)
    if ":" not in name:
        a, v, c, client, dec = wire.dec_request(got)
        ctx.check((a, v, c, client) == (api, 0, corr, "kiel"), "header decodes to %r", (a, v, c, client))
    ctx.sig(got[8:])
    ctx.sample({"api": name, "bytes": got.hex()[:160]})


def stringable(rng, schema, body):
    """Some string fields get a non-string value, which is documented to be str()-ed."""
    for n, t in schema:
        if t == wire.STR and body[n] is not None and rng.random() < .04:
            body[n] = rng.choice((0, 7, -12, 3.5, True))


def clean(schema, body):
    return {n: (str(body[n]) if t == wire.STR and not isinstance(body[n], (str, bytes, type(None))) else body[n])
            for n, t in schema}


def diff(want, got):
    n = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
    return "first difference at byte %d: expected ...%s, got ...%s (lengths %d, %d)" % (
        n, want[max(0, n - 4):n + 12].hex(), got[max(0, n - 4):n + 12].hex(), len(want), len(got))


SCENARIOS = [(1, one)]
