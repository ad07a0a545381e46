from kv import gen, wire
from kv.checks import proto

ID = "C02"
LEVEL = "exploration"
QUICK, THOROUGH = 12000, 400000
RULE = ("random responses of all 13 response classes encoded by an independent encoder, optionally embedded at an offset in a "
        "larger buffer, parsed by kiel and compared field by field (types included) with the encoded values; distinct "
        "non-trivial = distinct encodings")
ASSUMPTIONS = ["the layouts of the group membership APIs are those documented in the response classes"]
NEED = {"parsed": 500, "embedded": 100}
_C = None


def C():
    global _C
    if _C is None:
        _C = proto.classes()
    return _C


def materialize(rng, t, v):
    """message lists -> [(offset, key, value)] with random offsets."""
    if isinstance(t, list):
        return {n: materialize(rng, ft, v[n]) for n, ft in t}
    if isinstance(t, tuple):
        return [materialize(rng, t[1], x) for x in v]
    if t == wire.MSGSET:
        o = rng.choice((0, 5, 2 ** 31 + 3, 2 ** 40))
        out = []
        for k, val in v:
            out.append((o, k, val))
            o += rng.choice((1, 1, 1, 4))
        return out
    return v


def encode(t, v):
    if isinstance(t, list):
        return {n: encode(ft, v[n]) for n, ft in t}
    if isinstance(t, tuple):
        return [encode(t[1], x) for x in v]
    if t == wire.MSGSET:
        return wire.plain_set(v)
    return v


def one(rng, ctx):
    name = rng.choice(sorted(wire.RESPONSES))
    schema = wire.RESPONSES[name]
    body = materialize(rng, schema, gen.tree(rng, schema))
    raw = wire.enc(schema, encode(schema, body))
    cls = C()["resp"][name]
    ctx.trace = lambda: {"api": name, "body": repr(body)[:4000]}
    ctx.count("parsed")
    ctx.count("api_" + name)
    if rng.random() < .5:
        got = cls.deserialize(raw)
    else:
        ctx.count("embedded")
        pre, post = rng.randbytes(rng.randrange(0, 30)), rng.randbytes(rng.randrange(0, 30))
        got, end = cls.parse(pre + raw + post, len(pre))
        ctx.check(end == len(pre) + len(raw), "%s: parse stopped at %d, not %d", name, end, len(pre) + len(raw))
    d = proto.compare(schema, body, got, name)
    ctx.check(d is None, "%s response decodes wrongly: %s", name, d)
    ctx.check(getattr(got, "api", name) == name, "%s response says its api is %r", name, getattr(got, "api", None))
    ctx.sig(raw)
    ctx.sample({"api": name, "bytes": raw.hex()[:160]})


def shared(rng, ctx):
    """The same bytes parse alike again, with other objects around (no state carried over)."""
    for _ in range(3):
        one(rng, ctx)


SCENARIOS = [(9, one), (1, shared)]
