import struct

from kv import gen, wire
from kv.checks import proto
from kv.checks.proto import same, short

ID = "C04"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 1600, 40000
RULE = ("fetch responses with 1-4 partitions over 1-3 topics; in each case one partition's set (plain, gzip, snappy or mixed, "
        "payloads that themselves look like messages) is cut at EVERY byte position (small sets) or at all entry/field "
        "boundaries plus random ones (large sets), others cut randomly; the parsed response must hold exactly the whole entries "
        "before each cut and everything after unchanged; distinct non-trivial = distinct (response, cut) pairs with a cut "
        "inside an entry")
ASSUMPTIONS = ["a cut set's announced size is the cut size, as brokers send it"]
NEED = {"cuts": 5000, "cuts_inside_entry": 3000, "followed_by_partition": 1000}
_C = None


def C():
    global _C
    if _C is None:
        _C = proto.classes()
    return _C


def evil(rng):
    """Payloads that parse as messages when read misaligned."""
    r = rng.random()
    if r < .3:
        return wire.entry(rng.choice((0, 1, 77)), wire.message(None, b"GHOST"))
    if r < .45:
        return struct.pack(">qi", 5, 16) * 3
    if r < .55:
        return b"\x00" * rng.choice((8, 12, 26, 60))
    if r < .65:
        return b"\xff" * rng.choice((4, 12, 40))
    return gen.payload(rng, 60)


def build(rng):
    """-> [(bytes, [decoded messages])] entries of one partition's set."""
    off, out = rng.choice((0, 10, 2 ** 35)), []
    for _ in range(rng.choice((0, 1, 1, 2, 3, 4))):
        codec = rng.choice((0, 0, 0, 1, 2))
        n = 1 if codec == 0 else rng.randrange(1, 4)
        if rng.random() < .002:              # many, in one entry or one by one
            many = [(off + i, None, b"m%d" % i) for i in range(rng.choice((130, 400, 1100)))]
            off += len(many)
            for items in [many] if codec else [[m] for m in many]:
                out.append((wire.wrapped(codec, items) if codec else wire.plain_set(items), [(o, None, gen.decoded(v)) for o, _, v in items]))
            continue
        items = []
        for _ in range(n):
            items.append((off, evil(rng) if rng.random() < .5 else None, evil(rng)))
            off += 1
        raw = wire.plain_set(items) if codec == 0 else wire.wrapped(codec, items)
        out.append((raw, [(o, gen.decoded(wire_b(k)), gen.decoded(wire_b(v))) for o, k, v in items]))
    return out


def wire_b(v):
    return None if v is None else wire.tob(v)


def expected(entries, cut):
    out, pos = [], 0
    for raw, msgs in entries:
        if pos + len(raw) > cut:
            break
        pos += len(raw)
        out += msgs
    return out, pos


def one(rng, ctx):
    layout = []
    for t in range(rng.choice((1, 1, 1, 2, 3))):
        layout.append(("t%d" % t, [(p, build(rng)) for p in range(rng.choice((1, 2, 2, 3, 4)))]))
    flat = [(ti, pi) for ti, (_, ps) in enumerate(layout) for pi in range(len(ps))]
    target = rng.choice(flat)
    full = {(ti, pi): sum(len(r) for r, _ in layout[ti][1][pi][1]) for ti, pi in flat}
    size = full[target]
    if size <= 700:
        cuts = list(range(size + 1))
    else:
        cuts, pos = {0, size}, 0
        for raw, _ in layout[target[0]][1][target[1]][1]:
            for d in (0, 1, 7, 8, 11, 12, 15, 16, 17, 18, 21, 22, 25, 26, 27, len(raw) - 1, len(raw) - 4):
                cuts.add(pos + d)
            pos += len(raw)
        if len(cuts) > 300:
            cuts = set(rng.sample(sorted(cuts), 60)) | {0, size}
        cuts |= {rng.randrange(size + 1) for _ in range(60)}
        cuts = sorted(c for c in cuts if c <= size)
    codes = {k: rng.choice((0, 0, -1, 3, -256)) for k in flat}
    marks = {k: rng.choice((1234, -1, 2 ** 62 + 5, -2 ** 63, 0)) for k in flat}
    others = {k: rng.choice((full[k], full[k], rng.randrange(full[k] + 1))) for k in flat}
    for cut in cuts:
        at = dict(others)
        at[target] = cut
        body = {"topics": []}
        want = []
        for ti, (name, parts) in enumerate(layout):
            ps = []
            for pi, (pid, entries) in enumerate(parts):
                data = b"".join(r for r, _ in entries)[:at[(ti, pi)]]
                ps.append({"partition_id": pid, "error_code": codes[(ti, pi)],
                           "highwater_mark_offset": marks[(ti, pi)], "message_set": data})
                want.append((name, pid, codes[(ti, pi)], marks[(ti, pi)], expected(entries, at[(ti, pi)])[0]))
            body["topics"].append({"name": name, "partitions": ps})
        raw = wire.enc(wire.RESPONSES["fetch"], body)
        ctx.trace = lambda: {"cut": at.get(target), "target": target, "bytes": raw.hex()[:6000]}
        ctx.count("cuts")
        resp = C()["resp"]["fetch"].deserialize(raw)
        got = [(t.name, p.partition_id, p.error_code, p.highwater_mark_offset,
                [(o, m.key, m.value) for o, m in p.message_set.messages]) for t in resp.topics for p in t.partitions]
        exp = want
        ctx.check(same(got, exp), "set cut at byte %d of %d: parsed %s, not %s", cut, size, short(got), short(exp))
        if expected(layout[target[0]][1][target[1]][1], cut)[1] != cut:
            ctx.count("cuts_inside_entry")
            if target != flat[-1]:
                ctx.count("followed_by_partition")
            ctx.sig(raw)
    ctx.sample({"cuts": len(cuts), "partitions": len(flat), "set_bytes": size})


SCENARIOS = [(1, one)]
