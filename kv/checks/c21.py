import collections
import json
import os
import random
import subprocess
import sys

from kv import env
from .zkc import NAMES, PATIENCE, TOPICS, flat, settled, until, zk_case

ID = "C21"
LEVEL = "exploration"
QUICK, THOROUGH = 1600, 60000
RULE = ("the default allocation is computed for random member and partition sets (none to 60 members, none to 400 partitions), in this process, "
        "repeatedly, after edits of earlier results, and in a second interpreter with another hash seed; real allocators joined to a zookeeper "
        "stand-in see memberships and partition sets written in random orders and record the arguments of their allocation function; the oracle "
        "checks coverage, exclusiveness, balance, equality of repeated results and the recorded arguments; distinct non-trivial = distinct "
        "(members, partitions) or histories")
NEED = {"allocations": 3000, "other_process": 500, "calls_seen": 200, "own_shares": 200, "unmentioned": 50, "fewer_partitions_than_members": 100}
ASSUMPTIONS = ("topic names are legal Kafka names",)


def random_sets(rng):
    alphabet = "abcXYZ019._-"
    members, parts = set(), set()
    for _ in range(rng.choice((0, 1, 2, 3, 5, 8, 20, 60))):
        members.add(rng.choice(NAMES) if rng.random() < .4 else
                    "%s:%d" % ("".join(rng.choice(alphabet) for _ in range(rng.randrange(1, 12))), rng.choice((1, 139701234567, 42))))
    for _ in range(rng.choice((0, 1, 2, 5, 20, 100))):
        t = rng.choice(TOPICS) if rng.random() < .5 else "".join(rng.choice(alphabet) for _ in range(rng.randrange(1, 20)))
        for _ in range(rng.choice((1, 1, 2, 4))):
            parts.add((t, rng.choice((0, 1, 2, 9, 10, 11, 100, 2 ** 31 - 1, rng.randrange(64)))))
    return sorted(members), sorted("%s:%d" % p for p in parts)


def normal(mapping, members):
    return {m: flat(mapping.get(m)) for m in members}


def judge(ctx, mapping, members, parts, label):
    held = collections.Counter()
    for m, alloc in mapping.items():
        if flat(alloc):
            ctx.check(m in members, "%s: %r holds %r but is not a member", label, m, flat(alloc)[:5])
        held.update(flat(alloc))
    want = {(p.rpartition(":")[0], int(p.rpartition(":")[2])) for p in parts} if members else set()
    ctx.check(all(n == 1 for n in held.values()), "%s: partitions held more than once: %r", label, [p for p, n in held.items() if n > 1][:5])
    ctx.check(set(held) == want, "%s: held %d of %d partitions, missing %r, extra %r", label, len(held), len(want),
              sorted(want - set(held))[:5], sorted(set(held) - want)[:5])
    sizes = [len(flat(mapping.get(m))) for m in members]
    ctx.check(not sizes or max(sizes) - min(sizes) <= 1, "%s: members hold %r partitions", label, sizes)
    ctx.count("allocations")


def pure(rng, ctx):
    from kiel.clients.grouped import naive_allocator as fn
    seen = []
    for _ in range(12):
        members, parts = random_sets(rng)
        if len(parts) < len(members):
            ctx.count("fewer_partitions_than_members")
        m1, p1 = list(members), list(parts)
        mapping = fn(m1, p1)
        ctx.check(m1 == members and p1 == parts, "the arguments were changed")
        judge(ctx, mapping, members, parts, "%d members, %d partitions" % (len(members), len(parts)))
        first = normal(mapping, members)
        seen.append((members, parts, first))
        if rng.random() < .3:                        # results are the caller's to edit
            for m in list(mapping):
                for t in list(mapping[m]):
                    del mapping[m][t][:]
        again = fn(list(members), list(parts))
        ctx.check(normal(again, members) == first, "the same sets gave %r, then %r", first, normal(again, members))
        ctx.sig(members, parts)
    for members, parts, first in rng.sample(seen, len(seen)):
        ctx.check(normal(fn(list(members), list(parts)), members) == first, "an allocation changed with the history")
    ctx.sample({"members": seen[0][0][:5], "partitions": seen[0][1][:8]})


HELPER = """
import json, sys
sys.path.insert(0, %r)
from kiel.clients.grouped import naive_allocator as fn
out = []
for members, parts in json.load(sys.stdin):
    m = fn(members, parts)
    out.append({k: sorted((t, p) for t, ps in m.get(k, {}).items() for p in ps) for k in members})
json.dump(out, sys.stdout)
"""


def other_process(rng, ctx):
    from kiel.clients.grouped import naive_allocator as fn
    sets = [random_sets(rng) for _ in range(60)]
    r = subprocess.run([sys.executable, "-c", HELPER % env.REPO], input=json.dumps(sets).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 1000))), timeout=60)
    ctx.check(r.returncode == 0, "allocating in another process failed: %s", r.stderr.decode()[-500:])
    for (members, parts), theirs in zip(sets, json.loads(r.stdout)):
        ours = {m: [list(p) for p in a] for m, a in normal(fn(members, parts), members).items()}
        ctx.check(ours == theirs, "another process allocates %r, this one %r", theirs, ours)
        ctx.count("other_process")
    ctx.sig(sets[0], sets[1])


@zk_case(jitter=0.35)
def history(rng, ctx, zk):
    """Real allocators, sets built up in different orders."""
    from kiel.zookeeper.allocator import PartitionAllocator
    from kiel.clients import GroupedConsumer
    from kiel.clients.grouped import naive_allocator
    group = rng.choice(("g", "workers", "a-b.c"))
    base = "/kiel/groups/%s" % group
    mode = rng.choice(("default", "custom", "custom", "consumer"))
    calls = []

    def custom(members, parts):
        calls.append((members, parts, list(members), list(parts)))
        out = {}
        for i, p in enumerate(parts):
            if i % 3 == 2 or not members:
                continue                             # held by nobody
            t, _, n = p.rpartition(":")
            out.setdefault(members[(i * i) % len(members)], {}).setdefault(t, []).append(int(n))
        return out

    def default(members, parts):
        calls.append((members, parts, list(members), list(parts)))
        return naive_allocator(members, parts)
    fn = custom if mode == "custom" else default
    if mode == "consumer":
        own = rng.random() < .5
        c = GroupedConsumer(["127.0.0.1:1"], group, zk.hosts, **({"partition_allocator": custom} if own else {}))
        a = c.allocator
        fn = custom if own else naive_allocator
        observed = own
        share = lambda: c.allocation
    else:
        a = PartitionAllocator(zk.hosts, group, rng.choice(NAMES), allocator_fn=fn)
        observed = True
        share = lambda: a.allocation
    me = a.consumer_name
    zk.cleanup.append(a.conn)
    pool = {t: list(range(rng.choice((1, 2, 5, 12)))) for t in rng.sample(TOPICS, rng.choice((1, 2, 3)))}
    err = settled(a.start(pool if rng.random() < .7 else {}))
    ctx.check(err is None, "start failed with %r", err)
    hist = [mode]
    others = [n for n in NAMES if n != me] + ["m%d" % i for i in range(20)]
    for step in range(rng.choice((2, 4, 8))):
        for _ in range(rng.choice((1, 1, 2, 5))):
            r = rng.random()
            if r < .35:
                n = rng.choice(others)
                zk.put(base + "/members/" + n, b"")
                hist.append("+" + n)
            elif r < .6:
                n = rng.choice(others)
                zk.remove(base + "/members/" + n)
                hist.append("-" + n)
            else:
                items = ["%s:%d" % (t, p) for t, ps in pool.items() for p in ps if rng.random() < .6]
                items += ["%s:%d" % (rng.choice(TOPICS), rng.randrange(40)) for _ in range(rng.choice((0, 0, 3, 30)))]
                items = list(set(items))
                rng.shuffle(items)
                zk.put(base + "/partitions", json.dumps(items).encode())
                hist.append(len(items))
        members = zk.children(base + "/members")
        parts = sorted(json.loads(zk.data(base + "/partitions") or b"[]"))
        pure_fn = {id(naive_allocator): naive_allocator}.get(id(fn)) or (naive_allocator if mode == "default" else None)
        n0 = len(calls)
        if fn is custom:
            want = flat(custom(list(members), list(parts)).get(me))
            calls.pop()
        else:
            want = flat((pure_fn or naive_allocator)(list(members), list(parts)).get(me))
        ok = until(lambda: flat(share()) == want and (not observed or (calls and calls[-1][2:] == (members, parts))), PATIENCE)
        ctx.check(ok, "with members %r and partitions %r the allocation function was last given %r and %s holds %r, not %r", members, parts,
                  calls[-1][2:] if calls else None, me, flat(share()), want)
        ctx.count("own_shares")
        if not want:
            ctx.count("unmentioned")
    for _, _, m, p in calls:
        ctx.check(m == sorted(set(m)) and p == sorted(set(p)), "the allocation function was given members %r and partitions %r", m, p)
        ctx.count("calls_seen")
    ctx.sig(hist)
    ctx.sample({"history": hist[:20]})


SCENARIOS = [(20, pure), (1, other_process), (19, history)]
