import json
import random
import threading
import time

from kazoo.exceptions import BadVersionError

from .zkc import PATIENCE, TOPICS, background, flat, in_threads, settled, stored, until, zk_case

ID = "C23"
LEVEL = "exploration"
QUICK, THOROUGH = 900, 20000
RULE = ("2-6 real kazoo clients add to and remove from one shared set at the same time, with delays before every read, write and lock operation, "
        "lagging notifications, lost connections, expired sessions pauses of a client between its read and its write and threads dawdling at random lines; the recorded writes are "
        "replayed: each has to be the previous content united with, or reduced by, the items of the operation running in that client, and every "
        "completed operation has to have been in effect at an instant within its duration; distinct non-trivial = distinct write histories")
NEED = {"operations": 2000, "writes": 1000, "no_ops": 400, "overlapping": 1000, "notified": 1500, "faults": 80, "pauses_with_expiry": 30, "recreated": 20}
PATH = "/kiel/groups/g/partitions"
ODD = ["\u65e5\u672c:0", "\u00fc:1", "\U0001f600:2", "a b:3", 'q"\\:4', "x" * 300 + ":5"]


class Sharer(object):
    def __init__(self, zk, i):
        from kazoo.client import KazooClient
        from kiel.zookeeper import SharedSet
        self.zk, self.i = zk, i
        self.client = KazooClient(hosts=",".join(zk.hosts))
        zk.cleanup.append(self.client)
        self.client.start()
        self.sids = {self.client.client_id[0]}
        self.client.add_listener(self.changed)
        self.seen = []
        self.ops = []                        # [kind, items, log position before, after, error]
        self.set = SharedSet(self.client, PATH, self.notified)
        self.before_write = None
        write = self.client.set

        def paused(*args, **kw):
            f, self.before_write = self.before_write, None
            if f:
                f()
            return write(*args, **kw)
        self.client.set = paused

    def changed(self, state):
        if self.client.client_id:
            self.sids.add(self.client.client_id[0])

    def notified(self, items):
        self.seen.append(None if items is None else set(items))

    def run(self, kind, items):
        if self.client.client_id:
            self.sids.add(self.client.client_id[0])
        op = [kind, set(items), len(self.zk.log), None, None]
        self.ops.append(op)
        given = set(items)
        try:
            (self.set.add_items if kind == "add" else self.set.remove_items)(given)
        except Exception as e:
            op[4] = e
        op[3] = len(self.zk.log)


def judge(ctx, zk, sharers, initial, faulty):
    """Replays the recorded writes against the operations."""
    by_sid = {sid: s for s in sharers for sid in s.sids}
    state, states = set(initial), [(0, set(initial))]
    wrote = {}
    for pos, (n, sid, op, path, detail) in enumerate(list(zk.log)):
        if op != "set" or path != PATH:
            continue
        items = json.loads(detail.decode("utf-8"))
        ctx.check(isinstance(items, list) and len(items) == len(set(items)), "the set is stored as %r", detail)
        s = by_sid.get(sid)
        ctx.check(s is not None, "somebody else wrote %r", detail)
        running = [o for o in s.ops if o[2] <= pos and (o[3] is None or pos < o[3])]
        ctx.check(running, "client %d wrote %r without being asked to", s.i, items)
        # a timed out operation's write may arrive while the next one runs
        ok = [o for o in (running if not faulty else [o for o in s.ops if o[2] <= pos])
              if set(items) == (state | o[1] if o[0] == "add" else state - o[1])]
        ctx.check(ok, "client %d, asked to %s %r, replaced %r by %r", s.i, running[0][0], sorted(running[0][1])[:6], sorted(state)[:8], sorted(items)[:8])
        ctx.check(set(items) != state, "client %d wrote %r although nothing changed", s.i, sorted(items)[:6])
        wrote[id(ok[0])] = wrote.get(id(ok[0]), 0) + 1
        state = set(items)
        states.append((pos, state))
        ctx.count("writes")
    for s in sharers:
        for o in s.ops:
            ctx.count("operations")
            if o[4] is not None:
                ctx.check(faulty, "%s_items(%r) raised %r", o[0], sorted(o[1])[:6], o[4])
                ctx.check(not isinstance(o[4], BadVersionError), "%s_items(%r) gave up since others changed the set, too: %r", o[0], sorted(o[1])[:6], o[4])
                ctx.count("failed_operations")
                continue
            good = (lambda st: o[1] <= st) if o[0] == "add" else (lambda st: not o[1] & st)
            during = [st for i, (pos, st) in enumerate(states)
                      if pos < o[3] and (i + 1 == len(states) or states[i + 1][0] >= o[2])]
            ctx.check(any(good(st) for st in during), "%s_items(%r) returned without having been in effect at any time; the set went from %r to %r",
                      o[0], sorted(o[1])[:6], sorted(during[0])[:8], sorted(during[-1])[:8])
            ctx.check(faulty or wrote.get(id(o), 0) <= 1, "%s_items(%r) wrote %d times", o[0], sorted(o[1])[:6], wrote.get(id(o), 0))
            if not wrote.get(id(o)):
                ctx.count("no_ops")
    ops = sorted((o[2], o[3] or 0) for s in sharers for o in s.ops)
    ctx.count("overlapping", sum(1 for a, b in zip(ops, ops[1:]) if b[0] < a[1]))
    ctx.check(stored(zk, PATH) == state, "the set is %r, written was %r", stored(zk, PATH), state)
    for s in sharers:
        ok = until(lambda: s.seen and s.seen[-1] == state, PATIENCE)
        ctx.check(ok, "client %d was last notified of %r, the set is %r", s.i, s.seen[-1] if s.seen else "nothing", sorted(state))
        ctx.check(all(x is None or any(x == st for _, st in states) for x in s.seen), "client %d was notified of a content the set never had: %r", s.i, s.seen)
        ctx.count("notified", len(s.seen))
    ctx.sig([(e[2], repr(e[4])) for e in zk.log if e[3] == PATH and e[2] == "set"])
    return state


def pool(rng):
    items = ["%s:%d" % (t, p) for t in rng.sample(TOPICS, 2) for p in range(rng.choice((2, 4)))]
    if rng.random() < .5:
        items += rng.sample(ODD, 3)
    if rng.random() < .06:
        items += ["many:%d" % p for p in range(rng.choice((60, 150, 700)))]
    return items


@zk_case(jitter=0.3)
def sharing(rng, ctx, zk):
    items = pool(rng)
    n = rng.choice((2, 3, 4, 6))
    sharers = [Sharer(zk, i) for i in range(n)]
    prng = random.Random(rng.random())
    initial = set()
    if rng.random() < .4:                    # first use of a set others filled
        initial = set(rng.sample(items, 2))
        zk.put(PATH, json.dumps(sorted(initial)).encode())
    del zk.log[:]
    starts = [s.set.start for s in sharers]
    if rng.random() < .5:
        for e in in_threads(starts):
            ctx.check(e is None, "start failed with %r", e)
    else:
        for s in sharers:
            s.set.start()
    slow = rng.choice((0, .001, .004))
    if slow:
        zk.hook = lambda s, op, path: prng.random() * slow if path == PATH and prng.random() < .7 else None
    if rng.random() < .4:
        zk.lag = lambda: prng.random() * .002
        for c in list(zk.conns):
            c.lag = zk.lag
    faulty = rng.random() < .3
    programs = []
    for s in sharers:
        prog = [(rng.choice(("add", "add", "remove")), set(rng.sample(items, rng.choice((0, 1, 1, 2, 4) if rng.random() < .6 else (0, 1, len(items) // 2, len(items) - 1))))) for _ in range(rng.choice((1, 3, 5)))]
        programs.append((s, prog))

    def runner(s, prog):
        def go():
            for kind, its in prog:
                s.run(kind, its)
        return go
    done = []

    def saboteur():
        for _ in range(rng.choice((1, 2, 4))):
            time.sleep(prng.random() * .02)
            live = zk.live()
            if not live or done:
                return
            s = prng.choice(live)
            ctx.count("faults")
            (zk.expire if prng.random() < .5 else zk.drop)(s)
    fns = [runner(s, p) for s, p in programs]
    if faulty:
        fns.append(saboteur)
    for e in background(fns, zk):
        if e is not None:
            raise e
    done.append(1)
    zk.hook = zk.lag = None
    for c in list(zk.conns):
        c.lag = None
    if faulty:
        for s in sharers:
            ctx.check(until(lambda: s.client.connected and s.client.client_id and zk.session_of(s.client).conn, PATIENCE), "client %d never came back", s.i)
    judge(ctx, zk, sharers, initial, faulty)
    ctx.sample({"programs": [[(k, sorted(i)[:3]) for k, i in p] for _, p in programs][:3], "faulty": faulty})


@zk_case(jitter=0.3)
def pause(rng, ctx, zk):
    """A client is paused between its read and its write, for so long that its
    session, and with it the lock, is gone and others continue."""
    items = pool(rng)
    a, b = Sharer(zk, 0), Sharer(zk, 1)
    del zk.log[:]
    for s in (a, b):
        s.set.start()
    a.run("add", set(rng.sample(items, 2)))
    others = [(rng.choice(("add", "remove")), set(rng.sample(items, rng.choice((1, 2))))) for _ in range(rng.choice((1, 2)))]
    back = rng.random() < .8
    times = [rng.choice((1, 1, 2, 7))]

    def away():
        old = zk.session_of(a.client)
        zk.expire(old)
        if back:                             # noticed and connected again before the write
            until(lambda: zk.session_of(a.client) not in (None, old) and a.client.connected, PATIENCE)
        for kind, its in others:
            b.run(kind, its)
        ctx.count("pauses_with_expiry")
        if back and times[0] > 1:                # and again
            times[0] -= 1
            others[:] = [("add", {"again:%d" % times[0]})]
            a.before_write = away
    kind, its = rng.choice((("add", {"new:1", "new:2"}), ("remove", set(a.ops[0][1]))))
    a.before_write = away
    for e in in_threads([lambda: a.run(kind, its)]):
        if e is not None:
            raise e
    ctx.check(until(lambda: zk.session_of(a.client) and a.client.connected, PATIENCE), "the client never came back")
    a.sids.add(a.client.client_id[0])
    judge(ctx, zk, [a, b], set(), True)


@zk_case(jitter=0.3)
def vanished(rng, ctx, zk):
    """The node of the set disappears; allocators create it again."""
    from kiel.zookeeper.allocator import PartitionAllocator
    from kiel.clients.grouped import naive_allocator
    members = [PartitionAllocator(zk.hosts, "g", "m%d" % i, allocator_fn=naive_allocator) for i in range(rng.choice((1, 2, 3)))]
    parts = {rng.choice(TOPICS): [0, 1, rng.randrange(2, 90)]}
    want = {"%s:%d" % (t, p) for t, ps in parts.items() for p in ps}
    for m in members:
        zk.cleanup.append(m.conn)
        err = settled(m.start(parts))
        ctx.check(err is None, "start failed with %r", err)
    ctx.check(stored(zk, PATH) == want, "the set is %r, added was %r", stored(zk, PATH), want)
    ctx.check(until(lambda: all(set(m.partitions) == want for m in members), PATIENCE), "members know %r", [m.partitions for m in members])
    zk.quiet(.01, 1)
    with zk.lock:
        for c in zk.children(PATH + "/lock"):
            zk.remove(PATH + "/lock/" + c)
        zk.remove(PATH + "/lock")
        zk.remove(PATH)
    ctx.check(until(lambda: stored(zk, PATH) == want, PATIENCE), "the set was removed and is %r now, %r was known to all", stored(zk, PATH), want)
    more = {"later": [7]}
    members[-1].add_partitions(more)
    want.add("later:7")
    names = sorted(m.consumer_name for m in members)
    share = naive_allocator(names, sorted(want))
    for m in members:
        ctx.check(until(lambda: flat(m.allocation) == flat(share.get(m.consumer_name)), PATIENCE), "%s holds %r of %r", m.consumer_name, flat(m.allocation), sorted(want))
    ctx.count("recreated")
    ctx.sig("vanished", len(members), parts)


SCENARIOS = [(14, sharing), (3, pause), (2, vanished)]
