"""Monitors of a grouped consumer: real kazoo against kv.zk, real sockets to
the fake brokers, rebalances applied at chosen points of the virtual loop.

An epoch is a state of the group.  While a rebalance is applied the event loop
is blocked until the consumer's callback for it is done, so that it happens at
one point of the brokers' log.
"""
import asyncio
import collections
import contextlib
import json
import random
import struct

from kv import preempt
from kv.broker import Action, Partition
from kv.runner import Violation
from kv.world import outcome
from .zkc import NAMES, PATIENCE, flat, until

RETRIABLE = (2, 3, 5, 6, 7, 14, 15, 16, 19, 20)
FATAL = (-1, 1, 4, 8, 9, 10, 11, 13, 17, 18, 21, 22, 24, 25, 27, 28, 29, 30, 31, 99)
DROPS = ("drop_before", "drop_after", "reset_before", "reset_after", "partial")
GROUP = "workers"
BASE = "/kiel/groups/" + GROUP


def by_hash(seed):
    def allocate(members, parts):
        out = {}
        for p in parts:
            if members:
                m = random.Random("%s %s" % (seed, p)).choice(members)
                t, _, n = p.rpartition(":")
                out.setdefault(m, {}).setdefault(t, []).append(int(n))
        return out
    return allocate


def served(message_set):
    """Offsets of the complete entries in plain message set bytes."""
    out, pos = [], 0
    while pos + 12 <= len(message_set):
        off, size = struct.unpack_from(">qi", message_set, pos)
        if pos + 12 + size > len(message_set):
            break
        out.append(off)
        pos += 12 + size
    return out


class Epoch(object):
    def __init__(self, n, share):
        self.n, self.share, self.pos = n, share, {}


class Group(object):
    def __init__(self, rng, ctx, zk, cl, topics=2, autocommit=True, committed=True, fresh=0, **kw):
        from kiel.clients import GroupedConsumer
        from kiel.clients.grouped import naive_allocator
        self.rng, self.ctx, self.zk, self.cl = rng, ctx, zk, cl
        self.ids = list(cl.brokers)
        self.names = ["t%d" % i for i in range(topics)]
        for t in self.names:
            cl.add_topic(t, {pid: rng.choice(self.ids) for pid in rng.choice((rng.sample(range(10), rng.choice((1, 2, 3, 5))),) * 7 + (rng.sample(range(150), 16),))})
            for pid in cl.topics[t]:
                q = cl.topics[t][pid]
                q.start = q.end = rng.choice((0, 0, 0, 0, 9, 2 ** 31 - 2, 2 ** 50))
                self.append(t, pid, rng.choice((0, 1, 3, 8, 20)))
                if committed:
                    self.commit(t, pid)
        self.calls = []
        self.fn = rng.choice((naive_allocator, by_hash(rng.random()), by_hash(rng.random())))

        def allocate(members, parts):
            self.calls.append((list(members), list(parts)))
            return self.mapping(self.fn(members, parts))
        self.mapping = lambda m: m
        for n in rng.sample(NAMES, rng.choice((0, 0, 1, 2))):
            zk.put(BASE + "/members/" + n, b"")
        custom = self.fn is not naive_allocator or rng.random() < .7
        if custom:
            kw["partition_allocator"] = allocate
        self.custom = custom
        self.autocommit = autocommit
        if not autocommit or rng.random() < .5:
            kw["autocommit"] = autocommit
        self.c = GroupedConsumer(cl.hosts, GROUP, zk.hosts, **kw)
        zk.cleanup.append(self.c.allocator.conn)
        zk.consumers = getattr(zk, "consumers", []) + [self.c]
        hooked = self.c.allocator.on_rebalance
        self.done = None

        def rebalanced(*a, **k):
            r = hooked(*a, **k)
            al = self.c.allocator
            self.done = (sorted(al.members), sorted(al.partitions))
            return r
        self.c.allocator.on_rebalance = rebalanced
        self.epochs = [Epoch(0, set())]
        self.low = 0
        self.coord = None
        self.label = []
        self.asking = False              # an explicit commit_offsets() is running
        self.metadata = None             # what its commits have to carry
        self.blank = False
        self.log = {}                    # per call, see begin()
        self.faults = 0                  # how many more may be injected
        self.stubborn = False            # the same trouble again and again
        self.rates = {}
        self.timers = []
        self.ranges, self.ranged = False, set()    # errors about offsets out of range
        self.inject = {}                 # api -> [countdown, fn]
        self.after = {}                  # api -> fn run with the response under way
        self.watch_fetch = self.watch_commit = self.watch_coord = True
        self.handed = {}
        self.down = set()
        self.busy = False                # a rebalance is being applied
        self.pinned = None               # ... and is stuck half way
        cl.plan, cl.on_request, cl.on_sent = self.plan, self.request, self.sent
        cl.max_requests = 3000
        self.begin()

    # ------------------------------------------------------------ the outside
    def append(self, t, pid, n):
        part = self.cl.topics[t][pid]
        for _ in range(n):
            part.append([(None, json.dumps([t, pid, part.end]).encode())])

    def commit(self, t, pid, offset=None):
        """A commit by a former holder of the partition."""
        part = self.cl.topics[t][pid]
        if offset is None:
            offset = self.rng.choice((part.start, part.end, self.rng.randrange(part.start, part.end + 1)))
        self.cl.committed[(GROUP, t, pid)] = (offset, "other")

    def state(self):
        members = self.zk.children(BASE + "/members")
        parts = sorted(json.loads((self.zk.data(BASE + "/partitions") or b"[]").decode()))
        return members, parts

    def share_of(self, state):
        m = self.fn(*[list(x) for x in state])
        return set(flat(m.get(self.c.name)))

    @property
    def epoch(self):
        return self.epochs[-1]

    def joined(self):
        """The first allocation, as connect() left it."""
        st = self.state()
        self.ctx.check(self.c.name in st[0], "connect() returned, the members are %r", st[0])
        ok = until(lambda: self.done == st, PATIENCE)
        self.ctx.check(ok, "members and partitions are %r, the consumer was rebalanced for %r", st, self.done)
        self.epochs = [Epoch(0, self.share_of(st))]
        self.low = 0
        self.settled(st)

    def settled(self, st):
        want = sorted(self.epoch.share)
        ok = until(lambda: flat(self.c.allocation) == want, PATIENCE)
        self.ctx.check(ok, "members and partitions are %r, the consumer holds %r, not %r", st, flat(self.c.allocation), want)

    def rebalance(self, change=None):
        """Changes the group and waits until the consumer has been told."""
        if self.busy:
            return False
        self.busy = True
        try:
            return self.apply(change)
        finally:
            self.busy = False

    def apply(self, change):
        before = self.state()
        (change or self.change)()
        st = self.state()
        if st == before:
            return False
        ok = until(lambda: self.done == st, PATIENCE)
        self.ctx.check(ok, "members and partitions are %r, the consumer was rebalanced for %r", st, self.done)
        new = Epoch(len(self.epochs), self.share_of(st))
        self.ctx.count("rebalances")
        lost = self.epoch.share - new.share
        self.epochs.append(new)
        self.settled(st)
        self.cl.event("rebalanced", new.n, sorted(new.share))
        self.label.append("rebalance")
        # whoever holds the lost partitions now moves on
        for t, pid in sorted(lost):
            if pid in self.cl.topics.get(t, ()) and self.rng.random() < .5:
                have = self.cl.committed.get((GROUP, t, pid))
                if have:
                    self.commit(t, pid, self.rng.randrange(have[0], max(have[0], self.cl.topics[t][pid].end) + 1))
        return True

    def change(self):
        rng, members = self.rng, self.state()[0]
        r = rng.random()
        others = [m for m in members if m != self.c.name]
        absent = [n for n in NAMES if n not in members]
        if absent and (r < .45 or not others and r < .7):
            self.zk.put(BASE + "/members/" + rng.choice(absent), b"")
        elif r < .7:
            self.zk.remove(BASE + "/members/" + rng.choice(others))
        else:
            have = set(self.state()[1])
            known = {"%s:%d" % (t, p) for t in self.names for p in self.cl.topics[t]}
            item = rng.choice(sorted(known))
            have = have - {item} if item in have else have | {item}
            self.zk.put(BASE + "/partitions", json.dumps(sorted(have)).encode())

    # ------------------------------------------------------------ the brokers
    def fail(self, message, *args):
        self.cl.fail(message % args if args else message)

    def request(self, x):
        try:
            getattr(self, "on_" + x.api, lambda x: None)(x)
        except Violation as v:
            self.cl.fail(v.message)

    def on_fetch(self, x):
        if not self.watch_fetch:
            return
        for t in x.body["topics"]:
            for p in t["partitions"]:
                tp, o = (t["name"], p["partition_id"]), p["offset"]
                match = [e for e in self.epochs[self.low:] if tp in e.share and e.pos.get(tp) == o]
                self.asked[tp] += 1
                self.ctx.count("fetched_partitions")
                if match:
                    self.matched.setdefault((x.conn.cid, x.corr), {})[tp] = match[-1]
                    if tp not in match[-1].__dict__.setdefault("fetched", set()):
                        match[-1].fetched.add(tp)
                        self.ctx.count("first_fetches")
                    continue
                if not any(tp in e.share for e in self.epochs[self.low:]):
                    self.fail("%s|%d is fetched at %d, the consumer holds %r (epoch %d)", tp[0], tp[1], o, sorted(self.epoch.share), self.epoch.n)
                else:
                    self.fail("%s|%d is fetched at %d; since the last rebalance its position is %s (committed: %r)", tp[0], tp[1], o,
                              self.epoch.pos.get(tp, "not determined"), self.cl.committed.get((GROUP,) + tp))
                return
        self.rounds.append(x)

    def on_offset_fetch(self, x):
        self.coordinator_used(x, x.body["group_name"])
        self.looked_up.append(x)
        x_key = (x.conn.cid, x.corr)
        self.received[x_key] = self.epoch
        for t in x.body["topics"]:
            for p in t["partitions"]:
                if self.watch_fetch and not any((t["name"], p) in e.share for e in self.epochs[self.started.n:]):
                    self.fail("the offset of %s|%d is looked up, the consumer holds %r", t["name"], p, sorted(self.epoch.share))
                    return

    def on_offset_commit(self, x):
        b = x.body
        self.coordinator_used(x, b["group"])
        self.commits.append(x)
        if not self.watch_commit:
            return
        if not self.autocommit and not self.asking:
            self.fail("offsets are committed although autocommit is off and nobody asked for it")
            return
        n = 0
        for t in b["topics"]:
            for p in t["partitions"]:
                n += 1
                tp, o = (t["name"], p["partition_id"]), p["offset"]
                if tp in self.final and not self.concurrent:
                    self.fail("the commit of %s|%d is sent again after it was rejected with a fatal error", *tp)
                    return
                self.ctx.count("committed_partitions")
                if not any(tp in e.share for e in self.epochs[self.low:]):
                    self.fail("an offset of %s|%d is committed, the consumer holds %r", tp[0], tp[1], sorted(self.epoch.share))
                    return
                allowed = [e.pos[tp] for e in self.epochs[self.low:] if tp in e.share and tp in e.pos]
                if self.incomplete(tp[0]):
                    allowed = []
                # put together in some epoch since self.low
                if tp in self.handed and all(tp in e.share for e in self.epochs[self.handed[tp][0].n:self.low + 1]):
                    allowed.append(self.handed[tp][1])
                if o not in allowed:
                    self.fail("offset %d of %s|%d is committed, delivered is up to %r (epoch %d, committed %r)", o, tp[0], tp[1],
                              allowed or "nothing since the last rebalance", self.epoch.n, self.cl.committed.get((GROUP,) + tp))
                    return
                m = p["metadata"]
                if self.blank and not self.concurrent:
                    if m not in ("", None):
                        self.fail("metadata %r is sent again after it was rejected as too large", m)
                        return
                elif self.metadata is not None and not self.concurrent and m != self.metadata:
                    self.fail("metadata %r is committed, given was %r", m, self.metadata)
                    return
        if not n:
            self.ctx.count("empty_commits")

    def on_group_coordinator(self, x):
        self.inquiries.append(x)
        if x.body.get("group", x.body.get("group_name", GROUP)) != GROUP:
            self.fail("the coordinator of group %r is asked for", x.body)

    def coordinator_used(self, x, group):
        if not self.watch_coord:
            return
        if group != GROUP:
            self.fail("%s of group %r, the consumer's is %r", x.api, group, GROUP)
        elif self.coord != x.broker.id:
            self.fail("%s is sent to broker %d, the coordinator according to the last answer is %r", x.api, x.broker.id, self.coord)
        self.ctx.count("coordinator_used")

    def incomplete(self, topic):
        return any(x.body["topics"][0]["name"] == topic and (x.conn.cid, x.corr) not in self.answered and not x.conn.closed for x in self.rounds)

    def sent(self, x, what):
        key = (x.conn.cid, x.corr)
        if x.api == "fetch":
            self.answered.add(key)
            for t in x.response["topics"]:
                for p in t["partitions"]:
                    tp = (t["name"], p["partition_id"])
                    e = self.matched.get(key, {}).get(tp)
                    if p["error_code"] == 1:
                        self.ranged.add(t["name"])
                    if p["error_code"] or e is None:
                        continue
                    offs = served(p["message_set"])
                    self.delivered[tp] += [o for o in offs if o >= e.pos[tp]]
                    self.delivered_in[tp] = e
                    if offs:
                        for e in [e] if self.pinned is None else [f for f in self.epochs[self.low:] if tp in f.pos]:
                            e.pos[tp] = max(e.pos[tp], offs[-1] + 1)
            return
        if not self.concurrent:
            self.low = len(self.epochs) - 1 if self.pinned is None else self.pinned
        if x.api == "offset_fetch":
            e = self.received[key]
            for t in x.response["topics"]:
                for p in t["partitions"]:
                    if p["error_code"] == 0 and e is self.epoch:
                        for f in [e] if self.pinned is None else self.epochs[self.pinned:]:
                            f.pos[(t["name"], p["partition_id"])] = p["offset"]
                        self.ctx.count("positions")
        elif x.api == "offset_commit":
            codes = [p["error_code"] for t in x.response["topics"] for p in t["partitions"]]
            if 12 in codes:
                self.blank = True
            self.commit_codes.append(codes)
            if not set(codes) & set(RETRIABLE + (12,)):
                self.final |= {(t["name"], p["partition_id"]) for t in x.response["topics"] for p in t["partitions"] if p["error_code"]}
        elif x.api == "group_coordinator" and x.response["error_code"] == 0:
            self.coord = x.response["coordinator_id"]

    def plan(self, x):
        rng = self.rng
        a = Action(delay=rng.choice((0, 0, 0, .002)))
        # a rebalance while this request is being worked on
        if x.api in self.inject:
            job = self.inject[x.api]
            job[0] -= 1
            if job[0] <= 0:
                del self.inject[x.api]
                self.ctx.count("rebalances_during_" + x.api)
                if x.api == "fetch":
                    a.delay = .02            # the whole round is under way by then
                    self.timers.append(self.cl.loop.call_later(.01, self.safely, job[1]))
                else:
                    self.safely(job[1])
        rate = self.rates.get(x.api, 0)
        if self.faults > 0 and rng.random() < rate:
            self.faults -= 1
            self.ctx.count("faults_" + x.api)
            self.fault(x, a)
        return a

    def safely(self, fn):
        try:
            fn()
        except Violation as v:
            self.cl.fail(v.message)

    def fault(self, x, a):
        """Retriable ones only."""
        rng = self.rng
        if self.stubborn and x.api in ("offset_fetch", "offset_commit"):
            a.errors["*"] = rng.choice(RETRIABLE)
            return
        if x.broker.id != self.ids[0] and rng.random() < .4:
            a.mode, a.cut = rng.choice(DROPS), rng.randrange(60)
            return
        if x.api == "fetch":
            codes = (2, 3, 5, 6, 7, 9, -1) + ((1, 1, 1) if self.ranges else ())
            for t in x.body["topics"]:
                for p in t["partitions"]:
                    if rng.random() < .6:
                        a.errors[(t["name"], p["partition_id"])] = rng.choice(codes)
        elif x.api == "group_coordinator":
            a.error = rng.choice(RETRIABLE)
        elif x.api in ("offset_fetch", "offset_commit"):
            codes = (14, 14, 15, 16, 16) + RETRIABLE + ((12,) if x.api == "offset_commit" else ())
            if rng.random() < .4:
                a.errors["*"] = rng.choice(codes)
            else:
                for t in x.body["topics"]:
                    for p in t["partitions"]:
                        if rng.random() < .5:
                            a.errors[(t["name"], p if isinstance(p, int) else p["partition_id"])] = rng.choice(codes)

    # ---------------------------------------------------------------- a call
    async def close(self):
        self.begin()
        await self.c.close()

    def begin(self, concurrent=False):
        while self.timers:
            self.timers.pop().cancel()
        self.asked = collections.Counter()
        self.rounds, self.looked_up, self.commits, self.inquiries, self.commit_codes = [], [], [], [], []
        self.matched, self.received, self.answered = {}, {}, set()
        self.delivered, self.delivered_in = collections.defaultdict(list), {}
        self.low = len(self.epochs) - 1
        self.started = self.epoch
        self.concurrent = concurrent
        self.blank = False
        self.half = False                # a rebalance was stuck half way meanwhile
        self.final = set()

    def preempted(self, odds=.25):
        """The group is rebalanced while the consumer is at some line of its code."""
        if self.rng.random() > odds:
            return contextlib.nullcontext()
        self.ctx.count("preemptions_armed")

        def hit():
            self.ctx.count("preemptions")
            self.label.append(("at", m.where))
            self.safely(self.rebalance)
        m = preempt.Main(self.rng.choice((self.rng.randrange(1, 40), self.rng.randrange(1, 160))), hit, lambda: self.busy)
        return m

    def returned(self, topic, values, label):
        """Judges what consume() returned."""
        ctx = self.ctx
        ctx.check(isinstance(values, list), "%s: consume() returned %r", label, values)
        got = collections.defaultdict(list)
        for v in values:
            ctx.check(isinstance(v, list) and len(v) == 3 and v[0] == topic, "%s: consuming %s returned %r", label, topic, v)
            got[(topic, v[1])].append(v[2])
        ctx.count("returned", len(values))
        for tp in sorted(set(got) | {tp for tp in self.delivered if tp[0] == topic}):
            have, want = got.get(tp, []), self.delivered[tp]
            steady = self.delivered_in.get(tp) is self.epoch and not self.half
            ok = have == want or (not steady and have == [])
            ctx.check(ok, "%s: %s|%d: returned offsets %r, the fetch delivered %r", label, tp[0], tp[1], have, want)
        for tp in self.epoch.share:
            if tp[0] == topic and tp in self.epoch.pos:
                self.handed[tp] = (self.epoch, self.epoch.pos[tp])
        return got

    def stored(self, topic, label):
        """After an autocommitted call without a later rebalance."""
        for tp in sorted(self.epoch.share):
            if tp[0] != topic or tp not in self.epoch.pos:
                continue
            have = self.cl.committed.get((GROUP,) + tp)
            self.ctx.check(have and have[0] == self.epoch.pos[tp], "%s: %s|%d: committed is %r, delivered is up to %d", label, tp[0], tp[1], have, self.epoch.pos[tp])
            self.ctx.count("stored")


async def stuck(g, threads, topic):
    """A call while the thread delivering a rebalance is preempted, more than once even."""
    rng, ctx, cl, zk = g.rng, g.ctx, g.cl, g.zk
    before, old = g.state(), g.epoch
    threads.arm([rng.choice((rng.randrange(1, 20), rng.randrange(1, 50))) for _ in range(rng.choice((1, 1, 2, 3)))])
    g.change()
    st = g.state()
    if st == before:
        threads.release(True)
        return None
    over = lambda: g.done == st                                                   # noqa
    until(lambda: threads.paused() or over(), PATIENCE)
    new = set(g.share_of(st))
    g.begin()
    pauses = 0
    call = None
    if threads.paused() and not over():
        # either allocation may be seen now
        g.pinned = len(g.epochs) - 1
        g.epochs.append(Epoch(len(g.epochs), new))
        g.epoch.pos = {tp: o for tp, o in old.pos.items() if tp in new}
        g.low = g.pinned
        g.started = g.epochs[g.pinned]
        g.half = True
        call = asyncio.ensure_future(outcome(g.c.consume(topic)))
        while threads.paused() and not over():
            pauses += 1
            if rng.random() < .3:
                await call
            else:
                for _ in range(rng.choice((1, 2, 3, 5, 8, 13, 30))):
                    await asyncio.sleep(0)
                if rng.random() < .5:
                    await asyncio.sleep(rng.choice((.0005, .002)))
            threads.release()
            until(lambda: threads.paused() or over(), PATIENCE)
    where = list(threads.where)
    threads.release(True)
    ok = until(over, PATIENCE)
    ctx.check(ok, "members and partitions are %r, the consumer was rebalanced for %r (paused at %r)", st, g.done, where)
    g.pinned = None
    g.epochs.append(Epoch(len(g.epochs), new))
    g.cl.event("rebalanced", g.epoch.n, sorted(new))
    g.settled(st)
    g.label.append(("stuck", where, sorted(new)))
    if call is not None:
        half = not call.done()
        k, v = await call
        label = "after %r" % (g.label[-4:],)
        ctx.check(k == "ok", "%s: consume() raised %r", label, v)
        g.returned(topic, v, label)
        ctx.count("stuck_rebalances")
        ctx.count("stuck_pauses", pauses)
        ctx.count("stuck_across", half)
    return where
