import json
import threading

from kazoo.exceptions import EXCEPTIONS

from kv.broker import Action
from kv.world import outcome, simulate
from .grp import BASE, GROUP
from .zkc import NAMES, PATIENCE, TOPICS, flat, settled, stored, until, with_loop, zk_case

ID = "C32"
LEVEL = "exploration"
QUICK, THOROUGH = 1500, 30000
RULE = ("allocators and grouped consumers join, update and leave a group while one zookeeper operation, chosen by its number, or all from it on, is answered with an error "
        "(NoAuth, APIError, MarshallingError, BadArguments; ConnectionLoss and OperationTimeout, which kazoo retries in places) or the allocation function "
        "raises at a chosen call; checker: a call that reports success has its effect in zookeeper, one that fails does so promptly with the error that was "
        "injected, without a fault there is success; closing afterwards ends the session and takes the member and its locks along; the same group then "
        "works for the next member; distinct non-trivial = distinct (calls, operation, code, outcome)")
NEED = {"starts": 500, "injected": 400, "failed_starts": 200, "good_starts": 150, "updates": 250, "failed_updates": 60, "failed_connects": 40, "stops": 400,
        "failed_stops": 15, "function_raised": 40, "next_members": 150}
CODES = (-102, -102, -100, -5, -8, -4, -7)


class Boom(Exception):
    pass


class Fault(object):
    """Answers one operation, or all from it on, with ``code``."""
    def __init__(self, zk, rng):
        self.zk, self.rng, self.left, self.code, self.hit = zk, rng, None, None, []
        zk.hook = self.hook

    def arm(self, most):
        self.left, self.code, self.hit = self.rng.randrange(most), self.rng.choice(CODES), []
        self.lasting = self.code not in (-4, -7) and self.rng.random() < .3      # those would be retried for long

    def off(self):
        self.left = None

    def hook(self, s, op, path):
        if self.left is None or op in ("multi", "setwatches", "auth"):
            return None
        self.left -= 1
        if self.left >= 0:
            return None
        if not self.lasting:
            self.left = None
        self.hit.append((op, path))
        return self.code

    def judge(self, ctx, what, e):
        if e is None:
            return
        ctx.check(self.hit, "%s failed with %r without any fault", what, e)
        want = EXCEPTIONS[self.code]
        ctx.check(isinstance(e, want), "%s failed with %r after zookeeper answered %s of %s with %s", what, e, self.hit[0][0], self.hit[0][1], want.__name__)


def start_of(fn, *args):
    """-> the exception a call ends with, however it is handed over."""
    try:
        f = fn(*args)
        return settled(f) if hasattr(f, "done") else None
    except Exception as e:
        return e


@zk_case(wall=40)
def allocators(rng, ctx, zk):
    with_loop(lambda: alone(rng, ctx, zk))


def alone(rng, ctx, zk):
    from kiel.clients.grouped import naive_allocator
    from kiel.zookeeper.allocator import PartitionAllocator
    fault = Fault(zk, rng)
    me = rng.choice(NAMES)
    told = []
    raising = {"at": None, "by": None}

    def fn(members, parts):
        if raising["at"] is not None:
            raising["at"] -= 1
            if raising["at"] < 0:
                raising["at"], raising["by"] = None, threading.get_ident()
                raise Boom("no allocation of %r" % (members,))
        return naive_allocator(members, parts)
    a = PartitionAllocator(zk.hosts, "g", me, allocator_fn=fn, on_rebalance=lambda: told.append(1))
    zk.cleanup.append(a.conn)
    hist = []
    if rng.random() < .5:                                # not the first
        zk.put("/kiel/groups/g/members/other", b"")
        zk.put("/kiel/groups/g/partitions", json.dumps(["x:0", "x:1"]).encode())
    elif rng.random() < .3:
        zk.ghost("/kiel/groups/g/members/" + me)         # of its former session
    seed = {t: list(range(rng.choice((0, 1, 3)))) for t in rng.sample(TOPICS, rng.choice((1, 2)))}
    wanted = {"%s:%d" % (t, p) for t in seed for p in seed[t]}
    r = rng.random()
    if r < .7:
        fault.arm(22)
    elif r < .85:
        raising["at"] = rng.choice((0, 0, 1, 2))
    e = start_of(a.start, seed)
    fault.off()
    raising["at"] = None
    ctx.count("starts")
    ctx.count("injected", len(fault.hit))
    if raising["by"] is not None:
        ctx.count("function_raised")
        mine = raising["by"] == threading.get_ident()
        ctx.check(e is None or isinstance(e, Boom), "start() failed with %r, the allocation function raised Boom", e)
        ctx.check(e is not None or not mine, "start() reported success although the allocation function raised")
    else:
        fault.judge(ctx, "start()", e)
    hist.append(("start", fault.hit and fault.hit[0][0], fault.code, type(e).__name__))
    members, parts = "/kiel/groups/g/members", "/kiel/groups/g/partitions"
    if e is None:
        ctx.count("good_starts")
        ctx.check(zk.owner(members + "/" + me) == a.conn.client_id[0], "start() reported success, the member is not listed; fault %r", fault.hit)
        ctx.check(wanted <= set(stored(zk, parts) or ()), "start() reported success, of %r the group's partitions are %r; fault %r", sorted(wanted),
                  stored(zk, parts), fault.hit)
        if not fault.hit and raising["by"] is None:
            ms, ps = sorted(zk.children(members)), sorted(stored(zk, parts) or ())
            ok = until(lambda: flat(a.allocation) == flat(naive_allocator(ms, ps).get(me)), PATIENCE)
            ctx.check(ok, "%r of %r share %r, %s holds %r", ms, ps, ps, me, flat(a.allocation))
        for _ in range(rng.choice((1, 2, 4))):
            how = rng.choice(("add_partitions", "remove_partitions"))
            what = {t: sorted(rng.sample(range(6), rng.choice((1, 2)))) for t in rng.sample(TOPICS[:3], rng.choice((1, 2)))}
            items = {"%s:%d" % (t, p) for t in what for p in what[t]}
            before = set(stored(zk, parts) or ())
            zk.quiet()
            if rng.random() < .6:
                fault.arm(8)
            else:
                fault.hit = []
            e = start_of(getattr(a, how), what)
            fault.off()
            fault.judge(ctx, "%s(%r)" % (how, what), e)
            after = set(stored(zk, parts) or ())
            full = before | items if how[0] == "a" else before - items
            ctx.count("updates")
            ctx.count("injected", len(fault.hit))
            ctx.count("failed_updates", e is not None)
            ctx.check(after == full or e is not None and after == before, "%s(%r) %s, the set was %r and is %r", how, what, "failed" if e else "succeeded",
                      sorted(before), sorted(after))
            hist.append((how, fault.hit and fault.hit[0], type(e).__name__))
            if any(op == "delete" for op, _ in fault.hit):
                break                                    # the lock could not be released, it is held until the session ends
    else:
        ctx.count("failed_starts")
    zk.quiet()
    if rng.random() < .4:
        fault.arm(2)
    else:
        fault.hit = []
    session = zk.session_of(a.conn)
    e = start_of(a.stop)
    fault.off()
    ctx.count("stops")
    ctx.count("failed_stops", e is not None)
    fault.judge(ctx, "stop()", e)
    said = any(op == "delete" for op, _ in fault.hit)    # what the watches do meanwhile fails unnoticed
    ctx.check((e is not None) == said, "stop() %s, zookeeper answered %r with %s", "failed with %r" % e if e else "reported success", fault.hit, fault.code)
    hist.append(("stop", fault.hit and fault.hit[0], type(e).__name__))
    owner = lambda: zk.owner(members + "/" + me)         # a former session's entry stays if it could not be replaced
    ok = until(lambda: not session.alive and owner() != session.id, PATIENCE)
    ctx.check(ok, "after %r the session goes on or the member is still listed: %r %r", hist, session, zk.children(members))
    locks = zk.children(parts + "/lock") if stored(zk, parts) is not None else []
    ctx.check(not locks, "after %r the lock is still held: %r", hist, locks)
    b = PartitionAllocator(zk.hosts, "g", "next", allocator_fn=naive_allocator)
    zk.cleanup.append(b.conn)
    e = start_of(b.start, {"n": [0]})
    ctx.check(e is None, "after %r the next member cannot start: %r", hist, e)
    ms, ps = sorted(zk.children(members)), sorted(stored(zk, parts))
    ctx.check((me not in ms or owner()) and "next" in ms and "n:0" in ps, "after %r and the next one's start members are %r, partitions %r", hist, ms, ps)
    ok = until(lambda: flat(b.allocation) == flat(naive_allocator(ms, ps).get("next")), PATIENCE)
    ctx.check(ok, "the next member holds %r of %r", flat(b.allocation), ps)
    ctx.count("next_members")
    ctx.sig(hist, sorted(seed))
    ctx.sample({"history": hist})


@zk_case(wall=40)
def consumers(rng, ctx, zk):
    """The same through connect() and close()."""
    async def work(cl):
        from kiel.clients import GroupedConsumer
        ids = list(cl.brokers)
        cl.add_topic("t0", [rng.choice(ids) for _ in range(rng.choice((1, 3)))])
        for pid, p in cl.topics["t0"].items():
            p.append([(None, json.dumps(["t0", pid]).encode())])
            cl.committed[(GROUP, "t0", pid)] = (0, "")
        cl.coordinator = rng.choice(ids)
        cl.plan = lambda x: Action(delay=rng.choice((0, 0, .001)))
        fault = Fault(zk, rng)
        c = GroupedConsumer(cl.hosts, GROUP, zk.hosts)
        zk.cleanup.append(c.allocator.conn)
        if rng.random() < .85:
            fault.arm(22)
        k, e = await outcome(c.connect())
        fault.off()
        ctx.count("injected", len(fault.hit))
        fault.judge(ctx, "connect()", e if k != "ok" else None)
        session = zk.session_of(c.allocator.conn)
        hist = [("connect", fault.hit and fault.hit[0], k, fault.code)]
        parts = ["t0:%d" % p for p in cl.topics["t0"]]
        if k == "ok":
            ctx.check(zk.owner(BASE + "/members/" + c.name) == c.allocator.conn.client_id[0] and set(parts) <= set(stored(zk, BASE + "/partitions") or ()),
                      "connect() succeeded, listed are %r and %r; fault %r", zk.children(BASE + "/members"), stored(zk, BASE + "/partitions"), fault.hit)
            if not fault.hit:
                ok = until(lambda: sorted(flat(c.allocation)) == sorted(("t0", p) for p in cl.topics["t0"]), PATIENCE)
                ctx.check(ok, "the only member holds %r", flat(c.allocation))
                k, v = await outcome(c.consume("t0"))
                ctx.check(k == "ok" and sorted(v) == sorted(["t0", p] for p in cl.topics["t0"]), "consume() gave %r", v)
        else:
            ctx.count("failed_connects")
        k, e = await outcome(c.close())
        ctx.check(k == "ok", "close() after %r raised %r", hist, e)
        ctx.check(until(lambda: not session.alive, PATIENCE), "after %r and close() the session goes on", hist)
        ctx.check(zk.owner(BASE + "/members/" + c.name) is None, "after %r and close() the member is listed", hist)
        ctx.sig(hist, len(parts))
    simulate(ctx, work, rng.choice((1, 2)))


SCENARIOS = [(3, allocators), (1, consumers)]
