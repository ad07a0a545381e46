import random
import threading
import time

from .zkc import NAMES, PATIENCE, background, in_threads, settled, until, zk_case

ID = "C24"
LEVEL = "exploration"
QUICK, THOROUGH = 900, 20000
RULE = ("real kazoo sessions join, leave, close, expire, lose their connection and rejoin a group under few names, over leftovers of crashed "
        "processes which expire before, during and after the join, through Party objects and through whole allocators, with threads dawdling at random lines; after every operation the "
        "owner of the member's node is compared with the session that joined, and every watching member's last list with the nodes there; distinct "
        "non-trivial = distinct histories")
NEED = {"joins": 600, "takeovers": 150, "leftover_expired_during_join": 30, "rejoined_after_expiry": 100, "leaves": 100, "left_when_gone": 80,
        "joined_twice": 40, "lists": 1500, "sessions_ended": 250}
PATH = "/kiel/groups/g/members"


class Actor(object):
    def __init__(self, zk, name):
        from kazoo.client import KazooClient
        from kiel.zookeeper import Party
        self.zk, self.name, self.path = zk, name, PATH + "/" + name
        self.client = KazooClient(hosts=",".join(zk.hosts))
        zk.cleanup.append(self.client)
        self.client.start()
        self.lists = []
        self.party = Party(self.client, name, PATH, lambda members: self.lists.append(sorted(members)))
        self.party.start()
        self.joined = False

    @property
    def session(self):
        return self.zk.session_of(self.client)

    def back(self, ctx, old=None):
        ok = until(lambda: self.session and self.session is not old and self.session.alive and self.session.conn and self.client.connected, PATIENCE)
        ctx.check(ok, "%s did not connect again", self.name)


@zk_case(jitter=0.35)
def parties(rng, ctx, zk):
    names = rng.sample(NAMES, rng.choice((1, 2, 3, 5)))
    actors, ghosts, hist = {}, {}, []        # name -> Actor, name -> leftover session
    prng = random.Random(rng.random())
    label = lambda: "after %r" % hist[-12:]

    def owned(a):
        ctx.check(zk.owner(a.path) == a.session.id, "%s: join() of %s returned, its session is %x, the node there is owned by %r", label(), a.name,
                  a.session.id, zk.owner(a.path))

    def lists():
        expect = sorted(n for n in names if n in ghosts or (n in actors and actors[n].joined))
        ok = until(lambda: zk.children(PATH) == expect, PATIENCE)
        ctx.check(ok, "%s: listed are %r, members are %r", label(), zk.children(PATH), expect)
        for a in actors.values():
            if a.joined:
                owned(a)
            ok = until(lambda: a.lists and a.lists[-1] == expect, PATIENCE)
            ctx.check(ok, "%s: %s was last told of %r, members are %r", label(), a.name, a.lists[-1] if a.lists else "nothing", expect)
            ctx.count("lists")

    for step in range(rng.choice((4, 8, 16))):
        n = rng.choice(names)
        a = actors.get(n)
        r = rng.random()
        if a is None:
            if n not in ghosts and r < .5:
                hist.append(("crashed", n))
                ghosts[n] = zk.ghost(PATH + "/" + n)
            elif n in ghosts and r < .15:
                hist.append(("timeout", n))
                zk.expire(ghosts.pop(n))
            else:
                hist.append(("process", n))
                actors[n] = Actor(zk, n)
        elif not a.joined or r < .15:
            twice = a.joined
            left = ghosts.pop(n, None)
            how = rng.choice(("plain", "expires", "expires", "later", "lost")) if left else rng.choice(("plain", "plain", "lost"))
            hist.append(("join", n, how, bool(left), twice))
            if how == "expires":
                # before the n-th of the join's requests is processed
                at = [rng.choice((1, 2, 2, 2, 3))]

                def hook(s, op, path, a=a, left=left):
                    if a.session is s and op in ("exists", "create", "multi", "delete", "get", "create2"):
                        at[0] -= 1
                        if at[0] == 0:
                            zk.expire(left)
                zk.hook = hook
                ctx.count("leftover_expired_during_join")
            if how == "lost":
                at = [rng.choice((1, 1, 2))]
                mode = rng.choice(("drop_before", "drop_after"))

                def hook(s, op, path, a=a):
                    if a.session is s and op in ("exists", "create", "multi"):
                        at[0] -= 1
                        if at[0] == 0:
                            return mode
                zk.hook = hook
            mark = len(zk.log)
            try:
                a.party.join()
            except Exception as e:
                ctx.check(how == "lost", "%s: join() raised %r", label(), e)
                zk.hook = None
                a.back(ctx)
                mark = len(zk.log)
                a.party.join()
            zk.hook = None
            if how == "lost":
                a.back(ctx)
            owned(a)
            a.joined = True
            ctx.count("joins")
            if twice:
                gone = [e for e in zk.log[mark:] if e[2] == "delete" and e[3] == a.path]
                ctx.check(not gone, "%s: joining twice removed the member", label())
                ctx.count("joined_twice")
            if left:
                ctx.count("takeovers")
                zk.expire(left)              # the old session ends at last
                owned(a)
        elif r < .35:
            hist.append(("leave", n))
            a.party.leave()
            ctx.check(zk.owner(a.path) is None, "%s: %s left and is still listed", label(), n)
            a.joined = False
            ctx.count("leaves")
            if rng.random() < .5:
                a.party.leave()
                ctx.count("left_when_gone")
        elif r < .55:
            hist.append(("expire", n))
            old = a.session
            zk.expire(old)
            ctx.check(zk.owner(a.path) is None, "%s: the session of %s expired, it is still listed", label(), n)
            ctx.count("sessions_ended")
            a.joined = False
            a.back(ctx, old)
            if rng.random() < .7:
                a.party.join()
                a.joined = True
                owned(a)
        elif r < .7:
            hist.append(("close", n))
            a.client.stop()
            a.client.close()
            ctx.check(zk.owner(a.path) is None, "%s: %s closed its session and is still listed", label(), n)
            del actors[n]
            ctx.count("sessions_ended")
        elif r < .85:
            hist.append(("drop", n))
            zk.drop(a.session)
            if rng.random() < .5:
                m = rng.choice(names)        # missed while away
                if m not in actors:
                    if m in ghosts:
                        zk.expire(ghosts.pop(m))
                    else:
                        ghosts[m] = zk.ghost(PATH + "/" + m)
            until(lambda: a.session is None or not a.session.conn or a.session.connected > 1, 1)
            a.back(ctx)
        else:
            # leaving when somebody or something removed the entry already
            hist.append(("removed", n))
            zk.remove(a.path)
            a.party.leave()
            a.joined = False
            ctx.count("left_when_gone")
        if rng.random() < .6:
            lists()
    lists()
    ctx.sig(hist)
    ctx.sample({"history": [repr(h) for h in hist[:16]]})


@zk_case(jitter=0.35)
def together(rng, ctx, zk):
    """All join at once while leftovers of their earlier selves expire."""
    names = rng.sample(NAMES, rng.choice((2, 3, 5)))
    left = {n: zk.ghost(PATH + "/" + n) for n in names if rng.random() < .5}
    actors = [Actor(zk, n) for n in names]
    prng = random.Random(rng.random())
    zk.hook = lambda s, op, path: prng.random() * .003

    def timeouts():
        for n in left:
            if prng.random() < .7:
                time.sleep(prng.random() * .006)
                zk.expire(left[n])
    for e in in_threads([a.party.join for a in actors] + [timeouts]):
        ctx.check(e is None, "join() raised %r", e)
    zk.hook = None
    ctx.count("joins", len(actors))
    ctx.count("takeovers", len(left))
    for s in left.values():
        zk.expire(s)
    for a in actors:
        ctx.check(zk.owner(a.path) == a.session.id, "%s joined with session %x, its node is owned by %r", a.name, a.session.id, zk.owner(a.path))
        ok = until(lambda: a.lists and a.lists[-1] == sorted(names), PATIENCE)
        ctx.check(ok, "%s was last told of %r, members are %r", a.name, a.lists[-1:], sorted(names))
        ctx.count("lists")
    ctx.sig("together", names, sorted(left), len(zk.log))


@zk_case(jitter=0.35)
def allocators(rng, ctx, zk):
    """Whole group members: a lost session is followed by a new membership."""
    from kiel.zookeeper.allocator import PartitionAllocator
    from kiel.clients.grouped import naive_allocator
    names = rng.sample(NAMES, rng.choice((1, 2, 3)))
    left = {n: zk.ghost(PATH + "/" + n) for n in names if rng.random() < .3}
    live, hist = {}, []
    for n in names:
        a = PartitionAllocator(zk.hosts, "g", n, allocator_fn=naive_allocator)
        zk.cleanup.append(a.conn)
        err = settled(a.start({"t": [0, 1, 2]}))
        ctx.check(err is None, "start of %s failed with %r", n, err)
        ctx.check(zk.owner(PATH + "/" + n) == a.conn.client_id[0], "%s started with session %x, its node is owned by %r", n, a.conn.client_id[0],
                  zk.owner(PATH + "/" + n))
        ctx.count("joins")
        if n in left:
            zk.expire(left.pop(n))
            ctx.count("takeovers")
            ctx.check(zk.owner(PATH + "/" + n) == a.conn.client_id[0], "%s vanished with the session of its predecessor", n)
        live[n] = a

    def member(a):
        s = zk.session_of(a.conn)
        return s is not None and s.alive and zk.owner(PATH + "/" + a.consumer_name) == s.id
    for step in range(rng.choice((2, 4))):
        n = rng.choice(sorted(live)) if live else None
        if n is None:
            break
        a = live[n]
        r = rng.random()
        if r < .6:
            hist.append(("expire", n))
            old = zk.session_of(a.conn)
            again = rng.choice((1, 1, 2))
            for i in range(again):
                if rng.random() < .3:
                    zk.refuse = True
                    threading.Timer(rng.random() * .2, setattr, (zk, "refuse", False)).start()
                if i and rng.random() < .5:  # lost again while joining
                    ctx.check(until(lambda: zk.session_of(a.conn) not in (None, old), PATIENCE), "%s did not connect again", n)
                    old = zk.session_of(a.conn)
                if old:
                    zk.expire(old)
                    ctx.count("sessions_ended")
            if rng.random() < .3:
                at = [1]

                def hook(s, op, path):
                    if op in ("exists", "create") and path.startswith(PATH + "/"):
                        at[0] -= 1
                        if at[0] == 0:
                            return rng.choice(("drop_before", "drop_after"))
                zk.hook = hook
            ok = until(lambda: zk.session_of(a.conn) not in (None, old) and member(a), PATIENCE)
            zk.hook = None
            ctx.check(ok, "after %r: the session of %s ended, it is connected again as %r but its node is owned by %r", hist, n, zk.session_of(a.conn),
                      zk.owner(PATH + "/" + n))
            ctx.count("rejoined_after_expiry")
        elif r < .8:
            hist.append(("drop", n))
            s = zk.session_of(a.conn)
            if s:
                zk.drop(s)
            ctx.check(until(lambda: member(a), PATIENCE), "after %r: %s is not listed any more", hist, n)
        else:
            hist.append(("stop", n))
            ctx.check(until(lambda: member(a) and a.conn.connected and zk.session_of(a.conn).conn, PATIENCE), "%s is not listed", n)
            quiet = rng.random() < .5
            if quiet:
                zk.quiet(.01, 1)
            s = zk.session_of(a.conn)
            if s is None or not s.conn:
                continue
            err = settled(a.stop())
            del live[n]
            if not quiet and err is not None:
                zk.expire(s)                 # its connection went right then
            ctx.check(zk.owner(PATH + "/" + n) is None, "after %r: %s stopped and is still listed", hist, n)
            ctx.check(not s.alive, "after %r: the session of %s goes on after stop()", hist, n)
            ctx.count("leaves")
        ok = until(lambda: zk.children(PATH) == sorted(live), PATIENCE)
        ctx.check(ok, "after %r: listed are %r, live are %r", hist, zk.children(PATH), sorted(live))
        for m in live.values():
            ok = until(lambda: set(m.members) == set(live), PATIENCE)
            ctx.check(ok, "after %r: %s knows the members %r, live are %r", hist, m.consumer_name, m.members, sorted(live))
            ctx.count("lists")
    ctx.sig("allocators", hist, sorted(names))


SCENARIOS = [(10, parties), (3, together), (5, allocators)]
