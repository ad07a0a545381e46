import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from kv.runner import Inconclusive, Violation
from .zkc import NAMES, PATIENCE, TOPICS, background, flat, in_threads, partitions, settled, stored, until, with_loop, zk_case

ID = "C22"
LEVEL = "exploration"
QUICK, THOROUGH = 700, 14000
RULE = ("1-5 real allocators (real kazoo clients, threads) against a zookeeper stand-in start, stop, lose connections and sessions, are stalled, "
        "add and remove partitions, one after another or at the same time, while other members and partition data come and go, packets lag and "
        "allocation functions take their time, threads dawdle at random lines, and consumers in forked worker processes come and get killed; at checkpoints all delays are lifted and every live allocator's allocation, last arguments and last "
        "rebalance callback are compared with the members and partitions zookeeper holds; distinct non-trivial = distinct histories")
NEED = {"checkpoints": 600, "shares": 900, "expired": 60, "dropped": 150, "stopped": 60, "changed_while_away": 60, "concurrent_ops": 200, "callbacks": 1500, "worker_shares": 30}
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BASE = "/kiel/groups/g"
MEMBERS, PARTS = BASE + "/members", BASE + "/partitions"


class Member(object):
    def __init__(self, zk, name, fn, pause):
        from kiel.zookeeper.allocator import PartitionAllocator
        self.zk, self.name, self.pause = zk, name, pause
        self.calls, self.callbacks = [], []
        self.lock = threading.Lock()

        def allocate(members, parts):
            self.calls.append((list(members), list(parts)))
            pause()
            return fn(members, parts)

        def rebalanced():
            with self.lock:
                self.callbacks.append(flat(self.a.allocation))
        self.a = PartitionAllocator(zk.hosts, "g", name, allocator_fn=allocate, on_rebalance=rebalanced)
        zk.cleanup.append(self.a.conn)
        self.seen = self.last = None

    @property
    def session(self):
        s = self.zk.session_of(self.a.conn)      # None while it is not connected
        self.last = s or self.last
        return self.last


def by_range(members, parts):
    out = {}
    n = max(1, len(members))
    for i, m in enumerate(members):
        for p in parts[i * len(parts) // n:(i + 1) * len(parts) // n]:
            t, _, k = p.rpartition(":")
            out.setdefault(m, {}).setdefault(t, []).append(int(k))
    return out


@zk_case(jitter=0.35)
def converge(rng, ctx, zk):
    from kiel.clients.grouped import naive_allocator
    fn = rng.choice((naive_allocator, naive_allocator, by_range))
    slow = rng.choice((0, 0, .001, .004))
    prng = random.Random(rng.random())

    def pause():
        if slow and prng.random() < .6:
            time.sleep(prng.random() * slow)
    live, ghosts, hist, faulty, away_for_good = {}, {}, [], [False], []
    busy = set()
    most = rng.choice((1, 2, 3, 5))
    seed = partitions(rng)
    label = lambda: "after %r" % hist[-14:]

    def start(m, parts):
        err = settled(m.a.start(parts))
        if err is None:
            live[m.name] = m
        elif faulty[0]:
            ctx.count("start_failed")
            settled(m.a.stop())
        else:
            raise Violation("start failed with %r" % err)

    def stop(m):
        s = m.session
        err = settled(m.a.stop())
        ctx.count("stopped")
        if faulty[0] or s is None:
            if s:
                away_for_good.append(s)      # its session may have to time out
            return
        if err is not None:
            raise Violation("stop failed with %r" % err)
        if s.alive:
            raise Violation("the session of %s is still alive once stop() is done" % m.name)

    def update(m, how, parts):
        try:
            getattr(m.a, how)(parts)
        except Exception:
            if not faulty[0] and live.get(m.name) is m:
                raise
            ctx.count("update_failed")

    def external():
        items = set(stored(zk, PARTS) or ())
        for _ in range(rng.choice((1, 3))):
            if items and rng.random() < .5:
                items.discard(rng.choice(sorted(items)))
            else:
                items.add("%s:%d" % (rng.choice(TOPICS), rng.randrange(20)))
        zk.put(PARTS, json.dumps(list(items)).encode())

    def op():
        """-> callable doing one thing, or None."""
        r = rng.random()
        free = [n for n in NAMES if n not in live and n not in ghosts and n not in busy]
        if (r < .22 or not live) and len(live) < most:
            old = [n for n in sorted(ghosts) if n not in busy]
            again = rng.random() < .2 and old
            name = rng.choice(old) if again else rng.choice(free)
            if again:                        # restarted while its old entry is still there
                hist.append(("restart", name))
            else:
                hist.append(("start", name))
            m = Member(zk, name, fn, pause)
            parts = seed if rng.random() < .8 else partitions(rng)
            ghosts.pop(name, None)
            live[name] = None
            return lambda: start(m, parts)
        ready = [m for m in live.values() if m]
        if not ready:
            return None
        m = rng.choice(ready)
        if r < .32 and m.name in busy:
            return None
        busy.add(m.name)
        if r < .32:
            hist.append(("stop", m.name))
            del live[m.name]
            return lambda: stop(m)
        if r < .45:
            parts = partitions(rng)
            hist.append(("add", m.name))
            return lambda: update(m, "add_partitions", parts)
        if r < .55:
            have = {}
            for item in stored(zk, PARTS) or ():
                t, _, k = item.rpartition(":")
                if rng.random() < .4:
                    have.setdefault(t, []).append(int(k))
            hist.append(("remove", m.name))
            return lambda: update(m, "remove_partitions", have)
        if r < .65:
            hist.append("external")
            return external
        if r < .75:
            n = rng.choice(NAMES)
            if n in live or n in busy:
                return None
            busy.add(n)
            if n in ghosts:
                s = ghosts.pop(n)
                hist.append(("gone", n))
                return lambda: zk.expire(s)
            hist.append(("ghost", n))
            ghosts[n] = zk.ghost(MEMBERS + "/" + n)
            return None
        if r < .88:
            faulty[0] = True
            hist.append(("drop", m.name))
            ctx.count("dropped")
            return lambda: m.session and zk.drop(m.session)
        if r < .95:
            faulty[0] = True
            hist.append(("expire", m.name))
            ctx.count("expired")
            return lambda: m.session and zk.expire(m.session)
        hist.append(("stall", m.name))
        return lambda: m.session and zk.stall(m.session)

    def away():
        """Connections go, things change meanwhile, connections come back."""
        faulty[0] = True
        zk.refuse = True
        ready = [m for m in live.values() if m]
        out = [m for m in ready if rng.random() < .7]
        for m in out:
            if m.session:
                zk.drop(m.session)
        if rng.random() < .8:
            external()
        if rng.random() < .8:
            n = rng.choice([x for x in NAMES if x not in live])
            if n in ghosts:
                zk.expire(ghosts.pop(n))
            else:
                ghosts[n] = zk.ghost(MEMBERS + "/" + n)
        if out and rng.random() < .3 and out[0].session:
            zk.expire(out[0].session)
        zk.refuse = False
        hist.append(("away", [m.name for m in out]))
        ctx.count("changed_while_away")

    def checkpoint():
        zk.hook, zk.lag = None, None
        for c in list(zk.conns):
            c.lag = None
        zk.release()
        for m in live.values():
            ok = until(lambda: m.session and m.session.alive and m.session.conn and m.a.conn.connected, PATIENCE)
            ctx.check(ok, "%s: %s has no connection to zookeeper any more", label(), m.name)
        while away_for_good:
            zk.expire(away_for_good.pop())
        names = sorted(set(live) | set(ghosts))
        ok = until(lambda: zk.children(MEMBERS) == names, PATIENCE)
        ctx.check(ok, "%s: zookeeper lists the members %r, live are %r", label(), zk.children(MEMBERS), names)
        parts = sorted(stored(zk, PARTS) or ())
        mapping = fn(list(names), list(parts))
        held = []
        for m in live.values():
            want = flat(mapping.get(m.name))
            ok = until(lambda: flat(m.a.allocation) == want and m.calls and m.calls[-1] == (names, parts), PATIENCE)
            if not ok:
                ctx.check(False, "%s: members %r and partitions %r: %s holds %r, its share is %r; its allocation function was last given %r", label(), names, parts,
                          m.name, flat(m.a.allocation), want, m.calls[-1] if m.calls else None)
            ok = until(lambda: m.callbacks and m.callbacks[-1] == want, PATIENCE)
            ctx.check(ok, "%s: the last rebalance callback of %s saw %r, it holds %r", label(), m.name, m.callbacks[-1] if m.callbacks else None, want)
            if m.seen is not None and m.seen[0] != (names, parts):
                ctx.check(until(lambda: len(m.callbacks) > m.seen[1], PATIENCE), "%s: no rebalance callback of %s although its inputs changed", label(), m.name)
            m.seen = ((names, parts), len(m.callbacks))
            held += want
            ctx.count("shares")
        if live and not ghosts:
            ctx.check(sorted(held) == sorted((p.rpartition(":")[0], int(p.rpartition(":")[2])) for p in parts), "%s: together %r are held", label(), held)
            ctx.count("covered")
        ctx.count("checkpoints")
        # a stale entry of an earlier state must not come back later either
        if rng.random() < .15:
            zk.quiet(.02, 1)
            for m in live.values():
                ok = until(lambda: flat(m.a.allocation) == flat(mapping.get(m.name)), PATIENCE)
                ctx.check(ok, "%s: the allocation of %s changed with nothing happening", label(), m.name)
        faulty[0] = False

    for step in range(rng.choice((2, 3, 5))):
        if rng.random() < .4:
            zk.lag = lambda: prng.random() * .003
        if rng.random() < .3:
            zk.hook = lambda s, o, p: prng.random() * .003 if prng.random() < .5 else None
        n = rng.choice((1, 2, 4, 6))
        busy.clear()
        if rng.random() < .5:
            fns = [f for f in (op() for _ in range(n)) if f]
            ctx.count("concurrent_ops", len(fns) if len(fns) > 1 else 0)
            for e in background(fns, zk):
                if e is not None:
                    raise e
        else:
            for _ in range(n):
                f = op()
                busy.clear()
                if f:
                    for e in background([f], zk):
                        if e is not None:
                            raise e
        for k in [k for k, m in live.items() if m is None]:
            del live[k]                       # failed to start
        if rng.random() < .3 and live:
            away()
        checkpoint()
    ctx.count("callbacks", sum(len(m.callbacks) for m in live.values()))
    ctx.sig(hist)
    ctx.sample({"history": [repr(h) for h in hist[:20]]})


@zk_case()
def workers(rng, ctx, zk):
    """Consumers in worker processes forked from one parent."""
    from kiel.clients.grouped import naive_allocator
    n = rng.choice((2, 2, 3))
    parts = partitions(rng)
    where = tempfile.mkdtemp(prefix="kv-workers.")
    p = subprocess.Popen([sys.executable, "-B", "-m", "kv.forked", where, zk.hosts[0], str(n), json.dumps(parts)], stdin=subprocess.PIPE,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=ROOT)

    def read(i):
        try:
            with open("%s/%d.json" % (where, i)) as fd:
                return json.load(fd)
        except OSError:
            return None

    def holds(i):
        return sorted(map(tuple, (read(i) or {"holds": ()})["holds"]))

    def converged(left):
        names = sorted(read(i)["name"] for i in left)
        ok = until(lambda: zk.children(MEMBERS) == sorted(set(names)), PATIENCE)
        ctx.check(ok, "zookeeper lists the members %r, live are %r", zk.children(MEMBERS), names)
        items = sorted(stored(zk, PARTS) or ())
        mapping = naive_allocator(list(names), list(items))
        everything = sorted((t, int(k)) for t, _, k in (x.rpartition(":") for x in items))
        if not until(lambda: sorted(h for i in left for h in holds(i)) == everything, PATIENCE):
            ctx.check(False, "%d worker processes, members %r, hold %r of %r", len(left), names, [holds(i) for i in left], everything)
        for i in left:
            want = flat(mapping.get(read(i)["name"]))
            ok = until(lambda: holds(i) == want, PATIENCE)
            ctx.check(ok, "worker %d holds %r, its share of %r is %r", i, holds(i), items, want)
        ctx.count("worker_shares", len(left))

    try:
        left = list(range(n))
        if not until(lambda: all(read(i) for i in left), PATIENCE):
            raise Inconclusive("the worker processes did not come up")
        for i in left:
            ctx.check(not read(i)["failed"], "worker %d failed to start: %s", i, read(i)["failed"])
        converged(left)
        gone = read(left.pop(rng.randrange(n)))
        s = zk.owner(MEMBERS + "/" + gone["name"])
        os.kill(gone["pid"], signal.SIGKILL)
        for session in list(zk.sessions.values()):
            if session.id == s:
                zk.expire(session)
        converged(left)
    finally:
        p.stdin.close()
        try:
            p.wait(5)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        shutil.rmtree(where, ignore_errors=True)
    ctx.sig("workers", n, sorted(parts.items()))


SCENARIOS = [(25, converge), (1, workers)]
