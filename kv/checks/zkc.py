"""Shared by the checks that run real kazoo clients against kv.zk (real time)."""
import asyncio
import contextlib
import functools
import json
import logging
import random
import signal
import sys
import threading
import time
import traceback

from kv.preempt import Jitter
from kv.runner import Inconclusive, Violation
from kv.zk import ZK, until

NAMES = ["alpha", "beta", "host-1.example:1234", "host-1.example:1235", "w", "w2", "W", "zz-9", "m0", "m10", "m2", "\u00fcber:7", "node_a"]
TOPICS = ["t", "events", "a.b-c_d", "T2", "logs.2024", "x" * 60, "0", "events2"]
PATIENCE = 25.0              # seconds of real time for something that takes milliseconds


def patch_kazoo():
    """kazoo 2.11 loses a children watch when the connection goes between a
    reply and the line noting the watch as established; DataWatch does not.
    Not kiel's to decide, so ChildrenWatch gets DataWatch's behaviour here."""
    from kazoo.client import KazooState
    from kazoo.recipe.watchers import ChildrenWatch
    if getattr(ChildrenWatch, "_kv_patched", False):
        return
    plain = ChildrenWatch._session_watcher

    def _session_watcher(self, state):
        if state == KazooState.CONNECTED and not self._stopped:
            self._watch_established = False
        return plain(self, state)
    ChildrenWatch._session_watcher = _session_watcher
    ChildrenWatch._kv_patched = True


class Stuck(KeyboardInterrupt):
    pass


def zk_case(wall=90, jitter=0):
    """Decorates fn(rng, ctx, zk): watchdog, server, cleanup, dawdling threads."""
    def deco(fn):
        @functools.wraps(fn)
        def case(rng, ctx):
            where = []

            def alarm(sig, frame):
                if not where:
                    where.extend(traceback.format_stack(frame)[-8:])
                raise Stuck()
            logging.getLogger("kazoo").setLevel(logging.CRITICAL + 1)
            threading.excepthook = lambda args: None     # kazoo's own threads, e.g. operations ended by stop()
            old = signal.signal(signal.SIGALRM, alarm)
            signal.setitimer(signal.ITIMER_REAL, wall, 5.0)
            patch_kazoo()
            zk = ZK()
            zk.cleanup = []
            ctx.trace = zk.trace
            slow = Jitter(random.Random(rng.random()), rng.choice((.02, .1, .3))) if rng.random() < jitter else None
            try:
                with slow or contextlib.nullcontext():
                    fn(rng, ctx, zk)
                if slow:
                    ctx.count("dawdled_lines", slow.n)
                ctx.count("zk_requests", zk.total)
            except Stuck:
                raise Violation("no progress within %d s of a case that takes less than a second" % wall, detail="".join(where))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
                dispose(zk)
        return case
    return deco


def dispose(zk):
    zk.hook, zk.refuse = None, False
    zk.release()

    def stop(c):
        try:
            c.stop()
            c.close()
        except Exception:
            pass
    ts = [threading.Thread(target=stop, args=(c,), daemon=True) for c in zk.cleanup]
    for t in ts:
        t.start()
    for t in ts:
        t.join(3)
    zk.stop()


def with_loop(fn):
    """Runs fn() in this thread with an event loop (futures need one)."""
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        return fn()
    finally:
        asyncio.set_event_loop(None)
        loop.close()


def settled(fut):
    """-> exception or None of a future kiel returns already done."""
    if not fut.done():
        raise Violation("a future that is to be done when returned is not")
    return fut.exception()


def in_threads(fns, wall=60):
    """Runs callables concurrently -> their exceptions (None: returned)."""
    out = [None] * len(fns)

    def run(i, fn):
        try:
            with_loop(fn)
        except BaseException as e:
            out[i] = e
    ts = [threading.Thread(target=run, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
    for t in ts:
        t.start()
    end = time.monotonic() + wall
    for t in ts:
        t.join(max(0, end - time.monotonic()))
        if t.is_alive():
            f = sys._current_frames().get(t.ident)
            raise Violation("an operation did not finish within %d s" % wall, detail="".join(traceback.format_stack(f)[-12:]) if f else None)
    return out


def flat(mapping):
    """Member's allocation -> sorted list of (topic, partition id)."""
    return sorted((t, p) for t, ps in (mapping or {}).items() for p in ps)


def keys(parts):
    """{topic: ids} -> set of shared items."""
    return {"%s:%d" % (t, p) for t, ps in parts.items() for p in ps}


def stored(zk, path):
    data = zk.data(path)
    if not data:
        return None if data is None else set()
    items = json.loads(data.decode("utf-8"))
    if not isinstance(items, list) or len(set(items)) != len(items):
        raise Violation("the shared set is stored as %r" % (data,))
    return set(items)


def partitions(rng, most=12):
    names = rng.sample(TOPICS, rng.choice((1, 1, 2, 3)))
    return {n: sorted(rng.sample(range(rng.choice((3, most, 1000))), rng.randrange(1, 4) if rng.random() < .5 else 3)) for n in names}


def background(fns, zk):
    """Stalls end a moment later, so do operations waiting for that."""
    t = threading.Timer(.04, zk.release)
    t.daemon = True
    t.start()
    return in_threads(fns)
