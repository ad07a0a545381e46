"""Glue: run a workload coroutine against a fake cluster on a virtual loop."""
import asyncio
import contextlib
import gc
import random

from . import loop as vloop
from .broker import Action, Cluster  # noqa
from .runner import Violation

_n = 0
NOT_SLOW = ("demo",)  # C25 times connections itself


def broker_ids(n):
    """Ids need not start at 1; 0 is an ordinary id."""
    base = random.choice((0, 0, 1, 1, 1, 5, 1001, 2 ** 31 - (8 if n < 5 else 80)))
    return [base + i for i in range(n)]


@contextlib.contextmanager
def slow_connects(ctx, delay):
    """Connections take a while to establish, as over a real network."""
    from kiel import connection
    plain = getattr(connection.Connection, "connect", None)
    if plain is None:
        yield
        return

    def connect(self):
        async def later():
            await asyncio.sleep(delay())
            ctx.count("slow_connects")
            return await plain(self)
        return asyncio.ensure_future(later())
    connection.Connection.connect = connect
    try:
        yield
    finally:
        connection.Connection.connect = plain


def simulate(ctx, fn, n=1, ids=None, slow=None):
    """Runs ``await fn(cluster)``; broker-side problems become violations."""
    global _n
    if ids is None and ctx.prop != "demo":
        ids = broker_ids(n)
    holder = {}

    async def main(loop):
        cl = holder["cl"] = Cluster(loop, n, ids)
        ctx.trace = cl.trace
        cl.task = asyncio.current_task()
        try:
            await fn(cl)
        finally:
            cl.task = None
            cl.dispose()

    fixed = slow if slow is not None and slow is not True else None
    if slow is None:
        slow = ctx.prop not in NOT_SLOW and random.random() < .3
    waits = random.choice(((0, .001), (0, 0, .02), (.005, .1)))
    try:
        try:
            with slow_connects(ctx, lambda: fixed if fixed else random.choice(waits)) if slow else contextlib.nullcontext():
                vloop.run(main)
        except (asyncio.CancelledError, vloop.Hang, Exception) as e:
            cl = holder.get("cl")
            if cl is not None and cl.problem and not isinstance(e, Violation):
                raise Violation(cl.problem)
            if isinstance(e, asyncio.CancelledError):
                raise Violation("an operation was cancelled from inside the client")
            raise
        cl = holder["cl"]
        if cl.problem:
            raise Violation(cl.problem)
        ctx.count("broker_requests", cl.requests)
        ctx.count("broker_connections", cl.connections)
        return cl
    finally:
        holder.clear()
        _n += 1
        if _n % 20 == 0:
            gc.collect()


async def settle(cl, ticks=3):
    """Lets everything in flight be processed (virtual time)."""
    for _ in range(ticks):
        await asyncio.sleep(0.01)


async def outcome(fut):
    """-> ("ok", value) or ("err", exception) of an awaitable."""
    try:
        return "ok", await fut
    except asyncio.CancelledError:
        raise
    except Exception as e:
        return "err", e
