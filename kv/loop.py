"""A virtual-time asyncio loop.

Real sockets, real kiel code, but ``loop.time()`` is virtual: when no socket is
ready and no callback is due, the clock jumps to the next timer.  Hangs are
therefore a *logical* verdict: the loop is idle (no I/O, no timers, no
callbacks) while an operation has not finished.
"""
import asyncio
import selectors


class Hang(Exception):
    """The loop went idle although the awaited operation had not finished."""


class Livelock(Exception):
    """Far more requests/steps than any correct execution needs."""


class VSelector(selectors.EpollSelector):
    def __init__(self):
        super().__init__()
        self.now = 1000.0
        self.grace = 0.0004
        self.on_idle = None
        self.idle_waits = (0.02, 0.1, 0.4)
        self.steps = 0

    def select(self, timeout=None):
        self.steps += 1
        self.now += 1e-5
        ready = super().select(0)
        if ready:
            return ready
        if timeout is not None and timeout <= 0:
            return ready
        if timeout is None or timeout > 3600:
            for wait in self.idle_waits:
                ready = super().select(wait)
                if ready:
                    return ready
            if self.on_idle is not None:
                self.on_idle()
            return []
        ready = super().select(self.grace)
        if ready:
            return ready
        self.now += timeout
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.vselector = VSelector()
        super().__init__(self.vselector)

    def time(self):
        return self.vselector.now


def run(main, virtual=True):
    """Runs coroutine function ``main(loop)`` on a fresh loop; raises Hang."""
    loop = VLoop() if virtual else asyncio.SelectorEventLoop()
    asyncio.set_event_loop(loop)
    loop.set_exception_handler(lambda l, c: None)
    try:
        task = loop.create_task(main(loop))

        if virtual:
            def idle():
                if not task.done():
                    task.cancel("idle")
                    loop.hung = True
                    # a second idle report while unwinding ends it for good
            loop.vselector.on_idle = idle
        loop.hung = False
        try:
            return loop.run_until_complete(task)
        except asyncio.CancelledError:
            if loop.hung:
                raise Hang("event loop idle while an operation was still pending")
            raise
    finally:
        try:
            for t in asyncio.all_tasks(loop):
                t.cancel()
            if virtual:
                loop.vselector.on_idle = None
                loop.vselector.idle_waits = ()
            for _ in range(3):
                loop.run_until_complete(asyncio.sleep(0))
        finally:
            try:
                from tornado.ioloop import IOLoop
                io = IOLoop.current(instance=False)
                if io is not None:
                    io.clear_current()
            except Exception:
                pass
            loop.close()
            asyncio.set_event_loop(None)


async def wait_for_idle(fut_or_none=None):
    """Placeholder for symmetry; see Ops.gather in world.py."""
