"""Preemption of kiel code at chosen lines.

Kazoo calls back in threads of its own while the event loop's thread is
anywhere in kiel's code.  Where a real scheduler switches is out of reach of a
workload, so both sides are paused at the k-th line of kiel they execute.
"""
import os
import sys
import threading
import time

from . import env

ROOT = os.path.join(os.path.realpath(env.REPO), "kiel") + os.sep
SKIP = os.path.join(ROOT, "protocol") + os.sep


def ours(code):
    f = os.path.realpath(code.co_filename) if not code.co_filename.startswith(ROOT) else code.co_filename
    return f.startswith(ROOT) and not f.startswith(SKIP)


_known = {}


def _relevant(code):
    r = _known.get(code)
    if r is None:
        r = _known[code] = ours(code)
    return r


class Main(object):
    """Calls fn() when this thread is about to execute its at-th line of kiel."""

    def __init__(self, at, fn, busy=lambda: False):
        self.left, self.fn, self.busy, self.where = at, fn, busy, None

    def trace(self, frame, event, arg):
        if self.left <= 0 or not _relevant(frame.f_code):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and self.left > 0 and not self.busy():
            self.left -= 1
            if self.left == 0:
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                sys.settrace(None)
                self.fn()
        return self.line

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        self.left = 0
        sys.settrace(None)


class Threads(object):
    """Pauses threads started while it is installed at lines of kiel."""

    def __init__(self):
        self.stops = []                  # how many lines until each next pause
        self.count = 0
        self.reached, self.go = threading.Event(), threading.Event()
        self.where = []
        self.lock = threading.Lock()

    def install(self):
        threading.settrace(self.trace)

    def remove(self):
        threading.settrace(None)
        self.release(True)

    def trace(self, frame, event, arg):
        if not _relevant(frame.f_code) or threading.current_thread() is threading.main_thread():
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and self.stops:
            with self.lock:
                self.count += 1
                stop = bool(self.stops) and self.count >= self.stops[0]
                if stop:
                    self.stops.pop(0)
                    self.count = 0
                    self.where.append("%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                    self.go.clear()
                    self.reached.set()
            if stop:
                self.go.wait(5)          # not for good, the other side could wait for this one
        return self.line

    def arm(self, stops):
        with self.lock:
            self.count, self.where = 0, []
            self.reached.clear()
            self.stops = list(stops)

    def paused(self):
        return self.reached.is_set()

    def release(self, all=False):
        if all:
            self.stops = []
        self.reached.clear()
        self.go.set()


class Jitter(object):
    """Threads started while it is installed dawdle at some lines of kiel."""

    def __init__(self, rng, odds=.05, most=.004):
        self.rng, self.odds, self.most, self.n = rng, odds, most, 0
        self.budget = 60

    def trace(self, frame, event, arg):
        if not _relevant(frame.f_code) or threading.current_thread() is threading.main_thread():
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and self.budget > 0 and self.rng.random() < self.odds:
            self.budget -= 1
            self.n += 1
            time.sleep(self.rng.random() * self.most)
        return self.line

    def __enter__(self):
        threading.settrace(self.trace)
        return self

    def __exit__(self, *a):
        threading.settrace(None)
        self.budget = 0
