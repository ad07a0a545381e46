"""Offline/online checker for what a consumer returns of each partition's log."""
import collections
import json

FALSY = {"false": False, "0": 0, '""': "", "[]": [], "{}": {}, "0.0": 0.0}


def kind(v):
    return json.dumps(v)


class Logs(object):
    """Fills logs with identifiable and anonymous JSON values."""

    def __init__(self, ctx, cl, rng):
        self.ctx, self.cl, self.rng = ctx, cl, rng
        self.text = collections.defaultdict(dict)   # (topic, pid) -> offset -> value bytes
        self.falsy = rng.random() < .4
        self.big = rng.random() < .3
        self.compressed = rng.random() < .6
        self.compacted = rng.random() < .5
        self.short = False                    # every entry below 450 bytes

    def value(self, topic, pid, offset):
        rng = self.rng
        r = rng.random()
        if self.falsy and r < .3:
            return rng.choice(list(FALSY) + ["null", "null"]).encode()
        if r > .97:
            return None                   # a tombstone: nothing to deserialize
        v = {"t": topic, "p": pid, "o": offset}
        if self.big and rng.random() < .3:
            v["x"] = "".join(rng.choice("abcdefgh\u00e9") for _ in range(rng.choice((50, 400, 3000))))
        if rng.random() < .1:
            v["n"] = [None, 1.5, {"\u65e5": "\U0001f600"}]
        return json.dumps(v, ensure_ascii=rng.random() < .5).encode("utf-8")

    def fill(self, topic, pid, n):
        rng, part = self.rng, self.cl.topics[topic][pid]
        while n > 0:
            k = min(n, rng.choice((1, 1, 2, 3) if self.short else (1, 1, 2, 3, 7)))
            n -= k
            gap = rng.choice((0, 0, 0, 0, 0, 1, 4)) if part.end else 0
            base = part.end + gap
            items, holes, at = [], [], base
            for i in range(k):
                if i:
                    holes.append(rng.choice((0, 0, 1, 5)) if self.compacted else 0)
                    at += holes[-1]
                v = self.value(topic, pid, at)
                self.text[(topic, pid)][at] = v
                at += 1
                items.append((rng.choice((None, b"k", b"\xff")), v))
            codec = rng.choice((1, 2)) if self.compressed and rng.random() < .5 else 0
            part.append(items, codec, gap=gap, holes=holes)


class Tracker(object):
    """Compares returned values with the logs, in order and by number."""

    def __init__(self, ctx, logs):
        self.ctx, self.logs = ctx, logs
        self.start = {}                      # (topic, pid) -> offset
        self.last = {}                       # (topic, pid) -> last identified offset returned
        self.anon = collections.defaultdict(collections.Counter)   # topic -> kind -> number
        self.returned = collections.Counter()

    def begin(self, topic, starts):
        for pid, off in starts.items():
            self.start[(topic, pid)] = off

    def due(self, topic, pid, lo=None):
        """[(offset, value)] that have to be returned from lo on."""
        out = []
        if lo is None and (topic, pid) not in self.start:   # not asked for yet
            return out
        for off, raw in sorted(self.logs.text[(topic, pid)].items()):
            if off < (self.start[(topic, pid)] if lo is None else lo) or raw is None:
                continue
            v = json.loads(raw)
            if v is None:
                continue
            out.append((off, v))
        return out

    def take(self, topic, values, label):
        ctx = self.ctx
        ctx.check(isinstance(values, list), "%s: consume returned %r", label, values)
        for v in values:
            ctx.check(v is not None, "%s: consume returned a null", label)
            self.returned[topic] += 1
            ctx.count("returned")
            if not (isinstance(v, dict) and "o" in v):
                self.anon[topic][kind(v)] += 1
                continue
            tp = (v["t"], v["p"])
            ctx.check(v["t"] == topic, "%s: consuming %s returned %r", label, topic, v)
            raw = self.logs.text[tp].get(v["o"])
            ctx.check(raw is not None and json.loads(raw) == v, "%s: returned %r, the log holds %r", label, v, raw)
            lo = self.last.get(tp, self.start[tp] - 1)
            ctx.check(v["o"] > lo, "%s: %s|%d returned offset %d after %d (start %d)", label, topic, v["p"], v["o"], lo, self.start[tp])
            missed = [o for o, w in self.due(topic, v["p"], lo + 1) if o < v["o"] and isinstance(w, dict) and "o" in w]
            ctx.check(not missed, "%s: %s|%d returned offset %d, skipping %r", label, topic, v["p"], v["o"], missed)
            self.last[tp] = v["o"]

    def expected_anon(self, topic, pids):
        c = collections.Counter()
        for pid in pids:
            for _, v in self.due(topic, pid):
                if not (isinstance(v, dict) and "o" in v):
                    c[kind(v)] += 1
        return c

    def left(self, topic, pids):
        return sum(len(self.due(topic, pid)) if (topic, pid) in self.start else 1 + len(self.logs.text[(topic, pid)])
                   for pid in pids) - self.returned[topic]

    def not_beyond(self, topic, pids, label):
        want = self.expected_anon(topic, pids)
        for k, n in self.anon[topic].items():
            self.ctx.check(n <= want[k], "%s: value %s of topic %s was returned %d times, the logs hold it %d times", label, k, topic, n, want[k])

    def complete(self, topic, pids, label):
        for pid in pids:
            self.ctx.check((topic, pid) in self.start, "%s: %s|%d was never fetched", label, topic, pid)
            due = [o for o, v in self.due(topic, pid) if isinstance(v, dict) and "o" in v]
            if due:
                self.ctx.check(self.last.get((topic, pid)) == due[-1], "%s: %s|%d was returned up to %r, the log goes to %d", label, topic, pid,
                               self.last.get((topic, pid)), due[-1])
        want = self.expected_anon(topic, pids)
        self.ctx.check(+self.anon[topic] == +want, "%s: topic %s: values %r were returned, the logs hold %r", label, topic, dict(self.anon[topic]), dict(want))
        self.ctx.count("logs_completed", len(pids))
