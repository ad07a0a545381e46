"""A fake multi-broker Kafka cluster on real loopback sockets.

Speaks the v0 protocol through kv.wire (no kiel code), runs on the same event
loop as the client under test, executes a fault plan, and records every event
for the offline oracles.
"""
import asyncio
import socket
import struct

from . import wire
from .loop import Livelock
from .runner import Violation


class Partition(object):
    def __init__(self, pid, leader):
        self.pid, self.leader = pid, leader
        self.start = 0          # log start offset
        self.batches = []       # [(codec, [(offset, key, value)])]
        self.end = 0
        self.gap_after = {}

    def append(self, items, codec=0, gap=0, holes=None, **kw):
        """items: [(key, value)] -> base offset; holes: what compaction left out before each but the first."""
        base = self.end + gap
        recs, at = [], base
        for i, (k, v) in enumerate(items):
            if i and holes:
                at += holes[i - 1]
            recs.append((at, k, v))
            at += 1
        self.batches.append((codec, recs, kw))
        self.end = at
        return base

    def records(self):
        return [r for _, recs, _ in self.batches for r in recs if r[0] >= self.start]

    def entries(self, offset):
        """Encoded entries as a v0 broker would send them from ``offset``."""
        for codec, recs, kw in self.batches:
            if recs[-1][0] < offset:
                continue
            if codec == 0:
                for o, k, v in recs:
                    if o >= offset:
                        yield wire.entry(o, wire.message(k, v))
            else:  # a wrapper is always returned whole
                yield wire.wrapped(codec, recs, **kw)

    def fetch(self, offset, max_bytes, whole_first=False):
        """What fits in ``max_bytes``; newer brokers never cut the first entry."""
        out = b""
        for e in self.entries(offset):
            if whole_first and not out:
                max_bytes = max(max_bytes, len(e))
            out += e
            if len(out) >= max_bytes:
                break
        return out[:max_bytes]


class Action(object):
    """What a broker does with one request."""

    def __init__(self, mode="ok", delay=0.0, errors=None, cut=None, raw=None, chunks=None, error=None, edit=None):
        self.mode = mode        # ok | drop_before | drop_after | partial | raw | hold | reset_before
        self.delay = delay
        self.errors = errors or {}   # (topic, pid) -> code
        self.error = error           # top-level code (coordinator) / topic-level
        self.cut = cut               # bytes of the framed response to send (partial)
        self.append = False          # codes 7 and 20 may report what was appended
        self.raw = raw
        self.chunks = chunks         # segment sizes
        self.edit = edit             # fn(body dict) -> body dict

    def __repr__(self):
        return "Action(%s)" % ", ".join("%s=%r" % kv for kv in sorted(self.__dict__.items())
                                         if kv[1] not in (None, {}, 0.0))


class Ctx(object):
    """One request as the broker sees it."""
    __slots__ = ("broker", "conn", "api", "corr", "body", "n", "api_n", "action", "response")

    def __repr__(self):
        return "<%s #%d b%s c%s>" % (self.api, self.n, self.broker.id, self.conn.cid)


class Proto(asyncio.Protocol):
    def __init__(self, broker):
        self.broker, self.cluster = broker, broker.cluster
        self.buf = b""
        self.closed = self.cut = False
        self.queue = []
        self.outq = []

    def connection_made(self, transport):
        self.transport = transport
        self.cid = self.cluster.next_cid()
        self.broker.conns.add(self)
        self.cluster.event("open", self.broker.id, self.cid)
        try:
            transport.get_extra_info("socket").setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        except OSError:
            pass
        if not self.broker.up:
            transport.abort()
            return
        hook = self.cluster.on_accept
        if hook and hook(self) == "close":
            self.close()

    def connection_lost(self, exc):
        if not self.closed:
            self.closed = True
        self.broker.conns.discard(self)
        if self.cluster.on_conn_gone:
            self.cluster.on_conn_gone(self)
        self.cluster.event("gone", self.broker.id, self.cid)

    def data_received(self, data):
        if self.closed:
            return
        try:
            # acknowledge right away, else Nagle's algorithm holds back what
            # the client writes next for some real time
            self.transport.get_extra_info("socket").setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
        except OSError:
            pass
        self.cluster.raw_bytes += len(data)
        self.buf += data
        while len(self.buf) >= 4 and not self.closed:
            size = struct.unpack(">i", self.buf[:4])[0]
            if size < 8 or size > 64 * 1024 * 1024:
                self.cluster.fail("request frame announces %d bytes" % size)
                return
            if len(self.buf) < 4 + size:
                return
            frame, self.buf = self.buf[4:4 + size], self.buf[4 + size:]
            self.cluster.handle(self, frame)

    def close(self):
        self.closed = True
        self.transport.close()

    def reset(self):
        self.closed = True
        try:
            sock = self.transport.get_extra_info("socket")
            sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.transport.abort()

    def write(self, data, chunks=None):
        """Writes in order; ``chunks`` spreads the data over segments in time."""
        pieces, pos = [], 0
        for size in chunks or ():
            if pos >= len(data):
                break
            pieces.append(data[pos:pos + size])
            pos += size
        if pos < len(data) or not data:
            pieces.append(data[pos:])
        if not self.outq and len(pieces) == 1:
            self._write(data)
            return
        idle = not self.outq
        self.outq.extend(pieces)
        if idle:
            self._pump()

    def _pump(self):
        if self.outq:
            self._write(self.outq.pop(0))
        if self.outq:
            self.cluster.loop.call_later(0.001, self._pump)

    def _write(self, data):
        if not self.closed and not self.transport.is_closing():
            self.transport.write(data)

    def close_after_queue(self):
        if self.outq:
            self.cluster.loop.call_later(0.001, self.close_after_queue)
        else:
            self.cluster.loop.call_later(0.001, self.close)


class Broker(object):
    def __init__(self, cluster, bid, host="127.0.0.1", port=0):
        self.cluster, self.id, self.host = cluster, bid, host
        self.conns = set()
        self.up = False
        self.server = None
        # a bound, never listening socket keeps the port ours while down
        self.hold = socket.socket()
        self.hold.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.hold.bind((host, port))
        self.port = self.hold.getsockname()[1]

    @property
    def addr(self):
        return "%s:%d" % (self.host, self.port)

    def start(self):
        """Starts listening right away (synchronously)."""
        if self.up:
            return
        self.up = True
        loop = self.cluster.loop
        sock = socket.socket()
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        sock.setblocking(False)
        sock.bind((self.host, self.port))
        sock.listen(128)
        self.lsock = sock
        loop.add_reader(sock.fileno(), self._accept, sock)

    def _accept(self, sock):
        for _ in range(64):
            try:
                conn, _ = sock.accept()
            except (BlockingIOError, InterruptedError, ConnectionAbortedError):
                return
            conn.setblocking(False)
            self.cluster.connections += 1
            self.cluster.loop.create_task(self._wrap(conn))

    async def _wrap(self, conn):
        await self.cluster.loop.connect_accepted_socket(lambda: Proto(self), conn)

    def stop(self, reset=False):
        if not self.up:
            return
        self.up = False
        self.cluster.event("down", self.id)
        self.cluster.loop.remove_reader(self.lsock.fileno())
        self.lsock.close()
        for c in list(self.conns):
            (c.reset if reset else c.close)()

    def dispose(self):
        self.stop()
        for c in list(self.conns):
            c.closed = True
            c.transport.abort()
        self.hold.close()


class Cluster(object):
    """State, fault plan and event log."""

    def __init__(self, loop, n_brokers=1, ids=None):
        self.loop = loop
        self.events = []
        self.brokers = {}
        self.topics = {}
        self.committed = {}      # (group, topic, pid) -> (offset, metadata)
        self.coordinator = None
        self.stranger = 16      # what a broker that is not the coordinator answers
        self.plan = None         # fn(Ctx) -> Action or None
        self.on_accept = None
        self.on_request = self.on_sent = self.on_append = self.on_conn_gone = None  # ledger hooks
        self.on_applied = None   # fn(Ctx) after a request took effect
        self.metadata_view = None  # fn(body, ctx) -> body
        self.reported = None     # broker ids listed in metadata (None: those up)
        self.time_offsets = {}   # (topic, pid, time) -> offset
        self.auto_create = None  # fn(name) -> partition count or None
        self.requests = 0
        self.per_api = {}
        self.connections = 0
        self.raw_bytes = 0
        self.max_requests = 4000
        self.whole_first = False
        self.problem = None
        self.task = None
        self.in_order = True
        self.keep_bodies = True
        self._cid = 0
        self._tags = {}
        self.client_ids = set()
        self.corrs = {}
        self.frames = None       # set to [] to keep (cid, frame bytes)
        for bid in (ids or range(1, n_brokers + 1)):
            self.add_broker(bid)

    # ------------------------------------------------------------- topology
    def add_broker(self, bid, start=True, host="127.0.0.1", port=0):
        b = self.brokers[bid] = Broker(self, bid, host, port)
        if start:
            b.start()
        if self.coordinator is None:
            self.coordinator = bid
        return b

    def add_topic(self, name, leaders):
        """leaders: {pid: broker id} or list."""
        if not isinstance(leaders, dict):
            leaders = dict(enumerate(leaders))
        self.topics[name] = {pid: Partition(pid, b) for pid, b in leaders.items()}

    def part(self, topic, pid):
        return self.topics[topic][pid]

    @property
    def hosts(self):
        return [b.addr for b in self.brokers.values()]

    def open_conns(self):
        return [c for b in self.brokers.values() for c in b.conns if not c.closed]

    def dispose(self):
        for b in self.brokers.values():
            b.dispose()

    # ---------------------------------------------------------------- events
    def next_cid(self):
        self._cid += 1
        return self._cid

    def event(self, kind, *args):
        self.events.append((kind, round(self.loop.time(), 6)) + args)

    def trace(self):
        out = []
        for e in self.events[-400:]:
            s = repr(e)
            out.append(s if len(s) < 600 else s[:600] + "...")
        return out

    def fail(self, message):
        """Records a protocol-level violation seen by a broker."""
        if self.problem is None:
            self.problem = message
        self.event("violation", message)
        if self.task is not None:
            self.task.cancel("problem")

    # -------------------------------------------------------------- requests
    def handle(self, conn, frame):
        self.requests += 1
        if self.frames is not None:
            self.frames.append((conn.cid, frame))
        if self.requests > self.max_requests:
            self.fail("livelock: more than %d requests for a workload that needs far fewer" % self.max_requests)
            for b in self.brokers.values():
                b.stop()
            return
        try:
            api, version, corr, client, body = wire.dec_request(frame)
        except wire.WireError as e:
            self.fail("broker cannot decode request: %s (%s)" % (e, frame[:80].hex()))
            return
        if version != 0:
            self.fail("%s request has api version %d" % (api, version))
            return
        self.client_ids.add(client)
        key = (conn.cid, corr)
        if key in self.corrs:
            self.fail("correlation id %d used twice on one connection" % corr)
            return
        self.corrs[key] = api
        ctx = Ctx()
        ctx.broker, ctx.conn, ctx.api, ctx.corr, ctx.body = conn.broker, conn, api, corr, body
        ctx.n = self.requests
        ctx.api_n = self.per_api[api] = self.per_api.get(api, 0) + 1
        ctx.response = None
        if api == "produce":
            for t in body["topics"]:
                for p in t["partitions"]:
                    try:
                        p["messages"] = wire.read_set(p["message_set"])
                    except wire.WireError as e:
                        self.fail("produce request carries a malformed message set: %s" % e)
                        return
                    p["codecs"] = sorted({m[1] for m in p["messages"]})
        self.event("req", ctx.broker.id, conn.cid, corr, api, self._brief(api, body))
        if self.on_request:
            self.on_request(ctx)
        action = (self.plan(ctx) if self.plan else None) or Action()
        ctx.action = action
        if action.mode in ("drop_before", "reset_before"):
            self.event("drop_before", ctx.broker.id, conn.cid, corr)
            conn.reset() if action.mode == "reset_before" else conn.close()
            return
        if action.mode == "hold":
            self.event("hold", conn.cid, corr)
            return
        response = getattr(self, "do_" + api)(ctx, body, action)
        ctx.response = response
        if self.on_applied:
            self.on_applied(ctx)
        if response is None:
            return
        if action.edit:
            response = action.edit(response)
        if action.raw is not None:
            data = action.raw(ctx, response) if callable(action.raw) else action.raw
        else:
            payload = struct.pack(">i", corr) + wire.enc(wire.RESPONSES[api], response)
            data = struct.pack(">i", len(payload)) + payload
        self.reply(ctx, data)

    def reply(self, ctx, data):
        """Sends, in order per connection, after the action's delay."""
        action, conn = ctx.action, ctx.conn
        item = [False, ctx, data]
        conn.queue.append(item)

        def ready():
            item[0] = True
            while conn.queue and (conn.queue[0][0] or not self.in_order):
                if not self.in_order:
                    nxt = item
                    if nxt not in conn.queue:
                        return
                    conn.queue.remove(nxt)
                    self._send(*nxt[1:])
                    return
                _, c, d = conn.queue.pop(0)
                self._send(c, d)

        if action.delay:
            self.loop.call_later(action.delay, ready)
        else:
            ready()

    def _send(self, ctx, data):
        action, conn = ctx.action, ctx.conn
        if conn.closed or conn.cut:
            self.event("unsent", conn.cid, ctx.corr)
            return
        if action.mode == "drop_after":
            self.event("drop_after", conn.cid, ctx.corr)
            conn.close()
            return
        if action.mode == "reset_after":
            self.event("reset_after", conn.cid, ctx.corr)
            conn.reset()
            return
        if action.mode == "partial":
            cut = max(0, min(action.cut if action.cut is not None else len(data) // 2, len(data) - 1))
            conn.cut = True  # nothing may follow, it would complete the frame
            self.event("partial", conn.cid, ctx.corr, cut, len(data))
            conn.write(data[:cut])
            # let the client read the fragment before the connection goes
            conn.close_after_queue()
            return
        if self.on_sent:
            self.on_sent(ctx, "resp")
        self.event("resp", ctx.broker.id, conn.cid, ctx.corr, ctx.api, self._brief_r(ctx.api, ctx.response))
        conn.write(data, action.chunks)

    def _brief(self, api, body):
        if api == "produce":
            return {(t["name"], p["partition_id"]): [(m[2], m[3]) for m in p["messages"]][:20]
                    for t in body["topics"] for p in t["partitions"]}
        if api == "fetch":
            return {(t["name"], p["partition_id"]): p["offset"] for t in body["topics"] for p in t["partitions"]}
        if api == "offset":
            return {(t["name"], p["partition_id"]): p["time"] for t in body["topics"] for p in t["partitions"]}
        if api == "offset_commit":
            return {(t["name"], p["partition_id"]): (p["offset"], p["metadata"])
                    for t in body["topics"] for p in t["partitions"]}
        if api == "offset_fetch":
            return {t["name"]: t["partitions"] for t in body["topics"]}
        return body

    def _brief_r(self, api, body):
        if api == "fetch" and isinstance(body, dict):
            return {(t["name"], p["partition_id"]): (p["error_code"], len(p["message_set"]))
                    for t in body["topics"] for p in t["partitions"]}
        return body

    # ------------------------------------------------------------------ apis
    def do_metadata(self, ctx, body, action):
        ids = self.reported if self.reported is not None else [i for i, b in self.brokers.items() if b.up]
        brokers = [{"broker_id": i, "host": self.brokers[i].host, "port": self.brokers[i].port} for i in ids]
        names = body["topics"] or list(self.topics)
        out = []
        for name in names:
            if name not in self.topics and self.auto_create and body["topics"]:
                n = self.auto_create(name)
                if n:
                    self.add_topic(name, n)
            if name not in self.topics:
                out.append({"error_code": 3, "name": name, "partitions": []})
                continue
            parts = []
            for pid, p in self.topics[name].items():
                live = p.leader in ids
                parts.append({"error_code": 0 if live else 5, "partition_id": pid,
                              "leader": p.leader if live else -1,
                              "replicas": [p.leader], "isrs": [p.leader]})
            out.append({"error_code": 0, "name": name, "partitions": parts})
        view = {"brokers": brokers, "topics": out}
        if self.metadata_view:
            view = self.metadata_view(view, ctx) or view
        return view

    def _code(self, ctx, action, topic, pid):
        """-> override code or None; plus leadership check."""
        code = action.errors.get((topic, pid))
        if code is None:
            code = action.errors.get("*")
        if code is not None:
            return code
        if topic not in self.topics or pid not in self.topics[topic]:
            return 3
        if self.topics[topic][pid].leader != ctx.broker.id:
            return 6
        return 0

    def do_produce(self, ctx, body, action):
        topics = []
        for t in body["topics"]:
            parts = []
            for p in t["partitions"]:
                code = self._code(ctx, action, t["name"], p["partition_id"])
                base = -1
                if code in (0, 7, 20) and t["name"] in self.topics and p["partition_id"] in self.topics[t["name"]] \
                        and self.topics[t["name"]][p["partition_id"]].leader == ctx.broker.id:
                    # request_timed_out / not_enough_replicas_after_append may have appended
                    part = self.topics[t["name"]][p["partition_id"]]
                    if code == 0 or action.append:
                        items = [(m[2], m[3]) for m in p["messages"]]
                        if items:
                            if self.on_append:
                                self.on_append(ctx, t["name"], p["partition_id"], items)
                            base = part.append(items, p["codecs"][0] if p["codecs"] else 0)
                            self.event("append", ctx.broker.id, t["name"], p["partition_id"], base, items[:20])
                parts.append({"partition_id": p["partition_id"], "error_code": code, "offset": base})
            topics.append({"name": t["name"], "partitions": parts})
        return {"topics": topics}

    def do_fetch(self, ctx, body, action):
        topics = []
        for t in body["topics"]:
            parts = []
            for p in t["partitions"]:
                pid = p["partition_id"]
                code = self._code(ctx, action, t["name"], pid)
                data, hw = b"", -1
                if code == 0:
                    part = self.topics[t["name"]][pid]
                    hw = part.end
                    if p["offset"] < part.start or p["offset"] > part.end:
                        code = 1
                    else:
                        data = part.fetch(p["offset"], p["max_bytes"], self.whole_first)
                parts.append({"partition_id": pid, "error_code": code, "highwater_mark_offset": hw,
                              "message_set": data})
            topics.append({"name": t["name"], "partitions": parts})
        return {"topics": topics}

    def do_offset(self, ctx, body, action):
        topics = []
        for t in body["topics"]:
            parts = []
            for p in t["partitions"]:
                pid = p["partition_id"]
                code = self._code(ctx, action, t["name"], pid)
                offs = []
                if code == 0:
                    part = self.topics[t["name"]][pid]
                    if p["time"] == -1:
                        offs = [part.end]
                    elif p["time"] == -2:
                        offs = [part.start]
                    else:
                        offs = [self.time_offset(t["name"], pid, p["time"])]
                    offs = offs[:p["max_offsets"]]
                parts.append({"partition_id": pid, "error_code": code, "offsets": offs})
            topics.append({"name": t["name"], "partitions": parts})
        return {"topics": topics}

    def time_offset(self, topic, pid, t):
        part = self.topics[topic][pid]
        span = part.end - part.start + 1
        return part.start + (t * 31 + pid * 7) % span

    def do_group_coordinator(self, ctx, body, action):
        code = action.error
        if code is None:
            code = 0 if self.coordinator is not None and self.brokers[self.coordinator].up else 15
        if code:
            return {"error_code": code, "coordinator_id": -1, "coordinator_host": "", "coordinator_port": -1}
        b = self.brokers[self.coordinator]
        return {"error_code": 0, "coordinator_id": b.id, "coordinator_host": b.host, "coordinator_port": b.port}

    def do_offset_fetch(self, ctx, body, action):
        topics = []
        for t in body["topics"]:
            parts = []
            for pid in t["partitions"]:
                code = action.errors.get((t["name"], pid), action.errors.get("*"))
                if code is None:
                    code = 0 if ctx.broker.id == self.coordinator else self.stranger
                off, meta = -1, ""
                if code == 0:
                    key = (body["group_name"], t["name"], pid)
                    if key in self.committed:
                        off, meta = self.committed[key]
                    else:
                        code = 3
                parts.append({"partition_id": pid, "offset": off, "metadata": meta, "error_code": code})
            topics.append({"name": t["name"], "partitions": parts})
        return {"topics": topics}

    def do_offset_commit(self, ctx, body, action):
        topics = []
        for t in body["topics"]:
            parts = []
            for p in t["partitions"]:
                code = action.errors.get((t["name"], p["partition_id"]), action.errors.get("*"))
                if code is None:
                    code = 0 if ctx.broker.id == self.coordinator else self.stranger
                if code == 0:
                    self.committed[(body["group"], t["name"], p["partition_id"])] = (p["offset"], p["metadata"])
                    self.event("committed", t["name"], p["partition_id"], p["offset"])
                parts.append({"partition_id": p["partition_id"], "error_code": code})
            topics.append({"name": t["name"], "partitions": parts})
        return {"topics": topics}
