"""A single-node ZooKeeper stand-in speaking the real wire protocol.

Real kazoo clients connect to it over loopback.  It keeps the tree, sessions
with ephemeral nodes, one-shot watches and per-session ordering (an event is
sent before any later reply), records every write, and lets a test stall a
session's traffic, delay or fail operations, drop connections and expire
sessions.  Sessions never expire by time, only on request.
"""
import itertools
import os
import queue
import socket
import struct
import threading
import time

NONODE, EXISTS, BADVERSION, NOTEMPTY, NOCHILDREN, EXPIRED, UNIMPL = -101, -110, -103, -111, -108, -112, -6
OPS = {1: "create", 2: "delete", 3: "exists", 4: "get", 5: "set", 6: "getacl", 7: "setacl", 8: "children", 9: "sync",
       11: "ping", 12: "children2", 13: "check", 14: "multi", 15: "create2", -11: "close", 100: "auth", 101: "setwatches"}
WRITES = ("create", "delete", "set", "multi", "create2")


class ZkError(Exception):
    def __init__(self, code):
        self.code = code


class Node(object):
    __slots__ = ("data", "children", "czxid", "mzxid", "pzxid", "version", "cversion", "owner", "seq")

    def __init__(self, data, zxid, owner):
        self.data, self.czxid, self.mzxid, self.pzxid, self.owner = data, zxid, zxid, zxid, owner
        self.children, self.version, self.cversion, self.seq = set(), 0, 0, 0


class Session(object):
    def __init__(self, sid, timeout):
        self.id, self.timeout, self.passwd = sid, timeout, os.urandom(16)
        self.conn = None
        self.alive = True
        self.ended = None        # "close" or "expire"
        self.connected = 0

    def __repr__(self):
        return "<session %x%s>" % (self.id, "" if self.alive else " " + self.ended)


class Conn(object):
    def __init__(self, zk, sock, n):
        self.zk, self.sock, self.n = zk, sock, n
        self.session = None
        self.out = queue.Queue()
        self.open = True
        self.gate = threading.Event()
        self.gate.set()
        self.lag = None          # fn() -> seconds before each packet goes out
        threading.Thread(target=self._reader, daemon=True, name="zk server").start()
        threading.Thread(target=self._writer, daemon=True, name="zk server").start()

    def _read(self, n):
        b = b""
        while len(b) < n:
            c = self.sock.recv(n - len(b))
            if not c:
                raise OSError("closed")
            b += c
        return b

    def _reader(self):
        try:
            while True:
                n, = struct.unpack(">i", self._read(4))
                body = self._read(n)
                if self.session is None:
                    if not self.zk._connect(self, body):
                        break
                elif not self.zk._request(self, body):
                    break
        except OSError:
            pass
        finally:
            self.close()

    def _writer(self):
        while True:
            p = self.out.get()
            if p is None:
                break
            if self.lag:
                time.sleep(self.lag())
            self.gate.wait()
            try:
                self.sock.sendall(struct.pack(">i", len(p)) + p)
            except OSError:
                break
            self.zk.activity += 1
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()

    def send(self, p):
        self.out.put(p)

    def close(self, flush=False):
        with self.zk.lock:
            if not self.open:
                return
            self.open = False
            self.zk.conns.discard(self)
            for table in (self.zk.data_watches, self.zk.child_watches):
                for watchers in table.values():
                    watchers.discard(self)
            if self.session and self.session.conn is self:
                self.session.conn = None
        if not flush:
            self.gate.set()
            try:
                self.sock.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
        self.out.put(None)


class Reader(object):
    def __init__(self, b):
        self.b, self.o = b, 0

    def num(self, fmt):
        v, = struct.unpack_from(">" + fmt, self.b, self.o)
        self.o += struct.calcsize(">" + fmt)
        return v

    def buf(self):
        n = self.num("i")
        if n < 0:
            return None
        v = self.b[self.o:self.o + n]
        if len(v) != n:
            raise struct.error("short buffer")
        self.o += n
        return v

    def text(self):
        b = self.buf()
        return "" if b is None else b.decode("utf-8")

    def acls(self):
        for _ in range(self.num("i")):
            self.num("i"), self.text(), self.text()


def buf(b):
    return struct.pack(">i", -1) if b is None else struct.pack(">i", len(b)) + b


def text(s):
    return buf(s.encode("utf-8"))


class ZK(object):
    def __init__(self):
        self.lock = threading.RLock()
        self.nodes = {"/": Node(b"", 0, 0), "/zookeeper": Node(b"", 0, 0)}
        self.nodes["/"].children.add("zookeeper")
        self.sessions = {}
        self.conns = set()
        self.data_watches, self.child_watches = {}, {}
        self.zxid = 1
        self.log = []            # (n, session id, op, path, detail)
        self.activity = 0        # packets seen or sent
        self.refuse = False
        self.hook = None         # fn(session, op, path) -> None | "drop_before" | "drop_after" | int error | float delay
        self.lag = None
        self.total = 0
        self.opened = 0
        self._ids = itertools.count(0x1000)
        self._n = itertools.count()
        self.stopped = False
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.hosts = ["127.0.0.1:%d" % self.port]
        threading.Thread(target=self._accept, daemon=True, name="zk server").start()

    # ---------------------------------------------------------------- wiring
    def _accept(self):
        while not self.stopped:
            try:
                s, _ = self.sock.accept()
            except OSError:
                return
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if self.refuse or self.stopped:
                s.close()
                continue
            with self.lock:
                self.opened += 1
                c = Conn(self, s, self.opened)
                c.lag = self.lag
                self.conns.add(c)

    def _connect(self, conn, body):
        r = Reader(body)
        r.num("i"), r.num("q")
        timeout, sid, passwd = r.num("i"), r.num("q"), r.buf()
        with self.lock:
            self.activity += 1
            s = self.sessions.get(sid)
            if sid and (s is None or not s.alive or s.passwd != passwd):
                conn.session = Session(0, 0)
                conn.send(struct.pack(">iiq", 0, 0, 0) + buf(b"\0" * 16) + b"\0")
                self._note(s, "refused", "")
                conn.close(flush=True)
                return False
            if not sid:
                s = Session(next(self._ids), timeout)
                self.sessions[s.id] = s
            if s.conn:
                s.conn.close()
            conn.session, s.conn = s, conn
            s.connected += 1
            self._note(s, "connect", "")
            conn.send(struct.pack(">iiq", 0, s.timeout, s.id) + buf(s.passwd) + b"\0")
        return True

    def _note(self, session, op, path, detail=None):
        self.log.append((next(self._n), session.id if session else 0, op, path, detail))

    def trace(self):
        return ["zk %s" % (e,) for e in self.log[-200:]]

    # -------------------------------------------------------------- requests
    def _request(self, conn, body):
        r = Reader(body)
        xid, op = r.num("i"), OPS.get(r.num("i"), "?")
        s = conn.session
        self.activity += 1
        self.total += 1
        if op == "ping":
            with self.lock:
                conn.send(struct.pack(">iqi", -2, self.zxid, 0))
            return True
        verdict = None
        if self.hook and op != "close":
            o = r.o
            path = r.text() if op not in ("multi", "auth", "setwatches") else ""
            r.o = o
            verdict = self.hook(s, op, path)
            if isinstance(verdict, float):
                time.sleep(verdict)
                verdict = None
        if verdict == "drop_before":
            return False
        with self.lock:
            if not conn.open or not s.alive:
                return False
            if isinstance(verdict, int):
                err, out = verdict, b""
            else:
                try:
                    err, out = 0, self._apply(conn, s, op, r)
                except ZkError as e:
                    err, out = e.code, b""
                    if op == "multi":
                        raise
            if verdict == "drop_after":
                return False
            if op == "close":
                conn.send(struct.pack(">iqi", xid, self.zxid, 0))
                self._end(s, "close")
                conn.close(flush=True)
                return False
            conn.send(struct.pack(">iqi", xid, self.zxid, err) + out)
        return True

    def _apply(self, conn, s, op, r):
        if op in ("create", "create2"):
            path, data = r.text(), r.buf()
            r.acls()
            path = self._create(s, path, data, r.num("i"))
            return text(path) + (self._stat(path) if op == "create2" else b"")
        if op == "delete":
            path = r.text()
            self._delete(s, path, r.num("i"))
            return b""
        if op in ("exists", "get"):
            path, watch = r.text(), r.num("?")
            if path not in self.nodes:
                if watch and op == "exists":
                    self.data_watches.setdefault(path, set()).add(conn)
                raise ZkError(NONODE)
            if watch:
                self.data_watches.setdefault(path, set()).add(conn)
            return (buf(self.nodes[path].data) if op == "get" else b"") + self._stat(path)
        if op == "set":
            path, data = r.text(), r.buf()
            self._set(s, path, data, r.num("i"))
            return self._stat(path)
        if op in ("children", "children2"):
            path, watch = r.text(), r.num("?")
            n = self._node(path)
            if watch:
                self.child_watches.setdefault(path, set()).add(conn)
            names = list(n.children)
            return struct.pack(">i", len(names)) + b"".join(text(c) for c in names) + \
                (self._stat(path) if op == "children2" else b"")
        if op == "sync":
            return text(r.text())
        if op == "multi":
            return self._multi(s, r)
        if op == "close":
            return b""
        if op == "getacl":
            return struct.pack(">ii", 1, 31) + text("world") + text("anyone") + self._stat(r.text())
        if op == "auth":
            return b""
        raise ZkError(UNIMPL)

    def _multi(self, s, r):
        ops = []
        while True:
            t, done = r.num("i"), r.num("?")
            r.num("i")
            if done:
                break
            name = OPS.get(t)
            path = r.text()
            if name in ("create", "create2"):
                data = r.buf()
                r.acls()
                ops.append((t, name, path, data, r.num("i")))
            elif name == "set":
                data = r.buf()
                ops.append((t, name, path, data, r.num("i")))
            else:
                ops.append((t, name, path, None, r.num("i")))
        # validate on a copy, then apply: nothing is visible of a failed one
        fail = self._dry(s, ops)
        out = b""
        if fail is not None:
            i, code = fail
            for j in range(len(ops)):
                out += struct.pack(">i?i", -1, False, 0) + struct.pack(">i", 0 if j < i else code if j == i else -2)
        else:
            for t, name, path, data, arg in ops:
                out += struct.pack(">i?i", t, False, 0)
                if name in ("create", "create2"):
                    out += text(self._create(s, path, data, arg))
                elif name == "delete":
                    self._delete(s, path, arg)
                elif name == "set":
                    self._set(s, path, data, arg)
                    out += self._stat(path)
        self._note(s, "multi", [(o[1], o[2]) for o in ops], fail)
        return out + struct.pack(">i?i", -1, True, -1)

    def _dry(self, s, ops):
        present = {}

        def there(p):
            return present.get(p, p in self.nodes)
        for i, (t, name, path, data, arg) in enumerate(ops):
            parent = path.rsplit("/", 1)[0] or "/"
            if name in ("create", "create2"):
                if not there(parent):
                    return i, NONODE
                if there(path) and not arg & 2:
                    return i, EXISTS
                present[path] = True
            elif not there(path):
                return i, NONODE
            elif name == "delete":
                if path in self.nodes and self.nodes[path].children:
                    return i, NOTEMPTY
                present[path] = False
            if name in ("delete", "set", "check") and arg != -1 and path in self.nodes and self.nodes[path].version != arg:
                return i, BADVERSION
        return None

    # ------------------------------------------------------------------ tree
    def _node(self, path):
        if path not in self.nodes:
            raise ZkError(NONODE)
        return self.nodes[path]

    def _stat(self, path):
        n = self._node(path)
        return struct.pack(">qqqqiiiqiiq", n.czxid, n.mzxid, 0, 0, n.version, n.cversion, 0, n.owner,
                           len(n.data or b""), len(n.children), n.pzxid)

    def _create(self, s, path, data, flags):
        parent, _, name = path.rpartition("/")
        parent = parent or "/"
        p = self._node(parent)
        if p.owner:
            raise ZkError(NOCHILDREN)
        if flags & 2:
            path += "%010d" % p.seq
            name = path.rpartition("/")[2]
        if path in self.nodes:
            raise ZkError(EXISTS)
        p.seq += 1
        self.zxid += 1
        self.nodes[path] = Node(data, self.zxid, s.id if flags & 1 else 0)
        p.children.add(name)
        p.cversion += 1
        p.pzxid = self.zxid
        self._note(s, "create", path, data if not flags & 1 else "ephemeral")
        self._fire(self.data_watches, path, 1)
        self._fire(self.child_watches, parent, 4)
        return path

    def _delete(self, s, path, version):
        n = self._node(path)
        if version not in (-1, n.version):
            raise ZkError(BADVERSION)
        if n.children:
            raise ZkError(NOTEMPTY)
        parent, _, name = path.rpartition("/")
        parent = parent or "/"
        p = self.nodes[parent]
        self.zxid += 1
        del self.nodes[path]
        p.children.discard(name)
        p.cversion += 1
        p.pzxid = self.zxid
        self._note(s, "delete", path)
        both = self.data_watches.pop(path, set()) | self.child_watches.pop(path, set())
        self._event(both, path, 2)
        self._fire(self.child_watches, parent, 4)

    def _set(self, s, path, data, version):
        n = self._node(path)
        if version not in (-1, n.version):
            raise ZkError(BADVERSION)
        self.zxid += 1
        n.data, n.mzxid = data, self.zxid
        n.version += 1
        self._note(s, "set", path, data)
        self._fire(self.data_watches, path, 3)

    def _fire(self, table, path, kind):
        self._event(table.pop(path, ()), path, kind)

    def _event(self, conns, path, kind):
        for c in sorted(conns, key=lambda c: c.n):
            self._note(c.session, "event%d" % kind, path)
            c.send(struct.pack(">iqi", -1, -1, 0) + struct.pack(">ii", kind, 3) + text(path))

    def _end(self, s, how):
        s.alive, s.ended = False, how
        self._note(s, how, "")
        for path in sorted(p for p, n in self.nodes.items() if n.owner == s.id):
            self._delete(s, path, -1)

    # --------------------------------------------------------------- control
    def expire(self, s):
        with self.lock:
            if s.alive:
                self._end(s, "expire")
                if s.conn:
                    s.conn.close()

    def drop(self, s):
        with self.lock:
            if s.conn:
                s.conn.close()

    def stall(self, s):
        with self.lock:
            if s.conn:
                s.conn.gate.clear()

    def release(self, s=None):
        with self.lock:
            for c in list(self.conns):
                if s is None or c.session is s:
                    c.gate.set()

    def live(self):
        with self.lock:
            return [s for s in self.sessions.values() if s.alive]

    def session_of(self, client):
        cid = client.client_id
        return self.sessions.get(cid[0]) if cid else None

    def children(self, path):
        with self.lock:
            return sorted(self.nodes[path].children) if path in self.nodes else []

    def data(self, path):
        with self.lock:
            return self.nodes[path].data if path in self.nodes else None

    def owner(self, path):
        with self.lock:
            return self.nodes[path].owner if path in self.nodes else None

    # writes by an outside party (another tool or member), with their events
    def put(self, path, data):
        with self.lock:
            other = Session(0, 0)
            parts = path.strip("/").split("/")
            for i in range(1, len(parts)):
                p = "/" + "/".join(parts[:i])
                if p not in self.nodes:
                    self._create(other, p, b"", 0)
            if path in self.nodes:
                self._set(other, path, data, -1)
            else:
                self._create(other, path, data, 0)

    def ghost(self, path):
        """Leaves an ephemeral node behind as a crashed process would."""
        with self.lock:
            s = Session(next(self._ids), 10000)
            self.sessions[s.id] = s
            parent = path.rpartition("/")[0]
            if parent not in self.nodes:
                self.put(parent, b"")
            if path in self.nodes:
                self._delete(s, path, -1)
            self._create(s, path, b"", 1)
            return s

    def remove(self, path):
        with self.lock:
            if path in self.nodes:
                self._delete(Session(0, 0), path, -1)

    def quiet(self, still=0.03, timeout=5.0):
        """Waits until nothing was sent or received for ``still`` seconds."""
        end = time.monotonic() + timeout
        last, since = self.activity, time.monotonic()
        while time.monotonic() < end:
            time.sleep(0.003)
            if self.activity != last or any(c.out.qsize() for c in list(self.conns)):
                last, since = self.activity, time.monotonic()
            elif time.monotonic() - since >= still:
                return True
        return False

    def stop(self):
        self.stopped = True
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
        for c in list(self.conns):
            c.close()


def until(fn, timeout=20.0, step=0.002):
    """Polls ``fn`` -> its last value; real time (kazoo's threads)."""
    end = time.monotonic() + timeout
    while True:
        v = fn()
        if v or time.monotonic() >= end:
            return v
        time.sleep(step)
