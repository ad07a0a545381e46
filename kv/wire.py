"""Independent implementation of the Kafka v0 wire format (no kiel code)."""
import gzip
import io
import struct
import zlib


class WireError(Exception):
    """Bytes that do not follow the protocol."""


# --------------------------------------------------------------- schema types
def arr(t):
    return ("arr", t)


I8, I16, I32, I64, STR, BYTES, MSGSET = "i8", "i16", "i32", "i64", "str", "bytes", "msgset"
FMT = {I8: ">b", I16: ">h", I32: ">i", I64: ">q"}

API_KEYS = {
    "produce": 0, "fetch": 1, "offset": 2, "metadata": 3, "offset_commit": 8,
    "offset_fetch": 9, "group_coordinator": 10, "join_group": 11, "heartbeat": 12,
    "leave_group": 13, "sync_group": 14, "describe_groups": 15, "list_groups": 16,
}
API_NAMES = {v: k for k, v in API_KEYS.items()}


def topics(part):
    return arr([("name", STR), ("partitions", arr(part))])


_assign = [("version", I16), ("topics", arr([("name", STR), ("partitions", arr(I32))])), ("user_data", BYTES)]

REQUESTS = {
    "produce": [("required_acks", I16), ("timeout", I32),
                ("topics", topics([("partition_id", I32), ("message_set", MSGSET)]))],
    "fetch": [("replica_id", I32), ("max_wait_time", I32), ("min_bytes", I32),
              ("topics", topics([("partition_id", I32), ("offset", I64), ("max_bytes", I32)]))],
    "offset": [("replica_id", I32),
               ("topics", topics([("partition_id", I32), ("time", I64), ("max_offsets", I32)]))],
    "metadata": [("topics", arr(STR))],
    "offset_commit": [("group", STR),
                      ("topics", topics([("partition_id", I32), ("offset", I64), ("metadata", STR)]))],
    "offset_fetch": [("group_name", STR), ("topics", topics(I32))],
    "group_coordinator": [("group", STR)],
    "join_group": [("group_id", STR), ("session_timeout", I32), ("member_id", STR), ("protocol_type", STR),
                   ("group_protocols", arr([("name", STR), ("version", I16), ("subscription", arr(STR)),
                                            ("user_data", BYTES)]))],
    "heartbeat": [("group_id", STR), ("generation_id", I32), ("member_id", STR)],
    "leave_group": [("group_id", STR), ("member_id", STR)],
    "sync_group": [("group_id", STR), ("generation_id", I32), ("member_id", STR),
                   ("assignments", arr([("member_id", STR), ("assignment", _assign)]))],
    "describe_groups": [("groups", arr(STR))],
    "list_groups": [],
}

RESPONSES = {
    "produce": [("topics", topics([("partition_id", I32), ("error_code", I16), ("offset", I64)]))],
    "fetch": [("topics", topics([("partition_id", I32), ("error_code", I16), ("highwater_mark_offset", I64),
                                 ("message_set", MSGSET)]))],
    "offset": [("topics", topics([("partition_id", I32), ("error_code", I16), ("offsets", arr(I64))]))],
    "metadata": [("brokers", arr([("broker_id", I32), ("host", STR), ("port", I32)])),
                 ("topics", arr([("error_code", I16), ("name", STR),
                                 ("partitions", arr([("error_code", I16), ("partition_id", I32), ("leader", I32),
                                                     ("replicas", arr(I32)), ("isrs", arr(I32))]))]))],
    "offset_commit": [("topics", topics([("partition_id", I32), ("error_code", I16)]))],
    "offset_fetch": [("topics", topics([("partition_id", I32), ("offset", I64), ("metadata", STR),
                                        ("error_code", I16)]))],
    "group_coordinator": [("error_code", I16), ("coordinator_id", I32), ("coordinator_host", STR),
                          ("coordinator_port", I32)],
    "join_group": [("error_code", I16), ("generation_id", I32), ("protocol", STR), ("leader_id", STR),
                   ("member_id", STR), ("members", arr([("member_id", STR), ("metadata", BYTES)]))],
    "heartbeat": [("error_code", I16)],
    "leave_group": [("error_code", I16)],
    "sync_group": [("error_code", I16), ("assignments", arr([("member_id", STR), ("assignment", _assign)]))],
    "describe_groups": [("groups", arr([
        ("error_code", I16), ("group_id", STR), ("state", STR), ("protocol_type", STR), ("protocol", STR),
        ("members", arr([("member_id", STR), ("client_id", STR), ("client_host", STR), ("metadata", BYTES),
                         ("assignment", _assign)]))]))],
    "list_groups": [("error_code", I16), ("groups", arr([("group_id", STR), ("protocol_type", STR)]))],
}


# -------------------------------------------------------------------- encode
def tob(v):
    return v if isinstance(v, bytes) else v.encode("utf-8")


def enc(t, v):
    if isinstance(t, list):
        return b"".join(enc(ft, v[name]) for name, ft in t)
    if isinstance(t, tuple):
        v = v or []
        return struct.pack(">i", len(v)) + b"".join(enc(t[1], x) for x in v)
    if t == STR:
        if v is None:
            return struct.pack(">h", -1)
        v = tob(v)
        return struct.pack(">h", len(v)) + v
    if t == BYTES:
        if v is None:
            return struct.pack(">i", -1)
        v = tob(v)
        return struct.pack(">i", len(v)) + v
    if t == MSGSET:  # already encoded bytes
        return struct.pack(">i", len(v)) + v
    return struct.pack(FMT[t], v)


def enc_request(api, corr, body, version=0, client_id="kiel"):
    return (struct.pack(">hhi", API_KEYS[api], version, corr) + enc(STR, client_id) + enc(REQUESTS[api], body))


# -------------------------------------------------------------------- decode
class R(object):
    def __init__(self, data):
        self.d, self.o = data, 0

    def take(self, n):
        if n < 0 or self.o + n > len(self.d):
            raise WireError("need %d bytes at %d of %d" % (n, self.o, len(self.d)))
        b = self.d[self.o:self.o + n]
        self.o += n
        return b

    def num(self, t):
        s = FMT[t]
        return struct.unpack(s, self.take(struct.calcsize(s)))[0]


def dec(t, r):
    if isinstance(t, list):
        return {name: dec(ft, r) for name, ft in t}
    if isinstance(t, tuple):
        n = r.num(I32)
        if n > 100000:
            raise WireError("absurd array count %d" % n)
        return [dec(t[1], r) for _ in range(n)]
    if t in (STR, BYTES):
        n = r.num(I16 if t == STR else I32)
        if n == -1:
            return None
        b = r.take(n)
        if t == STR:
            try:
                return b.decode("utf-8")
            except UnicodeDecodeError:
                raise WireError("string is not UTF-8: %r" % b)
        return b
    if t == MSGSET:
        return r.take(r.num(I32))
    return r.num(t)


def dec_request(frame):
    """frame (without the size prefix) -> (api, version, corr, client_id, body)"""
    r = R(frame)
    key, version, corr = r.num(I16), r.num(I16), r.num(I32)
    if key not in API_NAMES:
        raise WireError("unknown api key %d" % key)
    client = dec(STR, r)
    api = API_NAMES[key]
    body = dec(REQUESTS[api], r)
    if r.o != len(frame):
        raise WireError("%d trailing bytes after %s request" % (len(frame) - r.o, api))
    return api, version, corr, client, body


# --------------------------------------------------------------- message sets
def message(key, value, codec=0, magic=0):
    payload = struct.pack(">bb", magic, codec) + enc(BYTES, key) + enc(BYTES, value)
    return struct.pack(">I", zlib.crc32(payload) & 0xffffffff) + payload


def entry(offset, msg):
    return struct.pack(">qi", offset, len(msg)) + msg


def plain_set(items):
    """items: [(offset, key, value)]"""
    return b"".join(entry(o, message(k, v)) for o, k, v in items)


def wrapped(codec, items, **kw):
    """One compressed wrapper carrying items (absolute inner offsets, v0)."""
    raw = plain_set(items)
    if codec == 1:
        z = gz(raw)
    elif codec == 2:
        z = xerial(raw, **kw)
    else:
        raise ValueError(codec)
    return entry(items[-1][0], message(None, z, codec))


def gz(raw):
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode="w", mtime=0) as f:
        f.write(raw)
    return b.getvalue()


def read_set(data, depth=0):
    """Strict parse: -> [(offset, codec_path, key, value)], raises WireError."""
    r = R(data)
    out = []
    while r.o < len(data):
        off = r.num(I64)
        size = r.num(I32)
        m = r.take(size)
        crc = struct.unpack(">I", m[:4])[0] if len(m) >= 4 else None
        if crc is None or zlib.crc32(m[4:]) & 0xffffffff != crc:
            raise WireError("bad crc in message at offset %d" % off)
        mr = R(m[4:])
        magic, attrs = mr.num(I8), mr.num(I8)
        key, value = dec(BYTES, mr), dec(BYTES, mr)
        if mr.o != len(m) - 4:
            raise WireError("message size %d does not match its content" % size)
        if magic != 0:
            raise WireError("magic %d" % magic)
        if attrs & ~3:
            raise WireError("unknown attribute bits %d" % attrs)
        if attrs == 0:
            out.append((off, depth, key, value))
        else:
            if depth:
                raise WireError("nested compression")
            if attrs == 1:
                try:
                    raw = gzip.decompress(value)
                except Exception as e:
                    raise WireError("bad gzip stream: %s" % e)
            elif attrs == 2:
                raw = unxerial(value)
            else:
                raise WireError("unknown codec %d" % attrs)
            out.extend((o, attrs, k, v) for o, _, k, v in read_set(raw, depth + 1))
    return out


# --------------------------------------------------------------------- snappy
def snappy_block_decode(data):
    """Pure-python decoder of one raw snappy block."""
    pos, shift, length = 0, 0, 0
    while True:
        if pos >= len(data):
            raise WireError("snappy: truncated length")
        b = data[pos]
        pos += 1
        length |= (b & 0x7f) << shift
        shift += 7
        if not b & 0x80:
            break
    out = bytearray()
    n = len(data)
    while pos < n:
        tag = data[pos]
        pos += 1
        kind = tag & 3
        if kind == 0:
            ln = tag >> 2
            if ln >= 60:
                nb = ln - 59
                ln = int.from_bytes(data[pos:pos + nb], "little")
                pos += nb
            ln += 1
            if pos + ln > n:
                raise WireError("snappy: literal overruns block")
            out += data[pos:pos + ln]
            pos += ln
        else:
            if kind == 1:
                ln = ((tag >> 2) & 7) + 4
                off = ((tag >> 5) << 8) | data[pos]
                pos += 1
            elif kind == 2:
                ln = (tag >> 2) + 1
                off = int.from_bytes(data[pos:pos + 2], "little")
                pos += 2
            else:
                ln = (tag >> 2) + 1
                off = int.from_bytes(data[pos:pos + 4], "little")
                pos += 4
            if off == 0 or off > len(out):
                raise WireError("snappy: bad copy offset")
            start = len(out) - off
            if off >= ln:
                out += out[start:start + ln]
            else:
                pat = bytes(out[start:])
                out += (pat * (ln // off + 1))[:ln]
    if len(out) != length:
        raise WireError("snappy: length mismatch %d != %d" % (len(out), length))
    return bytes(out)


def snappy_block_literal(data):
    """Raw snappy block made of literals only (a legal, minimal encoder)."""
    out = bytearray()
    n = len(data)
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            break
    pos = 0
    while pos < len(data):
        chunk = data[pos:pos + 65536]
        ln = len(chunk) - 1
        if ln < 60:
            out.append(ln << 2)
        elif ln < 256:
            out += bytes((60 << 2, ln))
        else:
            out += bytes((61 << 2, ln & 0xff, ln >> 8))
        out += chunk
        pos += len(chunk)
    return bytes(out)


def snappy_block_rle(data):
    """Raw snappy block that uses copies for runs (another legal encoder)."""
    out = bytearray()
    n = len(data)
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            break
    pos = 0
    while pos < len(data):
        run = 1
        while pos + run < len(data) and data[pos + run] == data[pos] and run < 64:
            run += 1
        out.append(0)
        out.append(data[pos])
        if run > 4:
            left = run - 1
            out.append(((left - 1) << 2) | 2)
            out += b"\x01\x00"
            pos += run
        else:
            pos += 1
    return bytes(out)


XERIAL = b"\x82SNAPPY\x00" + struct.pack(">ii", 1, 1)


def xerial(raw, splits=None, encoder=snappy_block_literal):
    out = [XERIAL]
    if splits is None:
        splits = [32768] * (len(raw) // 32768 + 1)
    pos = 0
    for s in splits:
        if pos >= len(raw):
            break
        b = encoder(raw[pos:pos + s])
        pos += s
        out.append(struct.pack(">i", len(b)) + b)
    if pos < len(raw):
        b = encoder(raw[pos:])
        out.append(struct.pack(">i", len(b)) + b)
    return b"".join(out)


def unxerial_blocks(data):
    if data[:16] != XERIAL:
        raise WireError("bad xerial header %r" % data[:16])
    r = R(data)
    r.o = 16
    blocks = []
    while r.o < len(data):
        blocks.append(snappy_block_decode(r.take(r.num(I32))))
    return blocks


def unxerial(data):
    try:
        return b"".join(unxerial_blocks(data))
    except IndexError:
        raise WireError("snappy: truncated block")
