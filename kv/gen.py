"""Random values for workloads."""
import struct
import zlib

from . import wire

TEXTS = ["", "a", "foo", "key-1", "caf\u00e9", "\u65e5\u672c\u8a9e", "\U0001f600x", "\u0000", "a\u0000b", "\u00ff\u0100",
         "null", "-1", "with space", "UPPER", "\u200b", "\ufffd", "\ufeff", "\ufeffbom", " padded ", "e\u0301", "\r\n"]
BINS = [b"", b"\x00", b"\xff", b"\xff\xfe\xfd", b"\x80", b"\xc3(", b"\x00\x00\x00\x00", b"\xff" * 8,
        b"\x1f\x8b\x08", wire.XERIAL, b"\xed\xa0\x80", b"\xef\xbb\xbf", b"\xef\xbb\xbf\xff"]


def text(rng, big=False):
    r = rng.random()
    if r < .55:
        return rng.choice(TEXTS)
    if r < .9:
        return "".join(chr(rng.choice((rng.randrange(32, 127), rng.randrange(0xa0, 0x800), rng.randrange(0x3000, 0x9000),
                                       rng.randrange(0x10000, 0x10400)))) for _ in range(rng.randrange(1, 24)))
    n = rng.choice((127, 128, 255, 256, 1000)) if not big else rng.choice((8191, 32766, 32767, 40000))
    return "x" * n


def binary(rng, limit=None):
    r = rng.random()
    if r < .35:
        return rng.choice(BINS)
    if r < .6:
        return bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 40)))
    if r < .8:
        return text(rng).encode("utf-8")
    if r < .95:
        n = rng.choice((63, 64, 127, 128, 255, 256, 1023, 4096))
        return bytes([rng.getrandbits(8)]) * n
    n = rng.choice((32767, 32768, 32769, 65536, 70000))
    if limit:
        n = min(n, limit)
    return rng.randbytes(n)


def payload(rng, limit=None):
    """A key/value as a user may hand it over: None, text or bytes."""
    r = rng.random()
    if r < .12:
        return None
    if r < .5:
        return text(rng)
    return binary(rng, limit)


def number(rng, bits):
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    r = rng.random()
    if r < .45:
        return rng.choice((0, 1, -1, 2, 127, 128 if bits > 8 else 5, lo, hi, lo + 1, hi - 1))
    if r < .7:
        return rng.randrange(0, min(hi, 1000) + 1)
    return rng.randint(lo, hi)


BITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64}


def tree(rng, t, depth=0, size=3, strings=True):
    """A random value of wire schema type t (msgset handled by callers)."""
    if isinstance(t, list):
        return {n: tree(rng, ft, depth + 1, size) for n, ft in t}
    if isinstance(t, tuple):
        r = rng.random()
        n = 0 if r < .12 else (1 if r < .4 else rng.randrange(2, size + 2))
        if depth == 0 and r > .97:
            n = 40
        elif not isinstance(t[1], list) and r > .995:
            n = rng.choice((130, 1100, 3000)) if size > 1 or rng.random() < .3 else n
        elif size <= 3 and r > .998:
            n = rng.choice((130, 260)) if depth else 1100
        return [tree(rng, t[1], depth + 1, max(1, size - 1)) for _ in range(n)]
    if t == "str":
        if rng.random() < .1:
            return None
        s = text(rng, big=rng.random() < .02)
        while len(s.encode("utf-8")) > 32767:
            s = s[:len(s) // 2]
        return s
    if t == "bytes":
        return payload(rng, 5000)
    if t == "msgset":
        return [(payload(rng, 3000), payload(rng, 3000)) for _ in range(rng.choice((0, 1, 1, 2, 3, 6)))]
    return number(rng, BITS[t])


def decoded(b):
    """What the documentation promises for parsed strings/bytes."""
    if b is None:
        return None
    if isinstance(b, str):
        return b
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return b


# crc forcing ---------------------------------------------------------------
_T = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (0xEDB88320 if _c & 1 else 0)
    _T.append(_c)
_REV = {t >> 24: i for i, t in enumerate(_T)}


def crc_suffix(prefix, target):
    """4 bytes s with crc32(prefix + s) == target."""
    state = zlib.crc32(prefix) ^ 0xffffffff
    want = target ^ 0xffffffff
    idx = []
    for _ in range(4):
        i = _REV[want >> 24]
        idx.append(i)
        want = ((want ^ _T[i]) << 8) & 0xffffffff
    out = bytearray()
    for i in reversed(idx):
        byte = (state ^ i) & 0xff
        out.append(byte)
        state = (state >> 8) ^ _T[i]
    s = bytes(out)
    assert zlib.crc32(prefix + s) & 0xffffffff == target
    return s


def value_with_crc(key, body, target, attrs=0):
    """A value starting with body such that the v0 message crc is target."""
    n = len(body) + 4
    prefix = struct.pack(">bb", 0, attrs) + wire.enc(wire.BYTES, key) + struct.pack(">i", n) + body
    return body + crc_suffix(prefix, target)
