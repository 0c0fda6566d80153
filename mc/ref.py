"""Reference encoder/decoder for the wire format, written from docs/message.md
and the documented header layout - independently of vtelem's own code."""
import math
import struct
import zlib

# type name -> (struct code, size)
TYPES = {
    "boolean": ("?", 1),
    "int8": ("b", 1),
    "uint8": ("B", 1),
    "int16": ("h", 2),
    "uint16": ("H", 2),
    "int32": ("i", 4),
    "uint32": ("I", 4),
    "int64": ("q", 8),
    "uint64": ("Q", 8),
    "float": ("f", 4),
    "double": ("d", 8),
}
FRAME = {"invalid": 0, "data": 1, "event": 2, "message": 3, "stream": 4}
HEADER = 2 + 1 + 8 + 4


def enc(tname, val):
    return struct.pack(">" + TYPES[tname][0], val)


def dec(tname, raw):
    return struct.unpack(">" + TYPES[tname][0], raw)[0]


def millis(time):
    """Whole milliseconds of a time (exact for the times the checks use)."""
    return math.floor(time * 1000)


def header(app_id, kind, stamp, count):
    return struct.pack(">HBQI", app_id, FRAME[kind], stamp, count)


def with_crc(body):
    return body + struct.pack(">I", zlib.crc32(body))


def data_frame(app_id, stamp, items, crc=True):
    """items: [(id, type name, value)]"""
    body = header(app_id, "data", stamp, len(items))
    body += b"".join(struct.pack(">H", i[0]) for i in items)
    body += b"".join(enc(i[1], i[2]) for i in items)
    return with_crc(body) if crc else body


def event_frame(app_id, stamp, items, crc=True):
    """items: [(id, type name, (prev, ms), (curr, ms))]"""
    body = header(app_id, "event", stamp, len(items))
    body += b"".join(struct.pack(">H", i[0]) for i in items)
    for _, tname, prev, curr in items:
        body += enc(tname, prev[0]) + struct.pack(">Q", prev[1])
        body += enc(tname, curr[0]) + struct.pack(">Q", curr[1])
    return with_crc(body) if crc else body


def message_frame(app_id, stamp, mtype, number, mcrc, index, total, frag,
                  crc=True):
    body = header(app_id, "message", stamp, len(frag))
    body += struct.pack(">BHIHH", mtype, number, mcrc, index, total) + frag
    return with_crc(body) if crc else body


def prefixed(frame):
    return struct.pack(">I", len(frame)) + frame


class Bad(Exception):
    """Not a well-formed frame."""


def parse(raw, types, crc=True):
    """Strict parse of exactly one frame. types: id -> type name."""
    raw = bytes(raw)
    if crc:
        if len(raw) < HEADER + 4:
            raise Bad("short")
        body, foot = raw[:-4], struct.unpack(">I", raw[-4:])[0]
        if zlib.crc32(body) != foot:
            raise Bad("crc")
    else:
        body = raw
    if len(body) < HEADER:
        raise Bad("short header")
    app, kind, stamp, count = struct.unpack(">HBQI", body[:HEADER])
    pos = HEADER
    out = {"app": app, "kind": kind, "stamp": stamp, "count": count}

    def take(n):
        nonlocal pos
        if pos + n > len(body):
            raise Bad("short body")
        part = body[pos : pos + n]
        pos += n
        return part

    if kind == FRAME["data"]:
        ids = [struct.unpack(">H", take(2))[0] for _ in range(count)]
        vals = []
        for i in ids:
            if i not in types:
                raise Bad(f"id {i}")
            vals.append(take(TYPES[types[i]][1]))
        out["items"] = list(zip(ids, vals))  # values as raw bytes
    elif kind == FRAME["event"]:
        ids = [struct.unpack(">H", take(2))[0] for _ in range(count)]
        items = []
        for i in ids:
            if i not in types:
                raise Bad(f"id {i}")
            size = TYPES[types[i]][1]
            prev = (take(size), struct.unpack(">Q", take(8))[0])
            curr = (take(size), struct.unpack(">Q", take(8))[0])
            items.append((i, prev, curr))
        out["items"] = items
    elif kind == FRAME["message"]:
        names = ("type", "number", "crc", "index", "total")
        out.update(zip(names, struct.unpack(">BHIHH", take(11))))
        out["frag"] = take(count)
    else:
        raise Bad(f"type {kind}")
    if pos != len(body):
        raise Bad(f"{len(body) - pos} bytes left over")
    return out


INF = float("inf")
NAN = float("nan")
# Boundary values of each type, all exactly representable on the wire.
BOUNDARY = {
    "boolean": [False, True],
    "int8": [0, 1, -1, 127, -128],
    "uint8": [0, 1, 128, 255],
    "int16": [0, 256, -2, 32767, -32768],
    "uint16": [0, 256, 32768, 65535],
    "int32": [0, 65536, -3, 2**31 - 1, -(2**31)],
    "uint32": [0, 2**16 + 5, 2**31, 2**32 - 1],
    "int64": [0, 2**40, -4, 2**63 - 1, -(2**63)],
    "uint64": [0, 2**53 + 1, 2**63, 2**64 - 1],
    "float": [0.0, 1.5, 0.1, -0.0, 2.0**-149, -3.4028234663852886e38, INF, -INF, NAN],
    "double": [0.0, -0.1, -0.0, 5e-324, 1.7976931348623157e308, INF, -INF, NAN],
}


def same(tname, one, two):
    """Bit-identical on the wire."""
    try:
        return enc(tname, one) == enc(tname, two)
    except (struct.error, OverflowError, TypeError):
        return False


def drain(queue):
    """Everything in a queue.Queue-like object, without blocking."""
    out = []
    while not queue.empty():
        out.append(queue.get())
    return out


def raw(frame):
    data, size = frame.raw
    return bytes(data[:size]), size
