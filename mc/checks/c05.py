"""C05: stream framing is independent of chunking and resynchronises."""
import struct

from vtelem.classes.type_primitive import TypePrimitive, new_default
from vtelem.enums.primitive import Primitive
from vtelem.frame.processor import FrameProcessor

from mc.explore import Scenario

ASSUMPTIONS = [
    "bounds: up to 4 frames, streams of up to ~22 bytes cut everywhere (all "
    "2^(n-1) compositions for short streams, up to 3 cuts for longer ones)",
    "after an oversized prefix the rest of the chunk (and of the frame) is "
    "unspecified; what must hold is that earlier frames are delivered and that "
    "frames arriving in later chunks are accepted",
]
PREFIX = {
    "uint8": (Primitive.UINT8, ">B"),
    "uint16": (Primitive.UINT16, ">H"),
    "uint32": (Primitive.UINT32, ">I"),
}


def frame_bytes(num, size):
    """Recognisable content, including bytes that look like prefixes."""
    alphabet = b"\x00\x01\x02\xff" if num % 2 else b"\xff\x00\x03\x7f"
    return bytes(alphabet[(i + num) % 4] for i in range(size))


def feed(ch, proc, prim, chunks, limit, frames, hdr):
    """Feed; after every chunk exactly the completed frames are out."""
    total = 0
    out = []
    ends = []
    pos = 0
    for frm in frames:
        pos += hdr + len(frm)
        ends.append(pos)
    for chunk in chunks:
        total += len(chunk)
        got = proc.process(chunk, prim, limit)
        out.extend(bytes(g) for g in got)
        due = sum(1 for e in ends if e <= total)
        ch.check(
            out == frames[:due],
            lambda: f"after {total} bytes: {out}, due {frames[:due]}",
        )
        ch.step()
    return out


def cuts(ch, stream, free):
    """free: every composition; else at most 3 cut points, plus empty ones."""
    size = len(stream)
    if free:
        chunks = []
        last = 0
        for i in range(1, size):
            if ch.choose(2):
                chunks.append(stream[last:i])
                last = i
        chunks.append(stream[last:])
        return chunks
    points = []
    low = 0
    for _ in range(3):
        low += ch.choose(size - low + 1)
        points.append(low)
    points = [0] + points + [size]
    return [stream[a:b] for a, b in zip(points, points[1:])]


def compose(sizes_opts, count, free, limit_opts=(5, 64)):
    def body(ch):
        name = ch.pick(list(PREFIX), "prefix")
        typ, fmt = PREFIX[name]
        sizes = [ch.pick(sizes_opts, "size") for _ in range(count)]
        limit = max(sizes + [ch.pick(limit_opts, "limit")])
        frames = [frame_bytes(i, s) for i, s in enumerate(sizes)]
        stream = b"".join(struct.pack(fmt, len(f)) + f for f in frames)
        proc = FrameProcessor()
        prim = TypePrimitive(typ)
        chunks = cuts(ch, stream, free)
        if len(chunks) > 1 and ch.choose(2):
            chunks.insert(1, b"")
        feed(ch, proc, prim, chunks, limit, frames, len(struct.pack(fmt, 0)))
        # a second stream through the same processor
        nxt = frame_bytes(7, 3)
        got = proc.process(struct.pack(fmt, 3) + nxt, prim, limit)
        ch.equal([bytes(g) for g in got], [nxt], "next frame")
        ch.state((name, tuple(sizes), tuple(len(c) for c in chunks)))
        ch.outcome(tuple(len(c) for c in chunks))

    return body


def exact_limit(ch):
    """Frames as large as the limit pass, larger ones do not."""
    name = ch.pick(list(PREFIX), "prefix")
    typ, fmt = PREFIX[name]
    limit = ch.pick([0, 1, 5, 200, 255], "limit")
    size = ch.pick([limit, max(0, limit - 1)], "size")
    data = frame_bytes(1, size)
    stream = struct.pack(fmt, size) + data
    cut = ch.choose(len(stream) + 1)
    proc = FrameProcessor()
    prim = new_default("count") if name == "uint32" else TypePrimitive(typ)
    feed(ch, proc, prim, [stream[:cut], stream[cut:]], limit, [data],
         len(struct.pack(fmt, 0)))
    ch.state((name, limit, size, cut))


def oversize(ch):
    """Frames before an oversized prefix are delivered; later chunks work."""
    name = ch.pick(list(PREFIX), "prefix")
    typ, fmt = PREFIX[name]
    hdr = len(struct.pack(fmt, 0))
    limit = 6
    before = [frame_bytes(i, ch.pick([0, 2, 6], "size"))
              for i in range(ch.pick([0, 1, 2], "frames before"))]
    big = ch.pick([7, 8, 255], "prefix value")
    junk = ch.pick([b"", b"\x00", b"\x01\x02\x03\x04\x05"], "after")
    head = b"".join(struct.pack(fmt, len(f)) + f for f in before)
    stream = head + struct.pack(fmt, big)
    # one cut anywhere up to (and inside) the prefix
    cut = ch.choose(len(stream) + 1)
    if cut == len(stream):
        parts = [stream + junk]
    else:
        parts = [stream[:cut], stream[cut:] + junk]
    proc = FrameProcessor()
    prim = TypePrimitive(typ)
    out = []
    for part in parts:
        out.extend(bytes(g) for g in proc.process(part, prim, limit))
        ch.step()
    ch.equal(out, before, "frames before the oversized prefix")
    # frames arriving in later chunks are accepted, whatever the cutting
    after = [frame_bytes(5, 4), frame_bytes(6, 0), frame_bytes(8, 6)]
    stream = b"".join(struct.pack(fmt, len(f)) + f for f in after)
    cut = ch.choose(len(stream) + 1)
    feed(ch, proc, prim, [stream[:cut], stream[cut:]], limit, after, hdr)
    ch.state((name, len(before), big, junk, cut))
    ch.outcome((len(before), big, len(junk)))


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Scenario("all-cuts-1", compose([0, 1, 2, 5], 1, True)),
        Scenario("all-cuts-2", compose([0, 1, 3], 2, True, (5,))),
        Scenario("three-cuts-3", compose([0, 1, 4], 3, False, (5,))),
        Scenario("three-cuts-4", compose([0, 3] if not deep else [0, 1, 4], 4, False, (5,))),
        Scenario("exact-limit", exact_limit),
        Scenario("oversize", oversize),
    ] + ([Scenario("all-cuts-3", compose([0, 2], 3, True, (5,)))] if deep else [])
