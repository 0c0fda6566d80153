"""C06: damaged or foreign frames are rejected, never misread, never fatal."""
import os
import socket
import struct
import tempfile
import zlib
from pathlib import Path
from queue import Queue

from vtelem.channel.environment import ChannelEnvironment
from vtelem.classes.type_primitive import new_default
from vtelem.client.file import FileClient, FileDecodeTask
from vtelem.client.socket import SocketClient
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "damage to the frame type or the element count, and damage turning an id "
    "into that of a channel of another width, can make a checksummed frame look "
    "like one without checksum: the format cannot exclude it and the property "
    "does not claim it",
    "bounds: frames of up to 4 elements; single bits, bytes from a boundary "
    "alphabet, bursts up to 32 bits, adjacent swaps, at every position; byte "
    "strings built from structured headers with short bodies; every truncation",
    "sockets are stand-ins returning scripted chunks; files live in scratch",
]
PRIM = {p.value.name: p for p in Primitive}
SCRATCH = os.environ.get("MC_SCRATCH", "/tmp")
APP = 0x4D2
TYPES = {0: "uint8", 1: "int16", 2: "float", 3: "double", 4: "boolean",
         5: "uint8", 6: "double"}


def app_prim(val):
    prim = new_default("id")
    assert prim.set(val)
    return prim


def registry():
    env = ChannelEnvironment(1500, app_id_basis=0.5)
    for cid, tname in TYPES.items():
        assert env.add_channel(f"c{cid}", PRIM[tname], 1.0) == cid
    return env


ENV = None


def env_():
    global ENV
    if ENV is None:
        ENV = registry()
    return ENV


MSG = b"some message"
FRAMES = {
    "data1": ref.data_frame(APP, 1234, [(0, "uint8", 7)]),
    "data4": ref.data_frame(
        APP, 99, [(3, "double", 0.5), (1, "int16", -2), (4, "boolean", True),
                  (2, "float", 2.0)]
    ),
    "event1": ref.event_frame(APP, 5, [(5, "uint8", (1, 100), (2, 200))]),
    "event2": ref.event_frame(
        APP, 6, [(6, "double", (1.0, 1), (2.5, 2)), (1, "int16", (3, 3), (4, 4))]
    ),
    "msg": ref.message_frame(APP, 7, 1, 3, zlib.crc32(MSG), 0, 1, MSG),
    "msg0": ref.message_frame(APP, 7, 0, 0, 0, 0, 1, b""),
}
GOOD = list(FRAMES)


def decode(data, expected=None):
    return env_().decode_frame(data, len(data), expected)


def telemetry(res):
    """The content of a decoded frame, comparable; None if it has none."""
    body = res.body
    head = (res.header.app_id, int(res.header.type), res.header.timestamp)
    if "channels" in body:
        return head + (
            [(c["id"], repr(c["value"])) for c in body["channels"]],
        )
    if "events" in body:
        return head + (
            [
                (e["id"], repr(e["previous"]["value"]), e["previous"]["time"],
                 repr(e["current"]["value"]), e["current"]["time"])
                for e in body["events"]
            ],
        )
    if "fragment_bytes" in body:
        return head + (
            [body[k] for k in ("message_type", "message_number", "message_crc",
                               "fragment_index", "total_fragments")]
            + [bytes(body["fragment_bytes"])],
        )
    if "data" in body:
        return head + (bytes(body["data"]),)
    return None


def lenient(data):
    """What an accepted byte string has to mean (header, body, optional crc)."""
    if len(data) < ref.HEADER:
        return None
    app, kind, stamp, count = struct.unpack(">HBQI", data[: ref.HEADER])
    pos = ref.HEADER
    end = len(data)

    def take(n):
        nonlocal pos
        if pos + n > end:
            raise ref.Bad("short")
        part = data[pos : pos + n]
        pos += n
        return part

    try:
        if kind == 1 or kind == 2:
            ids = []
            for _ in range(count):
                ids.append(struct.unpack(">H", take(2))[0])
                if ids[-1] not in TYPES:
                    return None
            out = []
            for i in ids:
                def val():
                    return repr(ref.dec(TYPES[i], take(ref.TYPES[TYPES[i]][1])))
                def stamp_():
                    return struct.unpack(">Q", take(8))[0]
                if kind == 1:
                    out.append((i, val()))
                else:
                    out.append((i, val(), stamp_(), val(), stamp_()))
            body = out
        elif kind == 3:
            body = list(struct.unpack(">BHIHH", take(11)))
            body.append(take(count))
        else:
            return None
    except ref.Bad:
        return None
    if end - pos >= 4:
        if zlib.crc32(data[:pos]) != struct.unpack(">I", data[pos : pos + 4])[0]:
            return None
    return (app, kind, stamp, body)


def total(ch, data, expected=None):
    """Decoding returns nothing or what the bytes say; it never raises."""
    try:
        res = decode(data, expected)
    except Exception as exc:
        raise Violation(
            f"decoding {data.hex()} raised {type(exc).__name__}: {exc}"
        ) from exc
    if res is None:
        return None
    got = telemetry(res)
    if got is not None:
        want = lenient(data)
        ch.check(
            want is not None and (got == want),
            lambda: f"{data.hex()} decoded as {got}, says {want}",
        )
    if expected is not None:
        ch.equal(res.header.app_id, expected.get(), "application accepted")
    return got


def claimed(pos):
    """Is damage at this byte covered (not type, not count)?"""
    return pos < 2 or 3 <= pos < 11 or pos >= ref.HEADER


def id_bytes(name):
    """Positions holding identifiers."""
    count = {"data1": 1, "data4": 4, "event1": 1, "event2": 2}.get(name, 0)
    return range(ref.HEADER, ref.HEADER + 2 * count)


def width_kept(name, good, bad):
    """Ids unknown or of the same width."""
    for pos in id_bytes(name)[::2]:
        old = struct.unpack(">H", good[pos : pos + 2])[0]
        new = struct.unpack(">H", bad[pos : pos + 2])[0]
        if old != new and new in TYPES:
            if ref.TYPES[TYPES[old]][1] != ref.TYPES[TYPES[new]][1]:
                return False
    return True


def damaged(ch, name, good, bad, touched):
    """A damaged frame must not come out as telemetry where claimed."""
    if bad == good:
        return
    got = total(ch, bad)
    ok = all(claimed(p) for p in touched) and width_kept(name, good, bad)
    if ok:
        ch.check(
            got is None,
            lambda: f"{name} damaged at {sorted(touched)} decoded as {got}",
        )
    ch.outcome((name, got is None, ok))


def bits(ch):
    name = ch.pick(GOOD, "frame")
    good = FRAMES[name]
    ch.check(decode(good) is not None, "good frame rejected")
    ch.equal(telemetry(decode(good)), lenient(good), "good frame")
    pos = ch.choose(len(good))
    for bit in range(8):
        bad = bytearray(good)
        bad[pos] ^= 1 << bit
        damaged(ch, name, good, bytes(bad), {pos})
        ch.step()
    for val in range(256):
        bad = bytearray(good)
        bad[pos] = val
        damaged(ch, name, good, bytes(bad), {pos})
        ch.step()
    ch.state((name, pos))


def bursts(ch):
    name = ch.pick(GOOD, "frame")
    good = FRAMES[name]
    whole = int.from_bytes(good, "big")
    nbits = len(good) * 8
    start = ch.choose(nbits)
    for length in range(2, 33):
        if start + length > nbits:
            break
        for pattern in (
            (1 << length) - 1,
            (1 << (length - 1)) | 1,
            int("10" * 16, 2) >> (32 - length) | 1,
        ):
            bad = whole ^ (pattern << (nbits - start - length))
            bad = bad.to_bytes(len(good), "big")
            touched = {i for i in range(len(good)) if bad[i] != good[i]}
            damaged(ch, name, good, bad, touched)
            ch.step()
    if start % 8 == 0 and start // 8 + 1 < len(good):
        pos = start // 8
        bad = bytearray(good)
        bad[pos], bad[pos + 1] = bad[pos + 1], bad[pos]
        touched = {i for i in range(len(good)) if bad[i] != good[i]}
        damaged(ch, name, good, bytes(bad), touched)
    ch.state((name, start))


def doubles(ch):
    """Two damaged bytes anywhere in the claimed region."""
    name = ch.pick(["data4", "event1", "msg"], "frame")
    good = FRAMES[name]
    first = ch.choose(len(good) - 1)
    for second in range(first + 1, len(good)):
        for one, two in ((0xFF, 0xFF), (1, 1), (0x80, 1)):
            bad = bytearray(good)
            bad[first] ^= one
            bad[second] ^= two
            damaged(ch, name, good, bytes(bad), {first, second})
            ch.step()
    ch.state((name, first))


def foreign(ch):
    """Another application's frames are rejected when one is expected."""
    name = ch.pick(GOOD, "frame")
    good = FRAMES[name]
    want = ch.pick([0, 1, APP, APP ^ 1, APP ^ 0x100, APP + 1, 0xFFFF,
                    ((APP & 255) << 8) | APP >> 8], "expected")
    got = total(ch, good, app_prim(want))
    ch.equal(got is not None, want == APP, f"accepted for {want:#x}")
    ch.state((name, want))
    ch.step()


def truncated(ch):
    """Every prefix and some extensions, with every byte perturbed."""
    name = ch.pick(GOOD, "frame")
    good = FRAMES[name]
    size = ch.choose(len(good) + 1)
    data = good[:size]
    for tail in (b"", b"\x00", b"\x00\x00\x00", b"\xff\xff\xff\xff\xff"):
        total(ch, data + tail)
        total(ch, data + tail, app_prim(APP))
        for pos in range(size):
            for flip in (1, 0x80, 0xFF):
                bad = bytearray(data + tail)
                bad[pos] ^= flip
                total(ch, bytes(bad))
                ch.step()
    ch.state((name, size))


def strings(limit):
    def body(ch):
        size = ch.choose(limit + 1)
        kind = ch.pick([0, 1, 2, 3, 4, 5, 6, 127, 255], "kind")
        count = ch.pick([0, 1, 2, 3, 255, 256, 65536, 2**31, 2**32 - 1], "count")
        head = struct.pack(">HBQI", APP, kind, 3, count)
        alphabet = [0, 1, 4, 255]
        tail = bytes(alphabet[ch.choose(len(alphabet))] for _ in range(size))
        for data in (head + tail, ref.with_crc(head + tail)):
            total(ch, data)
            total(ch, data, app_prim(APP))
            ch.step()
        if not size:
            for cut in range(len(head)):
                total(ch, head[:cut])
                total(ch, head[:cut], app_prim(APP))
        ch.state((kind, count, tail))

    return body


class FakeSocket:
    """Returns scripted chunks, then the end of the stream."""

    def __init__(self, chunks):
        self.chunks = list(chunks)

    def getsockname(self):
        return ("127.0.0.1", 1)

    def fileno(self):
        return 3

    def settimeout(self, _):
        pass

    def recv(self, _):
        if not self.chunks:
            return b""
        item = self.chunks.pop(0)
        if isinstance(item, Exception):
            raise item
        return item

    def close(self):
        pass


def bad_frames():
    good = FRAMES["data1"]
    out = {
        "crc": good[:-1] + bytes([good[-1] ^ 1]),
        "value": good[:17] + b"\x99" + good[18:],
        "short": good[:9],
        "empty": b"",
        "type9": good[:2] + b"\x09" + good[3:],
        "badid": ref.data_frame(APP, 1, [(300, "uint8", 1)]),
        "count": ref.with_crc(ref.header(APP, "data", 1, 4000) + b"\x00" * 20),
        "app": ref.data_frame(APP + 1, 1, [(0, "uint8", 1)]),
        "event": ref.event_frame(APP, 1, [(0, "uint8", (1, 1), (2, 2))])[:-9],
        "noise": bytes(range(200, 230)),
        "stream": ref.with_crc(ref.header(APP, "stream", 1, 1)
                               + struct.pack(">HI", 0, 0) + b"\x01"),
        "stream?": ref.with_crc(ref.header(APP, "stream", 1, 1)
                                + struct.pack(">HI", 999, 0) + b"\x01"),
    }
    return out


BAD = bad_frames()


def run_client(ch, kind, stream, cut):
    """Run a client over the stream; the frames it delivered."""
    env = TelemetryEnvironment(1500, app_id_basis=0.5, metrics_rate=1.0)
    queue = Queue()
    if kind == "file":
        fd, path = tempfile.mkstemp(dir=SCRATCH)
        os.write(fd, stream)
        os.close(fd)
        try:
            client = FileClient(
                FileDecodeTask(Path(path)), queue, env_().channel_registry,
                app_prim(APP), env, 300,
            )
            client.run()
        finally:
            os.unlink(path)
    else:
        chunks = [stream[i : i + cut] for i in range(0, len(stream), cut)]
        if kind == "socket-slow":
            chunks.insert(1, socket.timeout())
        client = SocketClient(
            FakeSocket(chunks), lambda: None, queue, env_().channel_registry,
            app_prim(APP), env, 300,
        )
        client.run()
    return [f for f in ref.drain(queue) if f is not None]


def clients(depth):
    def body(ch):
        kind = ch.pick(["socket", "file", "socket-slow"], "client")
        cut = ch.pick([1, 7, 1000], "chunk")
        items = []
        for _ in range(depth):
            items.append(ch.pick(["data4", "event1"] + list(BAD), "frame"))
        items.append("msg")
        stream = b"".join(
            ref.prefixed(FRAMES[i] if i in FRAMES else BAD[i]) for i in items
        )
        try:
            got = run_client(ch, kind, stream, cut)
        except Exception as exc:
            raise Violation(
                f"client ended by {type(exc).__name__}: {exc} on {items}"
            ) from exc
        got = [telemetry(f) for f in got]
        want = [lenient(FRAMES[i]) for i in items if i in FRAMES]
        ch.equal([g for g in got if g is not None], want, f"from {items}")
        ch.state((kind, cut, tuple(items)))
        ch.outcome(tuple(i in FRAMES for i in items))
        ch.step(len(items))

    return body


def later(ch):
    """Rejected frames leave no trace: descriptions and ids are unchanged."""
    env = registry()
    before = env.channel_registry.describe()
    name = ch.pick(list(BAD), "bad")
    try:
        env.decode_frame(BAD[name], len(BAD[name]))
        ch.equal(env.channel_registry.describe(), before, "description")
    except Violation:
        raise
    except Exception as exc:
        raise Violation(f"{type(exc).__name__}: {exc} after {name}") from exc
    ch.equal(env.add_channel("new", Primitive.BOOLEAN, 1.0), len(TYPES), "next id")
    ch.equal(
        telemetry(env.decode_frame(FRAMES["data4"], len(FRAMES["data4"]))),
        lenient(FRAMES["data4"]),
        "good frame afterwards",
    )
    ch.state(name)
    ch.step(3)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Scenario("bits", bits),
        Scenario("bursts", bursts),
        Scenario("doubles", doubles),
        Scenario("foreign", foreign),
        Scenario("truncated", truncated),
        Scenario("strings", strings(6 if deep else 4)),
        Scenario("clients", clients(3 if deep else 2)),
        Scenario("later", later),
    ]
