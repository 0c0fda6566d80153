"""C03: messages reassemble exactly, whatever the order or duplication."""
import os
import shutil
import tempfile
import zlib

from vtelem.channel.environment import ChannelEnvironment
from vtelem.message.cache import MessageCache
from vtelem.message.framer import MessageFramer
from vtelem.types.frame import MessageType

from mc import ref
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "bounds: messages of up to 4 fragments in delivery histories (up to 8 "
    "deliveries), all lengths up to 40 bytes at 1..9 bytes per frame for the "
    "slicing, single long messages for indices above 255 and 65535",
    "two different messages with equal CRC-32 are out of scope (the protocol "
    "identifies messages by it)",
]
OVER = ref.HEADER + 11
SCRATCH = os.environ.get("MC_SCRATCH", "/tmp")


def content(tag, size):
    return bytes((tag * 37 + i * 11 + (i >> 8)) % 256 for i in range(size))


def frames_of(ch, framer, msg, mtype, time, mtu, crc, number):
    """Serialize and check every frame against the documented layout."""
    frames, total = framer.serialize_message(msg, time, mtype)
    ch.check(len(frames) > 0, "message without any frame")
    out = []
    used = 0
    for idx, frame in enumerate(frames):
        data, size = ref.raw(frame)
        ch.check(size <= mtu and size == len(data), f"size {size} mtu {mtu}")
        used += size
        try:
            got = ref.parse(data, {}, crc)
        except ref.Bad as exc:
            raise Violation(f"message frame malformed: {exc}") from exc
        want = {
            "kind": 3, "stamp": ref.millis(time), "type": mtype.value,
            "number": number, "crc": zlib.crc32(msg), "index": idx,
            "total": len(frames), "app": framer.primitives["app_id"].get(),
        }
        for key, val in want.items():
            ch.equal(got[key], val, f"{key} of fragment {idx}")
        ch.equal(got["count"], len(got["frag"]), "count")
        out.append((data, got["frag"]))
        ch.step()
    ch.equal(used, total, "reported size")
    ch.equal(b"".join(f for _, f in out), msg, "fragments put together")
    return out


def slicing(limit):
    def body(ch):
        size = ch.choose(limit)
        per = 1 + ch.choose(9)
        crc = ch.pick([True, False], "crc")
        mtype = ch.pick([MessageType.AGNOSTIC, MessageType.PRIMITIVE], "type")
        mtu = OVER + per + (4 if crc else 0)
        framer = MessageFramer(mtu, 0.25, crc)
        env = ChannelEnvironment(1500, app_id_basis=0.25)
        for number in range(2):
            msg = content(number, size)
            out = frames_of(ch, framer, msg, mtype, 2.5, mtu, crc, number)
            for data, frag in out:
                res = env.decode_frame(data, len(data), env.app_id)
                ch.check(res is not None, "message frame rejected")
                ch.equal(bytes(res.body["fragment_bytes"]), frag, "fragment")
        ch.outcome(len(out))
        ch.state((size, per, crc, mtype))

    return body


class Receiver:
    """A cache with recording consumers, in a scratch directory."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="c", dir=SCRATCH)
        self.dir = os.path.join(self.root, "cache")
        self.calls = []
        self.open()

    def open(self):
        def consumer(mtype, number, data):
            self.calls.append((mtype, number, bytes(data)))

        self.cache = MessageCache(
            self.dir, {t: [consumer] for t in MessageType}
        )

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def text_ok(data):
    try:
        return data.decode()
    except UnicodeDecodeError:
        return None


def verify(ch, cache, msgs, have):
    """Complete exactly when all fragments have been delivered."""
    for key, (mtype, number, msg, frames) in msgs.items():
        crc = zlib.crc32(msg)
        done = have[key] == set(range(len(frames)))
        listed = cache.complete(mtype)
        ch.check(
            listed.count(crc) == (1 if done else 0),
            lambda: f"{key}: {sorted(have[key])} of {len(frames)} delivered, "
            f"complete={crc in listed}",
        )
        got = cache.content(mtype, crc)
        if done:
            ch.check(got is not None, f"{key} has no content")
            ch.equal(bytes(got[1]), msg, f"{key} content")
            ch.equal(got[0], number, f"{key} number")
            if text_ok(msg) is not None:
                ch.equal(
                    cache.content_str(mtype, crc), (number, msg.decode()), "str"
                )
        else:
            ch.check(got is None, f"{key} has content too early")
        for other in MessageType:
            if other != mtype and not any(
                o == other and zlib.crc32(m) == crc
                for o, _, m, __ in msgs.values()
            ):
                ch.check(crc not in cache.complete(other), "wrong type")
                ch.check(cache.content(other, crc) is None, "wrong type")


def make(ch, spec, per, crc=True):
    """spec: [(key, type, fragments)] -> messages with decoded frames."""
    mtu = OVER + per + (4 if crc else 0)
    framer = MessageFramer(mtu, 0.25, crc)
    env = ChannelEnvironment(1500, app_id_basis=0.25)
    numbers = {}
    msgs = {}
    for tag, (key, mtype, count, last) in enumerate(spec):
        size = (count - 1) * per + last
        if tag % 2 == 0:
            msg = content(tag, size)
        else:
            msg = (b"text message " * 20)[tag : tag + size]
        num = numbers.get(mtype, 0)
        numbers[mtype] = num + 1
        out = frames_of(ch, framer, msg, mtype, 1.0, mtu, crc, num)
        ch.equal(len(out), count, "fragments")
        parsed = [env.decode_frame(d, len(d), env.app_id) for d, _ in out]
        msgs[key] = (mtype, num, msg, parsed)
    return msgs


def history(spec, per, depth, crc=True):
    def body(ch):
        msgs = make(ch, spec, per, crc)
        recv = Receiver()
        try:
            have = {k: set() for k in msgs}
            events = [
                (k, i) for k, m in msgs.items() for i in range(len(m[3]))
            ]
            want_calls = []
            verify(ch, recv.cache, msgs, have)
            for _ in range(depth):
                key, idx = ch.pick(events, "deliver")
                mtype, number, msg, frames = msgs[key]
                was = have[key] == set(range(len(frames)))
                recv.cache.ingest(frames[idx])
                have[key].add(idx)
                if not was and have[key] == set(range(len(frames))):
                    want_calls.append((mtype, number, msg))
                verify(ch, recv.cache, msgs, have)
                ch.equal(recv.calls, want_calls, "consumers told")
                ch.state(sorted((k, sorted(v)) for k, v in have.items()))
            ch.outcome(sorted((k, len(v)) for k, v in have.items()))
        finally:
            recv.close()

    return body


def permute(count, per, dup):
    """Every order of one message's fragments, one duplicated anywhere."""

    def body(ch):
        msgs = make(ch, [("a", MessageType.JSON, count, 1)], per)
        recv = Receiver()
        try:
            have = {"a": set()}
            left = list(range(count))
            extra = ch.choose(count) if dup else None
            if dup:
                left.append(extra)
            while left:
                idx = left.pop(ch.choose(len(left)))
                recv.cache.ingest(msgs["a"][3][idx])
                have["a"].add(idx)
                verify(ch, recv.cache, msgs, have)
                ch.state((count, extra, sorted(have["a"]), idx))
                ch.step()
            ch.equal(len(recv.calls), 1, "consumer calls")
            ch.outcome(count)
        finally:
            recv.close()

    return body


def lengthy(ch):
    """Indices beyond one byte; numbers beyond one and two bytes."""
    what = ch.pick(["index", "number", "wrap"], "what")
    env = ChannelEnvironment(1500, app_id_basis=0.25)
    if what == "index":
        count = ch.pick([255, 256, 257, 300], "fragments")
        msgs = make(ch, [("a", MessageType.TEXT, count, 1)], 1)
        order = ch.pick(["up", "down"], "order")
        recv = Receiver()
        try:
            have = {"a": set()}
            idxs = list(range(count))
            if order == "down":
                idxs.reverse()
            for idx in idxs:
                if idx == idxs[-1]:
                    verify(ch, recv.cache, msgs, have)
                recv.cache.ingest(msgs["a"][3][idx])
                have["a"].add(idx)
            verify(ch, recv.cache, msgs, have)
        finally:
            recv.close()
        ch.outcome((what, count))
        return
    framer = MessageFramer(200, 0.25)
    last = 300 if what == "number" else 65538
    for number in range(last):
        if number in (0, 255, 256, 299, 65535, 65536, 65537):
            frames_of(ch, framer, b"abc", MessageType.TEXT, 1.0, 200, True,
                      number % 65536)
        else:
            framer.serialize_message(b"", 1.0, MessageType.TEXT)
    del env


def too_long(ch):
    """More fragments than can be numbered: refused, not garbled."""
    over = ch.choose(2)
    framer = MessageFramer(OVER + 4 + 1, 0.25)
    msg = bytes(65535 + over)
    if not over:
        frames, _ = framer.serialize_message(msg, 1.0)
        got = ref.parse(ref.raw(frames[-1])[0], {})
        ch.equal((got["index"], got["total"]), (65534, 65535), "last fragment")
        return
    try:
        frames, _ = framer.serialize_message(msg, 1.0)
    except (AssertionError, ValueError, OverflowError):
        ch.outcome("refused")
        return
    raise Violation(f"{len(frames)} fragments although numbers end at 65535")


def wrappers(ch):
    """Text and JSON front ends carry the encoded text."""
    framer = MessageFramer(OVER + 4 + ch.pick([3, 50], "room"), 0.25)
    env = ChannelEnvironment(1500, app_id_basis=0.25)
    text = ch.pick(["", "a", "hello world", "d\u00e9j\u00e0 \u2603 vu"], "text")
    how = ch.pick(["str", "json"], "how")
    if how == "str":
        frames, _ = framer.serialize_message_str(text, 1.0)
        mtype, want = MessageType.TEXT, text
    else:
        frames, _ = framer.serialize_message_json({"k": text, "n": [1, 2]}, 1.0)
        mtype, want = MessageType.JSON, None
    recv = Receiver()
    try:
        for frame in frames:
            data, size = ref.raw(frame)
            recv.cache.ingest(env.decode_frame(data, size, env.app_id))
        done = recv.cache.complete(mtype)
        ch.equal(len(done), 1, "complete")
        got = recv.cache.content_str(mtype, done[0])[1]
        if want is None:
            import json

            ch.equal(json.loads(got), {"k": text, "n": [1, 2]}, "object")
        else:
            ch.equal(got, want, "text")
        ch.state((text, how, len(frames)))
        ch.step()
    finally:
        recv.close()


def scenarios(tier):
    deep = tier == "thorough"
    agn, txt = MessageType.AGNOSTIC, MessageType.TEXT
    return [
        Scenario("too-long", too_long),
        Scenario("long", lengthy),
        Scenario("slicing", slicing(80 if deep else 41)),
        Scenario("one3", history([("a", agn, 3, 2)], 2, 6 if deep else 5)),
        Scenario("same-type", history(
            [("a", txt, 2, 1), ("b", txt, 2, 2)], 3, 7 if deep else 5)),
        Scenario("other-type", history(
            [("a", txt, 3, 1), ("b", agn, 2, 2)], 3, 7 if deep else 5)),
        Scenario("with-empty", history(
            [("a", txt, 2, 1), ("e", agn, 1, 0)], 3, 5, False)),
        Scenario("permute4", permute(4, 2, True)),
        Scenario("permute5", permute(5, 1, False)),
        Scenario("wrappers", wrappers),
    ] + ([Scenario("permute6", permute(6, 1, True))] if deep else [])
