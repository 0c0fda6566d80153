"""C21: file clients deliver every recorded frame once, as it is written."""
from io import BytesIO
import os
import pathlib
import shutil
import tempfile

from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from queue import Queue

from vtelem.channel import Channel
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.type_primitive import new_default
from vtelem.client.file import FileClient, FileDecodeTask, create
from vtelem.enums.primitive import Primitive
from vtelem.stream.writer import default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "files of up to 4 frames (good ones of every kind, ones with a wrong "
    "checksum, another application's, unknown channels, too short, empty); "
    "every cut position; frames larger than the client's MTU are out of scope",
    "the file grows by appending; reads return any number of bytes up to what "
    "was asked for (limited number of short reads) or fail",
    "the maximum number of frames counts frames delivered; whether the end of "
    "the file is reported once the maximum is reached is left open",
    "schedules of a client, a writer and a controlling thread up to the "
    "stated number of preemptions",
]
SCRATCH = os.environ.get("MC_SCRATCH", "/tmp")
OPS = {
    "vtelem.client.file": sched.COARSE | {"CALL"},
    "vtelem.client": {"CALL"},
}
APP = 7
GOOD = ["data", "event", "message", "data2", "empty"]
BAD = ["crc", "nothing", "foreign", "unknown", "short", "header"]


def new_env():
    return TelemetryEnvironment(1500, app_id_basis=0.5)


def registry():
    """A registry with two channels, and their ids."""
    reg = ChannelRegistry()
    ids = []
    for name, prim in (("one", Primitive.UINT8), ("two", Primitive.UINT16)):
        ids.append(reg.add_channel(Channel(name, prim, 1.0))[1])
    return reg, ids


ONE, TWO = registry()[1]


def frame(kind, num):
    """(bytes of the frame, its content, None unless it is well-formed)."""
    stamp = 1000 + num
    data = ref.data_frame(APP, stamp, [(ONE, "uint8", num)])
    if kind == "data":
        return data, (1, stamp, [(ONE, num)])
    if kind == "empty":
        return ref.data_frame(APP, stamp, []), (1, stamp, [])
    if kind == "data2":
        return ref.data_frame(
            APP, stamp, [(TWO, "uint16", 256 + num), (ONE, "uint8", num)]
        ), (1, stamp, [(TWO, 256 + num), (ONE, num)])
    if kind == "event":
        return ref.event_frame(
            APP, stamp, [(TWO, "uint16", (num, 5), (num + 1, 6))]
        ), (2, stamp, [(TWO, num, 5, num + 1, 6)])
    if kind == "message":
        return ref.message_frame(
            APP, stamp, 1, num, 99, 0, 1, b"ab\x00"
        ), (3, stamp, [1, num, 99, 0, 1, b"ab\x00"])
    if kind == "crc":
        return data[:-1] + bytes([data[-1] ^ 1]), None
    if kind == "foreign":
        return ref.data_frame(APP + 1, stamp, [(ONE, "uint8", num)]), None
    if kind == "unknown":
        return ref.data_frame(APP, stamp, [(4099, "uint8", num)]), None
    if kind == "short":
        return b"\x00\x07\x01", None
    if kind == "nothing":
        return b"", None
    assert kind == "header"
    return ref.header(APP, "data", stamp, 3), None


def shown(item):
    """The content of a delivered frame, None for the end."""
    if item is None:
        return None
    body = item.body
    if "channels" in body:
        rest = [(c["id"], c["value"]) for c in body["channels"]]
    elif "events" in body:
        rest = [
            (e["id"], e["previous"]["value"], e["previous"]["time"],
             e["current"]["value"], e["current"]["time"])
            for e in body["events"]
        ]
    else:
        rest = [
            body[k] for k in ("message_type", "message_number", "message_crc",
                              "fragment_index", "total_fragments")
        ] + [bytes(body["fragment_bytes"])]
    return int(item.header.type), item.header.timestamp, rest


def app_id():
    out = new_default("id")
    out.set(APP)
    return out


class Handle:
    """A file whose reads are as chosen."""

    def __init__(self, world, stream):
        self.world = world
        self.stream = stream

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.stream.close()

    def read(self, count=-1):
        if sched.CURRENT is not None:
            sched.CURRENT.point("read")
        how = self.world.reads()
        if how == "fail":
            raise OSError("read failed")
        if how is not None and (count is None or count < 0 or count > how):
            count = how
        return self.stream.read(count)

    read1 = read

    def __getattr__(self, name):
        return getattr(self.stream, name)


class ThePath(type(pathlib.Path())):
    """A path which opens files with chosen reads."""

    world = None

    def open(self, *args, **kwargs):  # pylint: disable=arguments-differ
        return Handle(self.world, super().open(*args, **kwargs))


class World:
    """A growing file and its client."""

    def __init__(self, mtu, limit=None, reads=None, env=None, start=0):
        self.root = tempfile.mkdtemp(prefix="c", dir=SCRATCH)
        self.file = os.path.join(self.root, "frames.vtelem")
        with open(self.file, "wb"):
            pass
        self.reads = reads
        self.queue = Queue()
        path = pathlib.Path(self.file)
        if reads is not None:
            path = ThePath(self.file)
            path.world = self
        self.client = FileClient(
            FileDecodeTask(path, start, limit), self.queue, registry()[0],
            app_id(), env, mtu,
        )

    def append(self, data):
        with open(self.file, "ab", 0) as out:
            out.write(data)

    def limit(self, value):
        self.client.task = self.client.task._replace(max_frames=value)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def take(self):
        """What was delivered: contents, with None for the end."""
        return [shown(item) for item in ref.drain(self.queue)]


class Recording:
    """The frames of a file."""

    def __init__(self, kinds):
        self.data = b""
        self.ends = []  # (offset after the frame, content)
        self.starts = []
        self.largest = 1
        for num, kind in enumerate(kinds):
            raw, content = frame(kind, num)
            self.largest = max(self.largest, len(raw))
            self.starts.append(len(self.data))
            self.data += ref.prefixed(raw)
            if content is not None:
                self.ends.append((len(self.data), content))

    def complete(self, size):
        """Contents of the frames that are complete in a file of this size."""
        return [c for end, c in self.ends if end <= size]


def follow(ch, world, rec, sizes, limits):
    """Grow the file, reading after each step; everything is delivered."""
    got, size = [], 0
    limit = world.client.task.max_frames
    for new, bound in zip(sizes, limits):
        world.append(rec.data[size:new])
        size = new
        if bound != limit:
            limit = bound
            world.limit(limit)
        want = rec.complete(size)
        while True:
            try:
                world.client.run()
                break
            except OSError as exc:
                ch.check(str(exc) == "read failed", f"{exc!r}")
                part = world.take()
                ch.check(None not in part, "end reported when reading failed")
                got += part
                ch.equal(got, want[: len(got)], "frames delivered")
        part = world.take()
        if limit is not None:
            want = want[: max(limit, len(got))]
        if part and part[-1] is None:
            part.pop()
        else:
            ch.check(
                limit is not None and len(want) >= limit,
                "the end isn't reported",
            )
        got += part
        ch.equal(got, want, f"frames delivered of {size} bytes (max {limit})")
        ch.state((size, limit, len(got)))
    return got


def grow(count, steps, kinds, slack, bounds, raise_by=(), metered=False):
    """Files of so many frames, growing in so many steps."""

    def body(ch):
        rec = Recording([ch.pick(kinds) for _ in range(count)])
        total = len(rec.data)
        mtu = rec.largest + ch.pick(slack)
        limit = ch.pick(bounds)
        sizes, limits = [], []
        last = 0
        for _ in range(steps):
            last = last + ch.choose(total - last + 1)
            sizes.append(last)
            limits.append(limit)
            if limit is not None and raise_by:
                limit += ch.pick(raise_by)
        sizes.append(total)
        limits.append(limit)
        env = new_env() if metered else None
        world = World(mtu, limits[0], env=env)
        try:
            got = follow(ch, world, rec, sizes, limits)
        finally:
            world.close()
        ch.outcome((len(got), limit))

    return body


def reading(count, kinds, slack, short, fails, bounds=(None,)):
    """Reads which return less than asked for, or fail, at any point."""

    def body(ch):
        rec = Recording([ch.pick(kinds) for _ in range(count)])
        total = len(rec.data)
        left = {"short": short, "fail": fails}

        def how():
            options = [None]
            if left["short"]:
                options += [1, 2, 3, 4, 5, 17]
            if left["fail"]:
                options.append("fail")
            what = ch.pick(options)
            if what == "fail":
                left["fail"] -= 1
            elif what is not None:
                left["short"] -= 1
            return what

        limit = ch.pick(bounds)
        world = World(rec.largest + ch.pick(slack), limit, reads=how)
        cut = ch.pick([total, total // 2, total - 1])
        try:
            follow(ch, world, rec, [cut, total], [limit, limit])
        finally:
            world.close()
        ch.outcome((cut, limit))

    return body


def offset(ch):
    """Reading from a given position on."""
    rec = Recording([ch.pick(["data", "event", "crc"]) for _ in range(3)])
    start = ch.pick(rec.starts + [len(rec.data)])
    world = World(rec.largest, None, start=start)
    try:
        world.append(rec.data)
        world.client.run()
        want = [c for end, c in rec.ends if end > start]
        ch.equal(world.take(), want + [None], "frames delivered")
    finally:
        world.close()
    ch.outcome(len(want))


# ------------------------------------------------------------- schedules


def idle(client):
    while client.get_state().name != "IDLE":
        sched.v_sleep(0.01)


def live(kinds, pieces, stops, bound=None, metered=False):
    """A client running as a daemon while the file grows; stopped at any
    time, and started again."""

    def body(ch):
        sched.watch(OPS)
        rec = Recording(kinds)
        total = len(rec.data)
        box = {}

        def main():
            env = new_env() if metered else None
            world = box["world"] = World(
                rec.largest, bound, env=env, reads=lambda: None
            )
            client = world.client

            def write():
                for num in range(pieces):
                    world.append(
                        rec.data[total * num // pieces:
                                 total * (num + 1) // pieces]
                    )
                    sched.CURRENT.point("written")

            writer = sched.spawn("write", write)
            for _ in range(stops):
                if not client.start():
                    raise Violation("can't start")
                client.running.wait()
                client.stop()
                idle(client)  # it may have reached the end before
            sched.join_all([writer])
            if not client.start():
                raise Violation("can't start again")
            idle(client)

        try:
            done = sched.run(ch, main, timers=False)
            for name, err in sched.errors(done):
                raise Violation(f"{name} raised {type(err).__name__}: {err}")
            got = box["world"].take()
            want = rec.complete(total)[:bound]
            ch.equal([g for g in got if g is not None], want, "delivered")
            if bound is None or bound > len(want):
                ch.check(got[-1] is None, "the end isn't reported")
        finally:
            if "world" in box:
                box["world"].close()
        ch.outcome([g is None for g in got])

    return body


def recorded(rounds, bound=None, preempt=True):
    """What a stream writer records is what the client delivers."""

    def body(ch):
        sched.watch({})
        got = []
        sink = BytesIO()

        def main():
            env = TelemetryEnvironment(64, metrics_rate=1.0, app_id_basis=0.5)
            writer, queue = default_writer("w", env=env, queue=env.frame_queue)
            writer.add_stream(sink)
            with create(writer, env, 64, bound) as (client, frames):
                writer.start()
                for _ in range(rounds):
                    env.advance_time(10)
                    env.dispatch_now()
                    if ch.flag():
                        writer.await_empty()
                    if not client.start():
                        raise Violation("can't start")
                    idle(client)
                writer.await_empty()
                while not queue.empty():
                    sched.v_sleep(0.01)
                writer.stop()
                client.start()
                idle(client)
                got.extend(ref.drain(frames))

        done = sched.run(ch, main, timers=False, preempt=preempt)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        want, data, pos = [], sink.getvalue(), 0
        while pos < len(data):
            size = int.from_bytes(data[pos : pos + 4], "big")
            raw = data[pos + 4 : pos + 4 + size]
            pos += 4 + size
            want.append((raw[2], int.from_bytes(raw[3:11], "big"),
                         int.from_bytes(raw[11:15], "big")))
        ch.check(len(want) > bound if bound else len(want) >= 2 * rounds, "too few frames recorded")
        ch.equal(
            [(int(f.header.type), f.header.timestamp, f.header.size)
             for f in got if f is not None],
            want[:bound], "frames delivered",
        )
        ch.outcome(len(got))

    return body


def scenarios(tier):
    deep = tier == "thorough"
    every = GOOD + BAD
    return [
        Scenario("cut-1", grow(
            1, 2, every, [0, 1, 40] if deep else [0, 40], [None, 1]
        )),
        Scenario("cut-2", grow(
            2, 1, every, [0, 3], [None, 0, 1, 2] if deep else [None, 1]
        )),
        Scenario("cut-2x2", grow(
            2, 2, every if deep else ["data", "crc"], [0], [None, 1]
        )),
        Scenario("cut-3", grow(
            3, 1, ["data", "event", "crc", "nothing"], [0, 64], [None, 1, 2]
        )),
        Scenario("cut-4", grow(
            4, 0, every if deep else GOOD[:2] + BAD[:2],
            [0, 30, 200], [None, 1, 2, 3],
        )),
        Scenario("limits", grow(
            3, 2 if deep else 1, ["data", "crc"], [0, 30], [0, 1, 2],
            [0, 1, 2],
        )),
        Scenario("metered", grow(1, 1, every, [0], [None, 1], metered=True)),
        Scenario("short-reads", reading(
            2, ["data", "event", "nothing"], [0, 9], 3 if deep else 2, 0,
            [None, 1],
        )),
        Scenario("failing-reads", reading(
            3, ["data", "crc"], [0, 40], 1, 2 if deep else 1, [None, 2],
        )),
        Scenario("offset", offset),
        Scenario(
            "live", live(["data", "crc", "event"], 3, 1), 3 if deep else 2
        ),
        Scenario("live-metered", live(["data", "event"], 2, 1, metered=True),
                 1),
        Scenario("live-restarts", live(["data", "data2"], 2, 2), 2),
        Scenario(
            "live-limit", live(["data", "nothing", "data2", "event"], 2, 1, 2),
            2,
        ),
        Scenario("recorded", recorded(2), 1),
        Scenario("recorded-limit", recorded(2 if deep else 1, 3), 1),
    ]
