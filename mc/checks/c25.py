"""C25: telemetry decoded by a remote client equals what was published."""
import json
import os
import queue as queue_module
import select
import selectors
import shutil
import socket
import struct
import tempfile
from io import BytesIO
from pathlib import Path

from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from vtelem.channel import Channel
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.type_primitive import new_default
from vtelem.classes.user_enum import UserEnum
from vtelem.client import TelemetryClient
from vtelem.client.file import FileClient, FileDecodeTask
from vtelem.client.tcp import TcpClient
from vtelem.client.udp import UdpClient
from vtelem.client.websocket import WebsocketClient
from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
from vtelem.daemon.websocket_telemetry import WebsocketTelemetryDaemon
from vtelem.enums.primitive import Primitive
from vtelem.mtu import Host
from vtelem.stream.writer import default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.checks.util_net import (
    VirtualLoopSelector,
    open_fds,
    udp_manager,
    virtual_servers,
)
from mc.explore import Prune, Scenario, Violation

virtual_servers()

ASSUMPTIONS = [
    "histories to the stated depth over up to 4 channels added on the way; "
    "the client gets the JSON description of the channel and enum registries "
    "and the bytes of the stream, nothing else",
    "which channel holds which enum is known to the application (it is not "
    "part of the exported description); times are exact to the millisecond, "
    "float32 values to single precision",
    "transports are real loopback sockets whose waits are virtual; datagrams "
    "are not lost, and a client that is down while frames are sent may be "
    "detached",
    "events captured while the event queue has room",
]
PRIM = {p.value.name: p for p in Primitive}
TMP = tempfile.mkdtemp(prefix="c25-")


# ------------------------------------------------------- the remote side


def rebuild(text):
    """(registry, types) of a channel registry, from its description."""
    data = json.loads(text)
    chans = [v for v in data.values() if isinstance(v, dict)]
    table = next(
        v for v in chans if v and all(isinstance(x, dict) for x in v.values())
    ) if any(
        v and all(isinstance(x, dict) for x in v.values()) for v in chans
    ) else {}
    reg = ChannelRegistry()
    types = {}
    for key in sorted(table, key=int):
        item = table[key]
        kind = item["type"]
        prim = PRIM[kind["name"]]
        if (prim.value.size, prim.value.signed) != (
            kind["size"], kind["signed"]
        ):
            raise Violation(f"type described as {kind}")
        got = reg.add_channel(
            Channel(
                item["name"], prim, item["rate"],
                commandable=item["commandable"],
            )
        )
        if got != (True, int(key)):
            raise Violation(f"channel {key} described as {item}: {got}")
        types[int(key)] = kind["name"]
        if data["mappings"].get(item["name"]) != int(key):
            raise Violation(f"mapping of {item['name']}")
    return reg, types


def rebuild_enums(text):
    """name -> enum, from the description of an enum registry."""
    data = json.loads(text)
    return {v["name"]: UserEnum(v) for v in data["enums"].values()}


def flat(frames):
    """Comparable form of decoded frames."""
    out = []
    for frame in frames:
        kind = int(frame.header.type)
        if kind == ref.FRAME["data"]:
            for item in frame.body["channels"]:
                tname = item["channel"].type.value.name
                out.append(
                    ("d", frame.header.timestamp, item["id"],
                     ref.enc(tname, item["value"]))
                )
        elif kind == ref.FRAME["event"]:
            for item in frame.body["events"]:
                tname = item["channel"].type.value.name
                out.append(
                    ("e", frame.header.timestamp, item["id"],
                     (ref.enc(tname, item["previous"]["value"]),
                      item["previous"]["time"]),
                     (ref.enc(tname, item["current"]["value"]),
                      item["current"]["time"]))
                )
        elif kind != ref.FRAME["invalid"]:
            raise Violation(f"a frame of type {kind}")
    return out


def wire(frames, types):
    """The same of what the reference parser read."""
    out = []
    for parsed in frames:
        if parsed["kind"] == ref.FRAME["data"]:
            out += [("d", parsed["stamp"], i, v) for i, v in parsed["items"]]
        else:
            out += [("e", parsed["stamp"], i, p, c)
                    for i, p, c in parsed["items"]]
    return out


def split(stream):
    """The length-prefixed frames of a stream."""
    out = []
    while stream:
        if len(stream) < 4:
            raise Violation("the stream ends within a length")
        size = struct.unpack(">I", stream[:4])[0]
        if len(stream) < 4 + size:
            raise Violation("the stream ends within a frame")
        out.append(stream[4 : 4 + size])
        stream = stream[4 + size :]
    return out


def foreign(raw, known):
    """Whether a well-formed frame refers to channels not described."""
    count = struct.unpack(">I", raw[11:15])[0]
    ids = struct.unpack(f">{count}H", raw[15 : 15 + 2 * count])
    return any(i not in known for i in ids)


def decode(stream, reg, app_id, mtu, cuts):
    """What a client puts out when it gets the stream in these parts."""
    out = queue_module.Queue()
    client = TelemetryClient("remote", out, reg, app_id, mtu)
    size = new_default("count")
    pos = 0
    for cut in list(cuts) + [len(stream)]:
        if cut > pos:
            client.handle_frames(
                client.processor.process(stream[pos:cut], size, mtu)
            )
            pos = cut
    return ref.drain(out)


# ----------------------------------------------------- (A) histories

KINDS = {
    "u8": ("uint8", 1.0, True, None),
    "f32": ("float", 3.0, True, (0.1, 0.5)),
    "flag": ("boolean", 1.0, False, None),
    "wide": ("double", 0.0, True, None),
    "i64": ("int64", 2.0, False, (-5, None)),
}
VALUES = {
    "uint8": [7, 0, 255],
    "float": [0.1, -2.5],
    "boolean": [True, False],
    "double": [0.1, 1e300],
    "int64": [-(2**63), 2**40],
}
ENUMS = {
    "mode": {0: "idle", 1: "busy", 7: "hot"},
    "kind": {3: "small", 250: "large"},
}


def new_enum(name):
    return UserEnum(
        {"name": name, "mappings": dict(ENUMS[name]), "default": None}
    )


class World:
    """The publishing side and its model."""

    def __init__(self, ch, metrics, room, crc):
        self.ch = ch
        self.mtu = ref.HEADER + 4 + room
        self.crc = crc
        self.env = TelemetryEnvironment(
            self.mtu, init_time=1.0, app_id_basis=0.25, use_crc=crc,
            metrics_rate=1.0 if metrics else None,
        )
        self.now = 1.0
        self.writer, _ = default_writer("w", queue=self.env.frame_queue)
        self.sink = BytesIO()
        self.writer.add_stream(self.sink)
        self.chans = {}  # id -> [type, value, time, rate, tracked, last, enum]
        self.pending = []
        self.log = []  # (stamp, {id: bytes}, [events])
        self.exports = []
        self.snaps = []
        self.watched = {}
        self.export()

    def export(self):
        """Hand the descriptions out."""
        text = self.env.channel_registry.describe()
        if not self.exports or self.exports[-1][0] != text:
            self.exports.append(
                (text, self.env.enum_registry.describe(),
                 self.sink.tell())
            )

    def add(self, kind):
        name = f"{kind}{len(self.chans)}"
        if kind in ENUMS:
            self.env.add_enum(new_enum(kind))
            initial = ("hot", 0.25) if kind == "mode" else None
            cid = self.env.add_enum_channel(name, kind, 1.0, True, initial)
            self.chans[cid] = ["uint8", 0, 0.0, 1.0, True, 0.0, kind]
            if initial:
                self.write(cid, 7, 0.25)
        else:
            tname, rate, tracked, initial = KINDS[kind]
            cid = self.env.add_channel(
                name, PRIM[tname], rate, tracked, initial
            )
            zero = {"boolean": False, "float": 0.0, "double": 0.0}.get(tname, 0)
            self.chans[cid] = [tname, zero, 0.0, rate, tracked, 0.0, None]
            if initial is not None:
                self.write(cid, initial[0], initial[1] or 0.0)
        self.ch.equal(self.env.channel_registry.get_id(name), cid, "id")

    def write(self, cid, val, time):
        chan = self.chans[cid]
        if chan[4] and chan[1] != val:
            self.pending.append((cid, chan[1], chan[2], val, time))
        chan[1], chan[2] = val, time

    def set(self, cid, how):
        chan = self.chans[cid]
        if chan[6] is None:
            vals = VALUES[chan[0]]
            val = vals[(vals.index(chan[1]) + 1) % len(vals)] if (
                chan[1] in vals) else vals[0]
            name = next(
                n for n, i in
                self.env.channel_registry.data["mappings"].items() if i == cid
            )
            done = self.env.set_now(cid, val) if how == "set" else (
                self.env.command_channel(name, val)
            )
        else:
            table = ENUMS[chan[6]]
            keys = sorted(table)
            val = keys[(keys.index(chan[1]) + 1) % len(keys)] if (
                chan[1] in keys) else keys[0]
            done = (
                self.env.set_enum_now(cid, table[val]) if how == "set" else
                self.env.command_enum_channel_id(cid, table[val])
            )
        self.ch.equal(done, True, f"{how} of channel {cid}")
        self.write(cid, val, self.now)

    def snap(self):
        """What the metrics hold now."""
        if self.env.metrics is None:
            return {}
        out = {}
        for cid in list(self.env.metrics.values()):
            chan = self.env.channel_registry.get_item(cid)
            out[cid] = (chan.type.value.name,
                        ref.enc(chan.type.value.name, chan.get()))
        return out

    def go(self):
        """Advance and dispatch; the writer passes everything on."""
        self.now += 1.0
        self.env.set_time(self.now)
        before = self.snap()
        due = {}
        for cid, chan in self.chans.items():
            if self.now >= chan[5] + chan[3]:
                due[cid] = ref.enc(chan[0], chan[1])
                chan[5] = self.now
        events = [
            (c, (ref.enc(self.chans[c][0], pv), ref.millis(pt)),
             (ref.enc(self.chans[c][0], v), ref.millis(t)))
            for c, pv, pt, v, t in self.pending
        ]
        self.pending = []
        self.env.dispatch_now(should_log=False)
        self.log.append(
            (ref.millis(self.now), due, events, before, self.snap())
        )
        self.env.frame_queue.put(None)
        self.writer.run()


def judge(ch, world, modes):
    """Decode the stream with every description handed out."""
    world.export()
    stream = world.sink.getvalue()
    env = world.env
    raws = split(stream)
    ours = set(world.chans)
    mets = set() if env.metrics is None else set(env.metrics.values())
    for num, (text, enum_text, _) in enumerate(world.exports):
        reg, types = rebuild(text)
        last = num == len(world.exports) - 1
        if last:
            ch.equal(set(types), ours | mets, "channels described")
        known = set(types)
        keep = [r for r in raws if not foreign(r, known)]
        if last:
            ch.equal(len(keep), len(raws), "frames of described channels")
        parsed = []
        for raw in keep:
            try:
                parsed.append(ref.parse(raw, types, world.crc))
            except ref.Bad as exc:
                raise Violation(f"frame not as documented: {exc}") from exc
        want = wire(parsed, types)
        for mode in modes:
            if mode == "whole":
                cuts = []
            elif mode == "bytes":
                cuts = range(1, len(stream))
            elif mode == "frames":
                cuts, pos = [], 0
                for raw in raws:
                    pos += 4 + len(raw)
                    cuts.append(pos)
            else:
                cuts = range(mode, len(stream), mode)
            got = decode(stream, reg, env.app_id, world.mtu, cuts)
            ch.check(
                flat(got) == want,
                lambda: f"decoded {flat(got)}, sent {want} (parts: {mode})",
            )
        if not last:
            continue
        # what was sent is what was published
        values(ch, world, want)
        enums = rebuild_enums(enum_text)
        for cid, chan in world.chans.items():
            if chan[6] is None:
                continue
            table = enums[chan[6]]
            for key, name in ENUMS[chan[6]].items():
                ch.equal(table.get_str(key), name, "name of an enum value")
            if chan[1] not in ENUMS[chan[6]]:
                # never given one of its values
                continue
            held = table.get_str(chan[1])
            ch.equal(
                env.get_enum_value(cid), held, "name the server holds"
            )
        ch.outcome(hash(stream))


def values(ch, world, items):
    """The decoded items against the model of what was published."""
    ours = set(world.chans)
    mets = {}
    for stamp, due, events, before, after in world.log:
        mine = [i for i in items if i[1] == stamp]
        data = [i for i in mine if i[0] == "d"]
        ch.equal(
            sorted((i[2], i[3]) for i in data if i[2] in ours),
            sorted(due.items()),
            f"values at {stamp}",
        )
        seen = [i[2] for i in data]
        ch.equal(len(set(seen)), len(seen), f"channels sent at {stamp}")
        ch.equal(
            [i[2:] for i in mine if i[0] == "e" and i[2] in ours],
            events,
            f"events at {stamp}",
        )
        for item in data:
            if item[2] in ours:
                continue
            cid = item[2]
            ch.check(
                item[3] in (before[cid][1], after[cid][1]),
                f"metric {cid} at {stamp}: {item[3]}, held {before[cid]} "
                f"then {after[cid]}",
            )
        for item in mine:
            if item[0] == "e" and item[2] not in ours:
                mets.setdefault(item[2], []).append(item)
    ch.equal(
        len(items),
        sum(1 for i in items if i[1] in {e[0] for e in world.log}),
        "items of dispatches",
    )
    # a metric's events continue each other and pass through what it held
    for cid, chain in mets.items():
        for one, two in zip(chain, chain[1:]):
            ch.equal(two[3], one[4], f"previous value of metric {cid}")
        went = [chain[0][3][0]] + [i[4][0] for i in chain]
        pos = 0
        for _, _, _, before, _ in world.log:
            if cid not in before:
                continue
            while pos < len(went) and went[pos] != before[cid][1]:
                pos += 1
            ch.check(
                pos < len(went),
                f"metric {cid} held {before[cid]}, told {went}",
            )


def history(depth, metrics, rooms, start=("u8",), late=False):
    def body(ch):
        world = World(ch, metrics, ch.pick(rooms), ch.pick([True, False]))
        for kind in start:
            world.add(kind)
        world.export()
        ops = ["go", "add", "set", "command", "rate", "enum"]
        if late:
            ops.append("metrics")
        for step in range(depth):
            act = ch.pick(ops)
            if act == "go":
                world.go()
            elif act == "add":
                if len(world.chans) >= 4:
                    raise Prune("enough channels")
                world.add(ch.pick([k for k in KINDS]))
                world.export()
            elif act == "enum":
                if len(world.chans) >= 4:
                    raise Prune("enough channels")
                world.add(ch.pick(sorted(ENUMS)))
                world.export()
            elif act in ("set", "command"):
                world.set(ch.pick(sorted(world.chans)), act)
            elif act == "rate":
                cid = ch.pick(sorted(world.chans))
                rate = 2.0 if world.chans[cid][3] != 2.0 else 0.5
                world.env.set_channel_rate(cid, rate)
                world.chans[cid][3] = rate
                world.export()
            elif act == "metrics":
                if world.env.metrics is not None:
                    raise Prune("metrics already")
                world.env.register_base_metrics(1.0)
                world.export()
            ch.state((step, [c[1:6] for c in world.chans.values()],
                      world.now, len(world.pending)))
        world.go()
        if metrics or late:
            world.go()
        judge(ch, world, ["whole", "frames", 5])
        world.sink.close()

    return body


# ------------------------------------------ (B) a stream, every cut


def sample(ch, metrics=True, goes=2):
    """A stream of data and event frames, with its description."""
    world = World(ch, metrics, 60, True)
    for kind in ("u8", "mode", "wide"):
        world.add(kind)
    for num in range(goes):
        for cid in sorted(world.chans):
            world.set(cid, "set")
        world.go()
        del num
    world.export()
    return world


SAMPLES = {}


def sampled(ch, metrics, goes):
    """(stream, registry, its items, app id, mtu), always the same."""
    key = (metrics, goes)
    if key not in SAMPLES:
        world = sample(ch, metrics, goes)
        stream = world.sink.getvalue()
        reg, types = rebuild(world.exports[-1][0])
        want = wire([ref.parse(r, types) for r in split(stream)], types)
        SAMPLES[key] = (stream, reg, want, world.env.app_id, world.mtu)
    return SAMPLES[key]


def cutting(count):
    """Every way to cut the stream in up to count + 1 parts."""

    def body(ch):
        stream, reg, want, app_id, mtu = sampled(
            ch, count == 1, 2 if count == 1 else 1
        )
        cuts, low = [], 1
        for _ in range(count):
            cut = ch.pick(range(low, len(stream) + 1))
            cuts.append(cut)
            low = cut
        got = decode(stream, reg, app_id, mtu, cuts)
        ch.check(flat(got) == want, lambda: f"cut at {cuts}: {flat(got)}")
        ch.outcome(tuple(cuts))

    return body


def files(parts):
    """A recording read by a file client as it grows, cut anywhere."""

    def body(ch):
        stream, reg, want, app_id, least = sampled(ch, True, 1)
        folder = Path(tempfile.mkdtemp(dir=TMP))
        path = folder / "a.vtelem"
        out = queue_module.Queue()
        env = TelemetryEnvironment(least, app_id_basis=0.25)
        mtu = ch.pick([least, 1500])
        try:
            path.write_bytes(b"")
            client = FileClient(
                FileDecodeTask(path), out, reg, app_id, env, mtu
            )
            pos = 0
            for num in range(parts + 1):
                cut = len(stream) if num == parts else ch.pick(
                    range(pos, len(stream) + 1)
                )
                with path.open("ab") as stream_file:
                    stream_file.write(stream[pos:cut])
                pos = cut
                client.run()
            items = ref.drain(out)
        finally:
            shutil.rmtree(folder)
        ch.equal(items.count(None), parts + 1, "ends of the file reported")
        got = flat([i for i in items if i is not None])
        ch.check(got == want, lambda: f"read {got}, recorded {want}")
        ch.outcome(mtu)

    return body


# ------------------------------------------------- (C) (D) transports

SHORT = [None]  # most bytes a read of a stream may give


def _waits(name):
    """A receiving method that waits in virtual time and may give parts."""

    def method(self, what, *rest):
        limit = self.gettimeout()
        real = getattr(super(socket.socket, self), name)
        if sched.me() is None or sched.CURRENT.aborting or limit == 0:
            return real(what, *rest)

        def ready():
            if self.fileno() == -1:
                return True
            return bool(select.select([self], [], [], 0)[0])

        sched.CURRENT.wait(ready, "recv", limit)
        if not ready():
            raise socket.timeout("timed out")
        if SHORT[0] is not None and self.type == socket.SOCK_STREAM:
            if name == "recv_into":
                rest = (min(rest[0] if rest and rest[0] else len(what),
                            SHORT[0]),) + rest[1:]
            else:
                what = min(what, SHORT[0])
        return real(what, *rest)

    return method


RECEIVING = {n: _waits(n) for n in ("recv", "recvfrom", "recv_into")}


def _sendall(self, data, *flags):
    """Have the kernel deliver it before anything else happens."""
    try:
        return super(socket.socket, self).sendall(data, *flags)
    finally:
        os.sched_yield()


class Publisher:
    """An environment with a writer thread; publishes numbered values."""

    def __init__(self, ch):
        self.ch = ch
        self.env = TelemetryEnvironment(
            400, init_time=1.0, app_id_basis=0.25
        )
        self.env.add_enum(new_enum("mode"))
        self.chan = self.env.add_channel("n", Primitive.UINT32, 1.0, True)
        self.state = self.env.add_enum_channel("m", "mode", 1.0, True)
        self.num = 0
        self.writer, _ = default_writer("w", queue=self.env.frame_queue)
        self.reg, self.types = rebuild(self.env.channel_registry.describe())
        self.sent = []  # per publication: its items
        self.last = {self.chan: (0, 0), self.state: (0, 0)}

    def publish(self):
        """One dispatch: a data frame and an event frame."""
        self.num += 1
        now = 1.0 + self.num
        self.env.set_time(now)
        stamp = ref.millis(now)
        modes = sorted(ENUMS["mode"])
        vals = {
            self.chan: self.num,
            self.state: modes[self.num % len(modes)],
        }
        self.env.set_now(self.chan, vals[self.chan])
        self.env.set_enum_now(
            self.state, ENUMS["mode"][vals[self.state]]
        )
        count = self.env.dispatch_now(should_log=False)
        items = []
        for cid in (self.chan, self.state):
            tname = self.types[cid]
            items.append(("d", stamp, cid, ref.enc(tname, vals[cid])))
        for cid in (self.chan, self.state):
            tname = self.types[cid]
            prev, when = self.last[cid]
            items.append(
                ("e", stamp, cid, (ref.enc(tname, prev), when),
                 (ref.enc(tname, vals[cid]), stamp))
            )
            self.last[cid] = (vals[cid], stamp)
        self.sent.append(items)
        self.ch.equal(count, 2, "frames published")
        return items


def await_state(daemon, name):
    for _ in range(300):
        if daemon.get_state().name == name:
            return
        sched.v_sleep(0.01)
    raise Violation(f"{daemon.name} is {daemon.get_state().name}, not {name}")


def play(ch, main, timers=False, preempt=False, watch=None, order_cost=1):
    """Run with patched sockets and event loops."""
    real = selectors.DefaultSelector
    selectors.DefaultSelector = VirtualLoopSelector
    for name, method in RECEIVING.items():
        setattr(socket.socket, name, method)
    socket.socket.sendall = _sendall
    sched.watch(watch or {})
    try:
        done = sched.run(
            ch, main, timers=timers, preempt=preempt, order_cost=order_cost,
            horizon=60000,
        )
    finally:
        for name in RECEIVING:
            delattr(socket.socket, name)
        del socket.socket.sendall
        selectors.DefaultSelector = real
        SHORT[0] = None
    for name, err in sched.errors(done):
        if isinstance(err, Violation):
            raise err
        raise Violation(f"{name} raised {type(err).__name__}: {err}")


def settle(amount=1.0):
    sched.v_sleep(amount)


def taken(client_out):
    """(items decoded, ends reported); nothing may follow an end."""
    items = ref.drain(client_out)
    return flat([i for i in items if i is not None]), items


class Link:
    """A client and what serves it; the model of the connection."""

    def __init__(self, ch, pub):
        self.ch, self.pub = ch, pub
        self.out = queue_module.Queue()
        self.env = TelemetryEnvironment(1500, app_id_basis=0.25)
        self.up = False  # the client runs
        self.want = []  # items it must put out
        self.ends = 0
        self.make()

    def client_kwargs(self):
        return {"app_id": self.pub.env.app_id, "env": self.env}

    def check(self):
        got = ref.drain(self.out)
        ends = self.ends
        if ends is not None:
            self.ch.equal(got.count(None), ends, "ends reported")
            if ends:
                self.ch.check(got[-1] is None, "frames after the end")
        items = flat([g for g in got if g is not None])
        want = self.want
        self.ch.check(
            items == want, lambda: f"decoded {items}, published {want}"
        )
        self.want, self.ends = [], 0 if ends is not None else None


class Tcp(Link):
    """A connection carries what was published while it was served; the
    client created first has its connection from the beginning."""

    def make(self):
        self.daemon = TcpTelemetryDaemon(
            "tcp", self.pub.writer, self.pub.env, Host("127.0.0.1", 0)
        )
        self.serving = False
        self.client = None
        self.conn = None  # None or {"served", "held"}

    def start_server(self):
        self.ch.equal(self.daemon.start(), True, "server start")
        await_state(self.daemon, "RUNNING")
        self.serving = True
        if self.conn:
            self.conn["served"] = True

    def stop_server(self):
        self.ch.equal(self.daemon.stop(), True, "server stop")
        self.serving = False
        if self.conn and self.conn["served"]:
            # the connection ends, after what it carries
            if self.up:
                self.end()
            else:
                self.conn["over"] = True

    def end(self):
        """The client ends by itself or is stopped."""
        self.up = False
        self.conn = None
        self.ends += 1

    def connect(self):
        self.conn = {"served": self.serving, "held": [], "over": False}

    def start_client(self):
        if self.client is None:
            self.client = TcpClient(
                Host("127.0.0.1", self.daemon.address[1]),
                self.out, self.pub.reg, **self.client_kwargs(), mtu=400,
            )
            self.connect()
            settle()
        if self.conn is None:
            self.connect()
        self.ch.equal(self.client.start(), True, "client start")
        self.up = True
        self.want += self.conn["held"]
        self.conn["held"] = []
        if self.conn["over"]:
            self.end()

    def create(self):
        """The client exists, but is not started yet."""
        if self.client is not None:
            raise Prune("created already")
        self.client = TcpClient(
            Host("127.0.0.1", self.daemon.address[1]),
            self.out, self.pub.reg, **self.client_kwargs(), mtu=400,
        )
        self.connect()

    def stop_client(self):
        self.ch.equal(self.client.stop(), True, "client stop")
        self.end()

    def publish(self):
        items = self.pub.publish()
        if self.conn and self.conn["served"] and not self.conn["over"]:
            if self.up:
                self.want += items
            else:
                self.conn["held"] += items

    def finish(self):
        if self.up:
            self.stop_client()
        if self.serving:
            self.stop_server()
        self.daemon.server.server_close()
        if self.client is not None and self.client.socket.fileno() != -1:
            self.client.socket.close()

    def ops(self):
        out = ["publish"]
        out.append("stop_server" if self.serving else "start_server")
        if self.client is None:
            out.append("create")
        out.append("stop_client" if self.up else "start_client")
        return out


def peer(pairs):
    """A server that stops anywhere in a stream: it goes on after a while, or
    the connection ends and the next one carries all of it."""

    def body(ch):
        # the stream: two dispatches
        pub = Publisher(ch)
        sink = BytesIO()
        pub.writer.add_stream(sink)
        items = pub.publish()
        one = ref.drain(pub.env.frame_queue)
        items += pub.publish()
        for frame in one + ref.drain(pub.env.frame_queue):
            pub.env.frame_queue.put(frame)
        pub.env.frame_queue.put(None)
        pub.writer.run()
        stream = sink.getvalue()
        plan = [
            (ch.pick(("pause", "drop")), ch.pick(range(1, len(stream))))
            for _ in range(pairs)
        ]
        # where each frame ends, and the items up to there
        frames, pos = [], 0
        for raw in split(stream):
            pos += 4 + len(raw)
            frames.append((pos, wire([ref.parse(raw, pub.types)], pub.types)))

        def upto(start, end):
            return [i for p, part in frames if start < p <= end for i in part]

        def main():
            served = socket.create_server(("127.0.0.1", 0))
            out = queue_module.Queue()
            client = TcpClient(
                Host("127.0.0.1", served.getsockname()[1]), out, pub.reg,
                app_id=pub.env.app_id,
                env=TelemetryEnvironment(1500, app_id_basis=0.25), mtu=400,
            )
            want = []

            def put(data):
                conn.sendall(data)
                settle()

            ch.equal(client.start(), True, "client start")
            conn, _ = served.accept()
            settle()
            at = 0
            for how, cut in plan:
                if cut > at:
                    put(stream[at:cut])
                    want += upto(at, cut)
                    at = cut
                if how == "drop":
                    conn.close()
                    settle()
                    want.append(None)
                    ch.equal(client.get_state().name, "IDLE", "client state")
                    ch.equal(client.start(), True, "client start")
                    settle()
                    conn, _ = served.accept()
                    at = 0
                    settle()
            put(stream[at:])
            want += upto(at, len(stream))
            ch.equal(client.stop(), True, "client stop")
            want.append(None)
            settle()
            conn.close()
            served.close()
            got = []
            for item in ref.drain(out):
                got += [None] if item is None else flat([item])
            ch.check(
                got == want,
                lambda: f"{plan}: decoded {got}, sent {want}",
            )

        play(ch, main)
        ch.equal(items, upto(0, len(stream)), "what was published")
        ch.outcome(plan)

    return body


class Udp(Link):
    """Datagrams reach the client while it runs and is attached."""

    def make(self):
        with_sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        with_sock.bind(("127.0.0.1", 0))
        self.host = Host(*with_sock.getsockname())
        with_sock.close()
        self.man = udp_manager(self.pub.writer)
        self.client = None
        self.sid = None
        self.suspect = False  # may be detached
        self.flush = True
        self.held = []  # not flushed yet

    def start_client(self):
        if self.client is None:
            self.client = UdpClient(
                self.host, self.out, self.pub.reg, **self.client_kwargs(),
                mtu=1500,
            )
        self.ch.equal(self.client.start(), True, "client start")
        self.up = True

    def stop_client(self):
        self.ch.equal(self.client.stop(), True, "client stop")
        self.up = False
        self.ends += 1

    def attach(self):
        if not self.up:
            raise Prune("nobody listens")
        self.flush = self.ch.flag("buffered") is False
        self.sid, mtu = self.man.add_client(self.host, self.flush)
        self.client.update_mtu(mtu)
        self.suspect = False

    def detach(self):
        self.man.remove_client(self.sid)
        self.sid = None
        if self.up:
            self.want += self.held
        self.held = []

    def publish(self):
        if self.suspect:
            raise Prune("who knows")
        items = self.pub.publish()
        if self.sid is None:
            return
        if not self.up:
            self.suspect = True
            return
        if self.flush:
            self.want += items
        else:
            self.held += items

    def check(self):
        if self.held:
            # these may be sent any time, in order
            got = ref.drain(self.out)
            ends = got.count(None)
            self.ch.equal(ends, self.ends, "ends reported")
            items = flat([g for g in got if g is not None])
            both = self.want + self.held
            self.ch.check(
                items == both[: len(items)] and len(items) >= len(self.want),
                lambda: f"decoded {items}, published {both}",
            )
            self.held = both[len(items):]
            self.want, self.ends = [], 0
            return
        super().check()

    def finish(self):
        if self.sid is not None and not self.suspect:
            self.detach()
            settle()
            self.check()
        if self.up:
            self.stop_client()
        self.man.remove_all()

    def ops(self):
        out = ["publish"]
        out.append("stop_client" if self.up else "start_client")
        out.append("attach" if self.sid is None else "detach")
        return out


class Websocket(Link):
    """Messages reach the client while it runs and is connected."""

    def make(self):
        with_sock = socket.socket()
        with_sock.bind(("127.0.0.1", 0))
        host = Host(*with_sock.getsockname())
        with_sock.close()
        self.daemon = WebsocketTelemetryDaemon(
            "ws", self.pub.writer, host, self.pub.env
        )
        self.client = WebsocketClient(
            host, self.out, self.pub.reg, **self.client_kwargs(), mtu=400
        )
        self.serving = False
        self.linked = False
        self.ends = None

    def start_server(self):
        self.ch.equal(self.daemon.start(), True, "server start")
        await_state(self.daemon, "RUNNING")
        self.serving = True

    def stop_server(self):
        self.ch.equal(self.daemon.stop(), True, "server stop")
        self.serving = False
        self.linked = False

    def start_client(self):
        if not self.serving:
            raise Prune("nobody serves")
        self.ch.equal(self.client.start(), True, "client start")
        await_state(self.client, "RUNNING")
        self.up = self.linked = True

    def stop_client(self):
        self.ch.equal(self.client.stop(), True, "client stop")
        self.up = self.linked = False

    def kick(self):
        """The server disconnects its clients."""
        self.ch.equal(
            self.daemon.close_clients(), int(self.linked), "clients closed"
        )
        self.linked = False

    def publish(self):
        items = self.pub.publish()
        if self.linked:
            self.want += items

    def finish(self):
        if self.up:
            self.stop_client()
        if self.serving:
            self.stop_server()
        for daemon in (self.client, self.daemon):
            loop = daemon.eloop
            server = getattr(daemon, "server", None)
            if server is not None:
                for sock in list(server.sockets or ()):
                    # what asyncio shows is a view of the socket
                    getattr(sock, "_sock", sock).close()
            loop.close()

    def ops(self):
        out = ["publish"]
        out.append("stop_server" if self.serving else "start_server")
        out.append("stop_client" if self.up else "start_client")
        if self.serving:
            out.append("kick")
        out.append("wait")
        return out

    def wait(self):
        """Nothing is published for a while."""
        settle(4.0)


def transport(kind, depth, first=(), chunks=(None,)):
    """Every history of a server, a client and publications."""

    def body(ch):
        # only histories that publish are of interest
        chunk = ch.pick(chunks)

        def main():
            pub = Publisher(ch)
            link = kind(ch, pub)
            SHORT[0] = chunk
            pub.writer.start()
            await_state(pub.writer, "RUNNING")
            trace = []
            try:
                plan = list(first)
                for _ in range(depth + len(first)):
                    act = plan.pop(0) if plan else ch.pick(link.ops())
                    trace.append(act)
                    getattr(link, act)()
                    settle()
                    link.check()
                ch.outcome(trace)
            finally:
                if not sched.CURRENT.aborting:
                    link.finish()
                    settle()
            link.check()
            ch.equal(pub.writer.stop(), True, "writer stop")
            for name in ("streams", "queues"):
                left = getattr(pub.writer, name)
                if not getattr(link, "suspect", False):
                    ch.check(not left, f"left in {name}: {left}")

        play(ch, main)

    return body


def race(plan, bound_ops):
    """Publications concurrent with what happens to the connection."""

    def body(ch):
        box = {}

        def main():
            with sched.quiet():
                pub = Publisher(ch)
                link = Tcp(ch, pub)
                pub.writer.start()
                await_state(pub.writer, "RUNNING")
                link.start_server()
                if plan != "start":
                    link.start_client()
                    await_state(link.client, "RUNNING")
                    settle()
                else:
                    link.create()
                    settle()
            box["link"] = link

            def publisher():
                for _ in range(2):
                    pub.publish()

            def other():
                if plan == "stop":
                    ch.equal(link.client.stop(), True, "stop")
                elif plan == "start":
                    ch.equal(link.client.start(), True, "start")
                elif plan == "server":
                    ch.equal(link.daemon.stop(), True, "server stop")

            tasks = [sched.spawn("publisher", publisher)]
            if plan != "none":
                tasks.append(sched.spawn("other", other))
            sched.join_all(tasks)
            with sched.quiet():
                settle()
                every = [i for s in pub.sent for i in s]
                got = ref.drain(link.out)
                items = flat([g for g in got if g is not None])
                if plan in ("none", "start"):
                    ch.equal(got.count(None), 0, "ends")
                    ch.check(
                        items == every,
                        lambda: f"decoded {items}, published {every}",
                    )
                else:
                    ch.equal(got.count(None), 1, "ends")
                    ch.check(got[-1] is None, "frames after the end")
                    ch.check(
                        items == every[: len(items)],
                        lambda: f"decoded {items}, published {every}",
                    )
                ch.outcome((plan, len(items)))
                link.up = link.client.get_state().name == "RUNNING"
                link.serving = link.daemon.get_state().name == "RUNNING"
                link.conn = None
                if link.up:
                    link.client.stop()
                if link.serving:
                    link.daemon.stop()
                link.daemon.server.server_close()
                if link.client.socket.fileno() != -1:
                    link.client.socket.close()
                pub.writer.stop()

        fds = open_fds()
        play(ch, main, preempt=True, watch=bound_ops, order_cost=0)
        left = open_fds()
        ch.check(left <= fds, lambda: f"open descriptors: {left}, had {fds}")

    return body


WATCH = {
    "vtelem.client.socket": sched.COARSE,
    "vtelem.client": sched.COARSE,
}


def setters(ch):
    """Two writers, a dispatcher and the stream writer, on every schedule."""
    box = {}

    def main():
        with sched.quiet():
            env = TelemetryEnvironment(400, init_time=1.0, app_id_basis=0.25)
            one = env.add_channel("a", Primitive.UINT8, 1.0, True)
            two = env.add_channel("b", Primitive.UINT16, 1.0, True)
            writer, _ = default_writer("w", queue=env.frame_queue)
            sink = BytesIO()
            writer.add_stream(sink)
            writer.start()
            await_state(writer, "RUNNING")
        box.update(sink=sink, env=env)

        def setter(cid, vals):
            for val in vals:
                env.set_now(cid, val)

        def dispatcher():
            for num in range(2):
                env.dispatch(2.0 + num, should_log=False)

        tasks = [
            sched.spawn("one", lambda: setter(one, [1, 2])),
            sched.spawn("two", lambda: setter(two, [500, 600])),
            sched.spawn("dispatcher", dispatcher),
        ]
        sched.join_all(tasks)
        with sched.quiet():
            env.dispatch(10.0, should_log=False)
            writer.stop()

    play(ch, main, preempt=True, order_cost=0, watch={
        "vtelem.channel.framer": sched.COARSE,
        "vtelem.classes.event_queue": sched.COARSE,
    })
    env, stream = box["env"], box["sink"].getvalue()
    reg, types = rebuild(env.channel_registry.describe())
    raws = split(stream)
    want = wire([ref.parse(r, types) for r in raws], types)
    for cuts in ([], range(7, len(stream), 7)):
        got = flat(decode(stream, reg, env.app_id, 400, cuts))
        ch.check(got == want, lambda: f"decoded {got}, sent {want}")
    for cid, tname, vals in ((0, "uint8", [0, 1, 2]), (1, "uint16", [0, 500, 600])):
        chain = [i for i in want if i[0] == "e" and i[2] == cid]
        ch.equal(
            [(i[3][0], i[4][0]) for i in chain],
            [(ref.enc(tname, p), ref.enc(tname, c))
             for p, c in zip(vals, vals[1:])],
            f"changes of channel {cid}",
        )
        told = [i[3] for i in want if i[0] == "d" and i[2] == cid]
        encs = [ref.enc(tname, v) for v in vals]
        order = [encs.index(t) for t in told]
        ch.equal(order, sorted(order), f"values of channel {cid}")
        ch.equal((len(told), told[-1]), (3, encs[-1]), f"values of {cid}")
    ch.outcome(want)


def scenarios(tier):
    deep = tier == "thorough"
    parts = (None, 1, 3, 7)
    return [
        Scenario(
            "history",
            history(5 if deep else 4, False,
                    [34, 60, 400] if deep else [34, 400]),
        ),
        Scenario(
            "history-metrics", history(4 if deep else 3, True, [40, 400])
        ),
        Scenario(
            "history-late",
            history(4 if deep else 3, False, [60], ("u8", "mode"), True),
        ),
        Scenario("cuts-1", cutting(1)),
        Scenario("cuts-2", cutting(2)),
        Scenario("files", files(2 if deep else 1)),
        Scenario("tcp", transport(Tcp, 6 if deep else 5), 1),
        Scenario(
            "tcp-parts",
            transport(Tcp, 4 if deep else 3, ("start_server", "start_client"),
                      parts),
            1,
        ),
        Scenario("peer", peer(2 if deep else 1), 0),
        Scenario("udp", transport(Udp, 6 if deep else 5), 1),
        Scenario(
            "websocket",
            transport(Websocket, 4 if deep else 3,
                      ("start_server", "start_client")),
            0,
        ),
        Scenario("race-none", race("none", WATCH), 2 if deep else 1),
        Scenario("race-stop", race("stop", WATCH), 2 if deep else 1),
        Scenario("race-start", race("start", WATCH), 2 if deep else 1),
        Scenario("race-server", race("server", WATCH), 2 if deep else 1),
        Scenario("setters", setters, 2 if deep else 1),
    ]
