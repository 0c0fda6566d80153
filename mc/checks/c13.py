"""C13: dispatched frames reach consumers exactly once; nothing deadlocks."""
from io import BytesIO
import struct

from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from vtelem.channel.group import ChannelGroup
from vtelem.classes.metered_queue import MeteredQueue
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.classes.user_enum import user_enum
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.enums.primitive import Primitive
from vtelem.stream.writer import default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "bounds: 2-4 threads, up to the stated number of preemptions, switches at "
    "lock operations, queue operations and the stated instructions; frame "
    "queues of 1 or 2 elements stand for full queues",
    "sequential consistency (the interpreter's lock makes each instruction "
    "atomic)",
    "a consumer keeps consuming: with no consumer at all a dispatcher waits",
]
OPS = {
    "vtelem.channel.environment": {"STORE_SUBSCR", "CONTAINS_OP"},
    "vtelem.channel.framer": {"FOR_ITER"},
}
LOCKS: dict = {}  # switches at lock and queue operations only
WIDE = {
    "vtelem.channel.environment": sched.COARSE,
    "vtelem.channel.framer": sched.COARSE,
    "vtelem.telemetry.environment": sched.COARSE,
    "vtelem.stream.writer": sched.COARSE,
    "vtelem.classes.metered_queue": sched.FINE,
}
U8 = Primitive.UINT8


class World:
    """An environment with a small frame queue."""

    def __init__(self, mtu, size, chans=3, metrics=False):
        if metrics:
            # metrics are wider: the smallest event of one must fit
            mtu = max(mtu, ref.HEADER + 4 + 2 + 24)
        self.env = TelemetryEnvironment(
            mtu, app_id_basis=0.5, metrics_rate=1000.0 if metrics else None
        )
        self.ids = [
            # always due, also when dispatches overtake each other
            self.env.add_channel(f"c{i}", U8, -9.0, True) for i in range(chans)
        ]
        self.chans = chans
        if metrics:
            # only the channels of this world are due
            self.env.dispatch(500000.0, False)
            ref.drain(self.env.frame_queue)
            self.env.metrics_base = self.env.get_metric(
                "frame_queue.total_enqueued"
            )
        self.env.frame_queue.maxsize = size
        self.base = 500000.0 if metrics else 0.0
        self.metrics = metrics
        self.total = 0

    def dispatch(self, num, how="all"):
        """Dispatch number num: changes every channel before."""
        time = self.base + num
        self.env.set_time(time)
        for chan in self.ids:
            self.env.set_now(chan, num)
        if how == "all":
            return self.env.dispatch(time, False)
        data = self.env.dispatch_data(time)
        events = self.env.dispatch_events(time)
        return data[0] + events[0]

    def types(self):
        reg = self.env.channel_registry
        return {
            i: reg.get_item(i).type.value.name for i in range(reg.count())
        }


def judge(ch, world, frames, dispatches, total):
    """Frames (bytes, in order) of the dispatches, each exactly once.

    dispatches: lists of numbers, one per dispatching thread."""
    ch.equal(len(frames), total, "number of frames")
    types = world.types()
    mine = set(world.ids)
    data, events = {}, []
    for raw in frames:
        parsed = ref.parse(raw, types, True)
        stamp = parsed["stamp"] / 1000.0 - world.base
        if parsed["kind"] == ref.FRAME["data"]:
            vals = [(i, v[0]) for i, v in parsed["items"] if i in mine]
            data.setdefault(stamp, []).extend(vals)
        else:
            events.extend(
                (i, p[0][0], c[0][0]) for i, p, c in parsed["items"] if i in mine
            )
    every = [n for d in dispatches for n in d]
    ch.equal(sorted(data), sorted(float(n) for n in every), "dispatch times")
    for num, vals in data.items():
        ids = [i for i, _ in vals]
        ch.equal(ids, world.ids, f"channels of dispatch {num}")
        if len(dispatches) == 1:
            ch.check(all(v == num for _, v in vals), f"values {vals}")
    order = [t for t in data]
    for nums in dispatches:
        pos = [order.index(n) for n in nums]
        ch.check(pos == sorted(pos), f"frames arrive in the order {order}")
    # the changes of each channel form a chain, each exactly once
    for chan in world.ids:
        prev = 0
        for cid, old, new in events:
            if cid == chan:
                ch.check(old == prev, f"changes of {chan}: {events}")
                prev = new
        ch.equal(prev, world.env.get_value(chan), f"last change of {chan}")
    if len(dispatches) == 1:
        ch.equal(len(events), world.chans * len(every), "number of changes")


def run(ch, tasks, horizon=20000, first=None, timers=False):
    """Run the tasks concurrently; first: called in main once they started."""
    results = {}

    def main():
        threads = []
        for name, func in tasks:

            def go(key=name, call=func):
                results[key] = call()

            threads.append(sched.spawn(name, go))
        if first is not None:
            results["main"] = first(threads)
        sched.join_all(threads)

    done = sched.run(ch, main, timers=timers, horizon=horizon)
    for name, err in sched.errors(done):
        raise Violation(f"{name} raised {type(err).__name__}: {err}")
    return results


def grab(frame):
    return ref.raw(frame)[0]


def consume(world, done):
    """Take frames until the dispatchers are done and nothing is left."""

    def func():
        out = []
        while True:
            frame = world.env.frame_queue.get()
            if frame is None:
                return out
            out.append(grab(frame))

    del done
    return func


def small_mtu(per):
    """An MTU with room for per u8 values in a data frame."""
    return max(ref.HEADER + 4 + 3 * per, ref.HEADER + 4 + 2 + 18)


def pipeline(ops, size, threads, mtu, metrics, how="all", chans=3):
    """Dispatchers with dispatch numbers, one consumer."""

    def body(ch):
        sched.watch(ops)
        world = World(mtu, size, chans, metrics)
        nums = threads

        def dispatcher(mine):
            def func():
                return sum(world.dispatch(n, how) for n in mine)

            return func

        tasks = [(f"d{i}", dispatcher(n)) for i, n in enumerate(nums)]
        got = {}

        def first(spawned):
            cons = sched.spawn(
                "consumer", lambda: got.update(out=consume(world, None)())
            )
            sched.join_all(spawned)
            world.env.frame_queue.put(None)
            sched.join_all([cons])

        res = run(ch, tasks, first=first)
        total = sum(res[f"d{i}"] for i in range(len(nums)))
        judge(ch, world, got["out"], nums, total)
        ch.outcome(len(got["out"]))

    return body


def consumers(ops, size):
    """Two consumers: each frame goes to exactly one of them."""

    def body(ch):
        sched.watch(ops)
        world = World(1500, size, 1)
        got = {}

        def first(spawned):
            cons = [
                sched.spawn(
                    f"consumer{i}",
                    lambda i=i: got.update({i: consume(world, None)()}),
                )
                for i in range(2)
            ]
            sched.join_all(spawned)
            world.env.frame_queue.put(None)
            world.env.frame_queue.put(None)
            sched.join_all(cons)

        res = run(ch, [("d", lambda: world.dispatch(1))], first=first)
        both = got[0] + got[1]
        ch.equal(len(both), res["d"], "number of frames")
        ch.equal(len(set(both)), len(both), "distinct frames")
        types = world.types()
        counts = {}
        for raw in both:
            parsed = ref.parse(raw, types, True)
            for item in parsed["items"]:
                key = (parsed["kind"], item[0])
                counts[key] = counts.get(key, 0) + 1
        ch.check(
            len(counts) == 2 and set(counts.values()) == {1},
            f"items of the frames: {counts}",
        )
        ch.outcome((len(got[0]), len(got[1])))

    return body


USES = ["write", "command", "read", "register", "enum", "metric", "count",
        "group", "mtu", "has", "event"]
FEW = ["write", "register", "metric", "count"]


def waiting(ops, metrics, how="all", uses=tuple(USES)):
    """A dispatcher waits on a full queue; others go on working."""

    def body(ch):
        sched.watch(ops)
        world = World(small_mtu(1), 1, 2, metrics)
        env = world.env
        if metrics:
            env.add_metric("count", U8, False, (0, None))
        group = ChannelGroup("g", env)
        group.add_channel("x", U8, 9e9)
        acts = {
            "write": lambda: env.set_now(world.ids[0], 1),
            "command": lambda: env.command_channel("c1", 1),
            "read": lambda: env.get_value(world.ids[1]),
            "register": lambda: env.add_channel("new", U8, 9e9),
            "enum": lambda: env.add_enum(user_enum("kind", {0: "a"})),
            "metric": lambda: env.add_metric("late", U8),
            "count": lambda: env.metric_add("count", 1),
            "group": lambda: (group.write({"x": 4}), group.read()),
            "mtu": lambda: env.handle_new_mtu(2000),
            "has": lambda: env.has_enum(user_enum("other", {0: "a"})),
            "event": lambda: env.add_channel("ev", U8, 9e9, True, (3, 1.0)),
        }
        use = ch.pick(uses)
        got = {}

        def first(spawned):
            # the dispatcher can get no further than the full queue
            sched.join_all([spawned[1]])
            cons = sched.spawn(
                "consumer", lambda: got.update(out=consume(world, None)())
            )
            sched.join_all(spawned)
            env.frame_queue.put(None)
            sched.join_all([cons])

        res = run(
            ch,
            [("d", lambda: world.dispatch(1, how)), ("user", acts[use])],
            first=first,
        )
        ch.equal(len(got["out"]), res["d"], "number of frames")
        # the changes (of use too) are there at the latest next time
        env.frame_queue.maxsize = 0
        more = world.dispatch(2, how)
        frames = got["out"] + [grab(f) for f in ref.drain(env.frame_queue)]
        ch.equal(len(frames), res["d"] + more, "number of frames")
        types = world.types()
        chain = {}
        for raw in frames:
            parsed = ref.parse(raw, types, True)
            if parsed["kind"] == ref.FRAME["event"]:
                for cid, old, new in parsed["items"]:
                    last = chain.get(cid, old[0])
                    ch.equal(old[0], last, "chain of changes")
                    chain[cid] = new[0]
        for cid in world.ids:
            ch.equal(chain[cid], b"\x02", "last change")
        ch.outcome((use, len(frames)))

    return body


def written(ops, size, with_env, actions, nums=(1,)):
    """A dispatcher, a stream writer daemon and somebody adding sinks."""

    def body(ch):
        sched.watch(ops)
        world = World(1500 if with_env else small_mtu(2), size, 2, with_env)
        env = world.env
        writer, _ = default_writer(
            "w", env=env if with_env else None, queue=env.frame_queue
        )
        sink = BytesIO()
        other = BytesIO()
        writer.add_stream(sink, flush=True)

        def main_part(spawned):
            assert writer.start()
            sched.join_all(spawned)
            ch.check(writer.stop(60), "writer did not stop")

        def adder():
            for act in actions:
                if act == "stream":
                    sid = writer.add_stream(other)
                elif act == "remove":
                    ch.check(writer.remove_stream(sid), "stream not removed")
                elif act == "queue":
                    qid, queue = writer.registered_queue("mine")
                elif act == "unqueue":
                    ch.check(writer.remove_queue(qid), "queue not removed")
                    ch.check(ref.drain(queue)[-1] is None, "no end marker")
                elif act == "metric":
                    env.add_metric("late", U8)
                elif act == "channel":
                    env.add_channel("mine", U8, 9e9)

        res = run(
            ch,
            [("d", lambda: sum(world.dispatch(n) for n in nums)),
             ("adder", adder)],
            first=main_part,
        )
        frames = unprefix(sink.getvalue())
        judge(ch, world, frames, [list(nums)], res["d"])
        seen = unprefix(other.getvalue())
        ch.check(
            not seen or any(
                frames[i : i + len(seen)] == seen for i in range(len(frames))
            ),
            "frames of a sink added meanwhile",
        )
        if with_env:
            ch.equal(env.get_metric("w.stream_writes"),
                     len(frames) + len(seen), "stream_writes")
            ch.equal(env.get_metric("w.bytes_written"),
                     len(sink.getvalue()) + len(other.getvalue()),
                     "bytes_written")
        ch.outcome((len(frames), len(seen)))

    return body


def unprefix(data):
    out = []
    while data:
        size = struct.unpack(">I", data[:4])[0]
        out.append(data[4 : 4 + size])
        data = data[4 + size :]
    return out


def daemons(ops, size):
    """The telemetry daemon feeding a writer, stopped in turn."""

    def body(ch):
        sched.watch(ops)
        got = {}

        def main():
            keeper = TimeKeeper("time", 0.5)
            telem = TelemetryDaemon(
                "telem", ref.HEADER + 4 + 26, 0.1, keeper, None, app_id_basis=0.5
            )
            ids = [telem.add_channel(f"c{i}", U8, 0.0, True) for i in range(2)]
            telem.frame_queue.maxsize = size
            writer, _ = default_writer("w", queue=telem.frame_queue)
            sink = BytesIO()
            writer.add_stream(sink)
            assert writer.start()
            assert telem.start()
            for num in (1, 2):
                telem.set_now(ids[0], num)
                sched.v_sleep(0.1)
            ch.check(telem.stop(60), "telemetry did not stop")
            ch.check(writer.stop(60), "writer did not stop")
            telem.frame_queue.maxsize = 0
            telem.dispatch_now(should_log=False)
            frames = unprefix(sink.getvalue()) + [
                grab(f) for f in ref.drain(telem.frame_queue)
            ]
            got.update(frames=frames, telem=telem, ids=ids)

        done = sched.run(ch, main, timers=False)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        types = {i: "uint8" for i in range(got["telem"].channel_registry.count())}
        types.update(
            {i: got["telem"].channel_registry.get_item(i).type.value.name
             for i in types}
        )
        chain = []
        for raw in got["frames"]:
            parsed = ref.parse(raw, types, True)
            if parsed["kind"] == ref.FRAME["event"]:
                chain += [
                    (o[0][0], n[0][0]) for i, o, n in parsed["items"]
                    if i == got["ids"][0]
                ]
        ch.equal(chain, [(0, 1), (1, 2)], "changes")
        ch.outcome(len(got["frames"]))

    return body


def scenarios(tier):
    deep = tier == "thorough"
    more = 2 if deep else 1
    tight, wide = small_mtu(1), 1500
    two = [[1], [5]]
    out = [
        Scenario("one-free", pipeline(OPS, 0, [[1, 2]], tight, False, chans=2), 2),
        Scenario("one-full", pipeline(OPS, 1, [[1, 2]], tight, False, chans=2), 2),
        Scenario(
            "one-full-parts", pipeline(OPS, 1, [[1]], tight, False, "parts"), 2
        ),
        Scenario("one-full-metrics", pipeline(OPS, 1, [[1]], tight, True), 1),
        Scenario("two-wide", pipeline(OPS, 2, two, wide, False), more),
        Scenario("two-full", pipeline(OPS, 1, two, wide, False, chans=1), more),
        Scenario(
            "two-parts", pipeline(OPS, 1, two, wide, False, "parts", 1), more
        ),
        Scenario("two-consumers", consumers(OPS, 1), more),
        Scenario("waiting", waiting(OPS, False), more),
        Scenario(
            "waiting-parts",
            waiting(LOCKS, False, "parts", USES if deep else FEW),
            1,
        ),
        Scenario(
            "waiting-metrics",
            waiting(LOCKS, True, "all", USES if deep else FEW),
            1,
        ),
        Scenario("writer", written(LOCKS, 1, True, []), 1),
        Scenario(
            "writer-streams", written(LOCKS, 1, True, ["stream", "remove"]), 1
        ),
        Scenario("writer-queues", written(LOCKS, 1, True, ["queue", "unqueue"] if deep else ["queue"]), 1),
        Scenario(
            "writer-register", written(LOCKS, 1, True, ["metric", "channel"]), 1
        ),
        Scenario("writer-bare", written(OPS, 1, False, []), more),
        Scenario("writer-bare-streams", written(OPS, 1, False, ["stream"]), 1),
        Scenario("daemons", daemons(OPS, 1), 1),
        Scenario("one-full-all", pipeline(WIDE, 1, [[1]], tight, False), more),
        Scenario("waiting-all", waiting(WIDE, False), 1),
    ]
    if deep:
        out += [
            Scenario("two-tight", pipeline(OPS, 1, two, tight, False), 1),
            Scenario(
                "writer-twice", written(LOCKS, 1, True, ["stream"], (1, 2)), 1
            ),
            Scenario("waiting-twice", waiting(OPS, False), 2),
        ]
    return out
