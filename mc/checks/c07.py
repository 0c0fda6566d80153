"""C07: channels are emitted exactly when their rate says."""
from vtelem.channel import Channel
from vtelem.channel.environment import ChannelEnvironment
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "bounds: histories up to the stated depth over 2-4 channels; periods and "
    "times are multiples of 1/8 s, so period arithmetic is exact",
    "time does not move backwards between dispatches",
]
PRIM = {p.value.name: p for p in Primitive}


class Chan:
    """Reference channel."""

    def __init__(self, tname, rate, value):
        self.tname, self.rate, self.value, self.last = tname, rate, value, 0.0


def due(chans, time):
    """Reference schedule: what a dispatch at this time carries."""
    out = []
    for cid, chan in chans.items():
        if time - chan.last >= chan.rate:
            chan.last = time
            out.append((cid, ref.enc(chan.tname, chan.value)))
    return out


def carried(ch, frames, types, time, mtu):
    """Data items of the frames."""
    got, count = [], 0
    for frame in frames:
        data, size = ref.raw(frame)
        ch.check(size <= mtu, "frame over mtu")
        try:
            parsed = ref.parse(data, types, True)
        except ref.Bad as exc:
            raise Violation(f"frame not as documented: {exc}") from exc
        if parsed["kind"] == ref.FRAME["data"]:
            got.extend(parsed["items"])
            count += 1
            ch.equal(parsed["stamp"], ref.millis(time), "timestamp")
    return got, count


def history(depth, kind):
    """Operations against the reference schedule."""

    def body(ch):
        room = ch.pick([9, 400], "room") if kind != "metrics" else 400
        mtu = ref.HEADER + 4 + room
        params = {"app_id_basis": 0.5}
        if kind == "metrics":
            params["metrics_rate"] = 0.5
        if kind == "initial":
            params["initial_channels"] = [
                Channel("i0", PRIM["uint16"], 0.25),
                Channel("i1", PRIM["boolean"], 0.0),
            ]
        cls = TelemetryEnvironment if kind == "metrics" else ChannelEnvironment
        env = cls(mtu, **params)
        chans = {}
        if kind == "initial":
            for name, tname, rate, val in (
                ("i0", "uint16", 0.25, 0),
                ("i1", "boolean", 0.0, False),
            ):
                chans[env.channel_registry.get_id(name)] = Chan(tname, rate, val)
        ours = []
        for name, tname, rate in (("fast", "uint8", 0.25), ("slow", "int16", 1.0)):
            cid = env.add_channel(name, PRIM[tname], rate)
            chans[cid] = Chan(tname, rate, 0)
            ours.append((name, cid))
        types = {c: v.tname for c, v in chans.items()}
        now = 0.0
        total_emits = 0
        ops = ["disp", "t1", "t3", "t8", "wf", "cs", "r0", "r8", "rs", "add"]
        dispatched = False
        for step in range(depth):
            last = step == depth - 1
            oper = "disp" if last else ch.pick(ops, "op")
            ch.step()
            if oper[0] == "t":
                amount = int(oper[1]) / 8
                now += amount
                env.advance_time(amount)
            elif oper == "disp":
                # by explicit time, or by the environment's own clock
                before = {}
                if kind == "metrics":
                    before = env.get_metric("emits_captured")
                if dispatched:
                    count = env.dispatch_now(should_log=False)
                else:
                    count = env.dispatch(now, should_log=False)
                dispatched = not dispatched
                frames = ref.drain(env.frame_queue)
                if kind == "metrics":
                    names = all_types(env)
                    got, _ = carried(ch, frames, names, now, mtu)
                    emits = len(got)
                    ch.equal(
                        env.get_metric("emits_captured") - before,
                        emits,
                        "emits counted",
                    )
                    got = [x for x in got if x[0] in chans]
                else:
                    got, nframes = carried(ch, frames, types, now, mtu)
                    emits = len(got)
                    ch.equal(count, nframes, "frames reported")
                ch.equal(count, len(frames), "frames reported")
                total_emits += emits
                want = due(chans, now)
                ch.check(
                    got == want,
                    lambda g=got, w=want: f"at {now}: due {w}, emitted {g}",
                )
                ch.outcome((tuple(c for c, _ in got), count))
            elif oper == "wf":
                cid = ours[0][1]
                val = (chans[cid].value + 7) % 256
                ch.check(env.set_now(cid, val), "write refused")
                chans[cid].value = val
            elif oper == "cs":
                cid = ours[1][1]
                val = chans[cid].value - 1
                ch.check(env.command_channel("slow", val), "command refused")
                chans[cid].value = val
            elif oper == "r0":
                env.set_channel_rate(ours[0][1], 0.0)
                chans[ours[0][1]].rate = 0.0
            elif oper == "r8":
                env.set_channel_rate(ours[0][1], 1.0)
                chans[ours[0][1]].rate = 1.0
            elif oper == "rs":
                env.set_channel_rate(ours[1][1], 0.375)
                chans[ours[1][1]].rate = 0.375
            elif oper == "add":
                name = f"new{step}"
                cid = env.add_channel(name, PRIM["uint8"], 0.5, False, (3, None))
                chans[cid] = Chan("uint8", 0.5, 3)
                types[cid] = "uint8"
            for cid, chan in chans.items():
                ch.equal(env.get_value(cid), chan.value, f"value of {cid}")
            ch.state(
                (now, tuple((c.rate, c.last, c.value) for c in chans.values()))
            )

    return body


def all_types(env):
    """Types of all channels of an environment."""
    out = {}
    for cid in range(env.channel_registry.count()):
        out[cid] = env.channel_registry.get_channel_type(cid).value.name
    return out


def direct(ch):
    """The frame and emit counts reported by building data frames."""
    from queue import Queue

    mtu = ref.HEADER + 4 + ch.pick([3, 6, 9, 400], "room")
    env = ChannelEnvironment(mtu, app_id_basis=0.5)
    chans = {}
    for i in range(ch.choose(5, label="channels")):
        rate = ch.pick([0.0, 0.5, 2.0], "rate")
        cid = env.add_channel(f"c{i}", PRIM["uint8"], rate)
        chans[cid] = Chan("uint8", rate, 0)
    types = {c: "uint8" for c in chans}
    time = 0.0
    for _ in range(3):
        queue = Queue()
        frames, emits = env.framer.build_data_frames(time, queue)
        made = ref.drain(queue)
        got, _ = carried(ch, made, types, time, mtu)
        ch.equal(frames, len(made), "frames reported")
        ch.equal(emits, len(got), "emits reported")
        ch.equal(got, due(chans, time), f"emitted at {time}")
        ch.outcome((frames, emits))
        time += 0.5


def steps(count):
    """A single channel under every sequence of time steps and rates."""

    def body(ch):
        env = ChannelEnvironment(64, app_id_basis=0.5)
        rate = ch.pick([0.0, 0.125, 0.375, 1.0], "rate")
        cid = env.add_channel("c", PRIM["uint8"], rate)
        chans = {cid: Chan("uint8", rate, 0)}
        now = 0.0
        for _ in range(count):
            now += ch.pick([0, 1, 2, 3, 5, 8], "eighths") / 8
            change = ch.pick([None, 0.0, 0.25, 0.5], "new rate")
            if change is not None:
                env.set_channel_rate(cid, change)
                chans[cid].rate = change
            total = env.dispatch(now, should_log=False)
            got, _ = carried(
                ch, ref.drain(env.frame_queue), {cid: "uint8"}, now, 64
            )
            want = due(chans, now)
            ch.check(got == want, f"at {now}: due {want}, emitted {got}")
            ch.equal(total, len(want), "frames")
            ch.state((now, chans[cid].last, chans[cid].rate))
            ch.outcome(len(want))

    return body


def metric_rate(ch):
    """Metrics are channels at the metrics rate; each can be given its own."""
    env = TelemetryEnvironment(1500, metrics_rate=0.5, app_id_basis=0.5)
    chans = {}
    for cid in range(env.channel_registry.count()):
        name = env.channel_registry.get_item(cid).name
        chans[name] = Chan("", 0.5, None)
    ids = {
        name: env.channel_registry.get_id(name) for name in chans
    }
    now = 0.0
    for _ in range(4):
        oper = ch.pick(["t", "fast", "add"], "op")
        if oper == "fast":
            env.set_metric_rate("channel_count", 0.125)
            chans["channel_count"].rate = 0.125
        elif oper == "add":
            name = f"m{now}"
            if name not in chans:
                env.add_metric(name, PRIM["uint32"], False, (5, None))
                chans[name] = Chan("", 0.5, None)
                ids[name] = env.channel_registry.get_id(name)
        now += ch.pick([0.125, 0.375], "step")
        env.dispatch(now, should_log=False)
        got, _ = carried(
            ch, ref.drain(env.frame_queue), all_types(env), now, 1500
        )
        want = []
        for name, chan in chans.items():
            if now - chan.last >= chan.rate:
                chan.last = now
                want.append(ids[name])
        ch.equal([c for c, _ in got], want, f"metrics emitted at {now}")
        ch.outcome(len(want))


def scenarios(tier):
    deep = tier == "thorough"
    depth = 6 if deep else 5
    return [
        Scenario("history", history(depth + 1, "plain")),
        Scenario("history-initial", history(depth, "initial")),
        Scenario("history-metrics", history(depth, "metrics")),
        Scenario("direct", direct),
        Scenario("steps", steps(4 if deep else 3)),
        Scenario("metric-rate", metric_rate),
    ]
