"""C02: every captured channel change is framed once, in order, losslessly."""
from vtelem.channel.environment import ChannelEnvironment
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "bounds: histories up to the stated depth over 2-3 channels, values from a "
    "small alphabet, every MTU between one and all events per frame",
    "values are ones on which the language's equality and the wire agree "
    "(no NaN, no signed zeros)",
]
PRIM = {p.value.name: p for p in Primitive}
LIMIT = 256


class Model:
    """Reference: channels and their pending events."""

    def __init__(self):
        self.chans = {}  # id -> [type, value, time, tracked, commandable]
        self.pending = []

    def add(self, cid, tname, tracked, initial, commandable=True):
        val = {"boolean": False, "float": 0.0, "double": 0.0}.get(tname, 0)
        self.chans[cid] = [tname, val, 0.0, tracked, commandable]
        if initial is not None:
            self.write(cid, *initial)

    def write(self, cid, val, time):
        chan = self.chans[cid]
        if chan[3] and chan[1] != val and len(self.pending) < LIMIT:
            self.pending.append(
                (cid, chan[0], (chan[1], chan[2]), (val, time))
            )
        chan[1], chan[2] = val, time

    def take(self):
        out, self.pending = self.pending, []
        return out


def event_size(tname):
    return 2 + 2 * ref.TYPES[tname][1] + 16


def check_dispatch(ch, env, model, time, mtu, mode, others):
    """Dispatch; events of the frames must be the pending ones."""
    want = [
        (
            c,
            (ref.enc(t, p[0]), ref.millis(p[1])),
            (ref.enc(t, n[0]), ref.millis(n[1])),
        )
        for c, t, p, n in model.take()
    ]
    use_crc = mode != "none"
    total = env.dispatch(time, should_log=False)
    types = {c: v[0] for c, v in model.chans.items()}
    got = []
    frames = ref.drain(env.frame_queue)
    ch.equal(total, len(frames), "reported frames")
    count = 0
    for frame in frames:
        data, size = ref.raw(frame)
        ch.check(size <= mtu and len(data) == size, f"size {size}, mtu {mtu}")
        try:
            parsed = ref.parse(data, types, use_crc)
        except ref.Bad as exc:
            raise Violation(f"frame not as documented: {exc}") from exc
        if parsed["kind"] == ref.FRAME["data"]:
            continue
        count += 1
        ch.equal(parsed["kind"], ref.FRAME["event"], "type")
        ch.equal(parsed["stamp"], ref.millis(time), "timestamp")
        ch.equal(parsed["app"], env.app_id.get(), "app id")
        ch.check(parsed["count"] > 0, "empty event frame")
        got.extend(parsed["items"])
        for who in [env] + others:
            res = who.decode_frame(data, size, env.app_id)
            ch.check(res is not None, "own event frame rejected")
            ch.equal(int(res.header.type), 2, "decoded type")
            back = []
            for ev in res.body["events"]:
                tname = types[ev["id"]]
                back.append(
                    (
                        ev["id"],
                        (
                            ref.enc(tname, ev["previous"]["value"]),
                            ev["previous"]["time"],
                        ),
                        (
                            ref.enc(tname, ev["current"]["value"]),
                            ev["current"]["time"],
                        ),
                    )
                )
            ch.equal(back, parsed["items"], "decoded events")
    ch.check(got == want, lambda: f"events {want}, framed {got}")
    ch.outcome((len(want), count))
    return count


def history(depth, metrics=None):
    def body(ch):
        mode = ch.pick(["crc", "none"], "mode")
        small = event_size("double")
        mtu = ref.HEADER + (4 if mode != "none" else 0) + ch.pick(
            [small, small + event_size("uint8"), 400], "room"
        )
        cls = ch.pick([TelemetryEnvironment, ChannelEnvironment])
        env = cls(mtu, app_id_basis=0.5, use_crc=mode != "none", init_time=1.0)
        fresh = ChannelEnvironment(1500, app_id_basis=0.5)
        model = Model()
        # an untracked one first, so that identifiers and order differ
        specs = [
            ("plain", "uint8", False, None, True),
            ("wide", "double", True, None, True),
            ("byte", "uint8", True, (7, 0.5), True),
        ]
        for name, tname, tracked, init, cmd in specs:
            cid = env.add_channel(name, PRIM[tname], 50.0, tracked, init, cmd)
            fresh.add_channel(name, PRIM[tname], 50.0)
            model.add(cid, tname, tracked, init, cmd)
        now = 1.0
        ops = ["w1", "b1", "b2", "b!", "cmd", "time", "disp", "p1", "w2"]
        for _ in range(depth):
            oper = ch.pick(ops, "op")
            if oper == "time":
                now += 0.125
                env.advance_time(0.125)
            elif oper == "disp":
                check_dispatch(ch, env, model, now, mtu, mode, [fresh])
            elif oper == "b!":
                ch.check(not env.set_now(2, 256), "256 accepted by uint8")
                ch.check(not env.command_channel("byte", -1), "-1 accepted")
            elif oper == "cmd":
                ch.check(env.command_channel_id(2, 9), "command refused")
                model.write(2, 9, now)
            else:
                cid, val = {
                    "w1": (1, 1.5),
                    "w2": (1, -2.25),
                    "b1": (2, 9),
                    "b2": (2, 255),
                    "p1": (0, 3),
                }[oper]
                ch.check(env.set_now(cid, val), "write refused")
                model.write(cid, val, now)
            for cid, chan in model.chans.items():
                ch.equal(env.get_value(cid), chan[1], "value")
            ch.state((now, [c[1:3] for c in model.chans.values()], model.pending))
        check_dispatch(ch, env, model, now, mtu, mode, [fresh])
        check_dispatch(ch, env, model, now + 1, mtu, mode, [fresh])

    return body


def splits(ch):
    """All split positions for streams of events of differing widths."""
    mode = ch.pick(["crc", "none"], "mode")
    kinds = ch.pick(
        [
            ["uint8"], ["double"], ["uint8", "double"],
            ["double", "uint8", "uint8"], ["boolean", "int16", "float", "int64"],
        ],
        "channels",
    )
    count = 1 + ch.choose(9)
    need = max(event_size(k) for k in kinds)
    mtu = ref.HEADER + (4 if mode != "none" else 0) + need + ch.choose(80)
    env = ChannelEnvironment(mtu, app_id_basis=0.5, use_crc=mode != "none")
    fresh = ChannelEnvironment(1500, app_id_basis=0.5)
    model = Model()
    for i, kind in enumerate(kinds):
        cid = env.add_channel(f"c{i}", PRIM[kind], 50.0, True)
        fresh.add_channel(f"c{i}", PRIM[kind], 50.0)
        model.add(cid, kind, True, None)
    for i in range(count):
        cid = i % len(kinds)
        now = 1.0 + i * 0.125
        env.set_time(now)
        opts = ref.BOUNDARY[kinds[cid]]
        val = opts[1] if model.chans[cid][1] != opts[1] else opts[0]
        ch.check(env.set_now(cid, val), "refused")
        model.write(cid, val, now)
        ch.step()
    ch.state((mode, tuple(kinds), count, mtu))
    check_dispatch(ch, env, model, 9.5, mtu, mode, [fresh])
    check_dispatch(ch, env, model, 9.5, mtu, mode, [fresh])


def types(ch):
    """Every type and pair of boundary values."""
    tname = ch.pick(list(ref.TYPES), "type")
    opts = [
        v
        for v in ref.BOUNDARY[tname]
        if v == v and not (v == 0 and str(v) == "-0.0")
    ]
    first = ch.pick(opts, "first")
    second = ch.pick(opts, "second")
    how = ch.pick(["initial", "set", "command"], "how")
    env = ChannelEnvironment(100, app_id_basis=0.5, init_time=3.0)
    fresh = ChannelEnvironment(100, app_id_basis=0.5)
    model = Model()
    init = (first, 2.0) if how == "initial" else None
    cid = env.add_channel("x", PRIM[tname], 50.0, True, init)
    fresh.add_channel("x", PRIM[tname], 50.0)
    model.add(cid, tname, True, init)
    if how != "initial":
        call = env.set_now if how == "set" else env.command_channel_id
        ch.check(call(cid, first), "refused")
        model.write(cid, first, 3.0)
    env.advance_time(0.5)
    ch.check(env.set_now(cid, second), "refused")
    model.write(cid, second, 3.5)
    ch.step(2)
    ch.state((tname, repr(first), repr(second), how))
    check_dispatch(ch, env, model, 4.0, 100, "crc", [fresh])


def limit(ch):
    """Around the limit of pending changes, and recovery afterwards."""
    count = ch.pick([254, 255, 256, 257, 300], "changes")
    mtu = ch.pick([100, 400], "mtu")
    env = ChannelEnvironment(mtu, app_id_basis=0.5)
    fresh = ChannelEnvironment(1500, app_id_basis=0.5)
    model = Model()
    for name in ("a", "b"):
        cid = env.add_channel(name, Primitive.UINT16, 500.0, True)
        fresh.add_channel(name, Primitive.UINT16, 500.0)
        model.add(cid, "uint16", True, None)
    for rnd in range(2):
        for i in range(count):
            now = 1.0 + rnd * 100 + i * 0.125
            env.set_time(now)
            val = 1 + rnd * 1000 + i
            ch.check(env.set_now(i % 2, val), "refused")
            model.write(i % 2, val, now)
            ch.step()
        check_dispatch(ch, env, model, 400.0 + rnd, mtu, "crc", [fresh])
    ch.state((count, mtu))


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Scenario("types", types),
        Scenario("limit", limit),
        Scenario("splits", splits),
        Scenario("history", history(6 if deep else 4)),
    ]
