"""C01: data frames carry exactly the values due, in the documented layout."""
from vtelem.channel import Channel
from vtelem.channel.environment import ChannelEnvironment
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "bounds: channel lists up to 4 (mixed) or 320 (uniform), every MTU of the "
    "stated ranges, boundary values only, fewer than 256 frames per dispatch",
    "the reference byte layout (mc/ref.py) is written from the documentation",
]
PRIM = {p.value.name: p for p in Primitive}
SMALL = ["boolean", "int16", "float", "uint64"]  # one per size


def check_dispatch(ch, env, chans, time, mode, fresh, mtu):
    """chans: [(id, type, value)] due; verify one dispatch at a time."""
    use_crc = mode != "none"
    total = env.dispatch(time, should_log=False)
    frames = ref.drain(env.frame_queue)
    ch.check(total == len(frames), f"dispatch said {total}, made {len(frames)}")
    types = {i: t for i, t, _ in chans}
    got = []
    app = env.app_id.get()
    for frame in frames:
        data, size = ref.raw(frame)
        ch.check(size <= mtu, f"frame of {size} bytes over mtu {mtu}")
        ch.check(len(data) == size, "frame shorter than it reports")
        if mode == "invalid":
            try:
                ref.parse(data, types, True)
                raise Violation("checksum valid though asked not to be")
            except ref.Bad as exc:
                ch.check(str(exc) == "crc", f"bad frame: {exc}")
            parsed = ref.parse(data[:-4], types, False)
        else:
            try:
                parsed = ref.parse(data, types, use_crc)
            except ref.Bad as exc:
                raise Violation(f"frame not as documented: {exc}") from exc
        ch.equal(parsed["app"], app, "app id")
        ch.equal(parsed["kind"], 1, "frame type")
        ch.equal(parsed["stamp"], ref.millis(time), "timestamp")
        ch.check(parsed["count"] > 0, "empty frame")
        got.extend(parsed["items"])
        for who in (env, fresh):
            for extra in (b"", b"\xa5\x5a\x00\xff\x01"):
                if extra and mode == "none":
                    continue
                res = who.decode_frame(data + extra, size, env.app_id)
                if mode == "invalid":
                    ch.check(res is None, "bad checksum accepted")
                    continue
                ch.check(res is not None, "own frame rejected")
                ch.equal(res.header.app_id, app, "decoded app id")
                ch.equal(int(res.header.type), 1, "decoded type")
                ch.equal(res.header.timestamp, ref.millis(time), "decoded time")
                ch.equal(res.header.size, parsed["count"], "decoded count")
                ch.equal(res.header.length, size, "decoded length")
                ch.check(
                    (res.footer.crc is not None) == use_crc, "decoded crc"
                )
                back = res.body["channels"]
                ch.equal(
                    [c["id"] for c in back],
                    [i for i, _ in parsed["items"]],
                    "decoded ids",
                )
                for chan, (cid, val) in zip(back, parsed["items"]):
                    ch.check(
                        ref.same(types[cid], chan["value"], ref.dec(types[cid], val)),
                        f"decoded value {chan['value']!r}",
                    )
    want = [(i, ref.enc(t, v)) for i, t, v in chans]
    ch.check(got == want, lambda: f"published {want}, carried {got}")
    sizes = [len(f.raw[0][: f.raw[1]]) for f in frames]
    ch.outcome((len(frames), tuple(sizes[:6])))
    ch.state((tuple(t for _, t, _ in chans)[:4], len(chans), mtu, mode))
    ch.step(len(chans) + 1)
    return len(frames)


def build(mtu, specs, mode, via="add", cls=ChannelEnvironment):
    """An environment with channels; specs: [(type, value)]."""
    init = None
    if via == "initial":
        init = [Channel(f"c{i}", PRIM[t], 0.0) for i, (t, _) in enumerate(specs)]
    env = cls(
        mtu, initial_channels=init, app_id_basis=0.375, use_crc=mode != "none"
    )
    env.write_crc = mode != "invalid"
    ids = []
    for i, (tname, val) in enumerate(specs):
        if via == "add":
            ids.append(env.add_channel(f"c{i}", PRIM[tname], 0.0))
        else:
            ids.append(env.channel_registry.get_id(f"c{i}"))
        if not env.set_now(ids[-1], val):
            raise Violation(f"{tname} refused {val!r}")
    return env, ids


def over(mode):
    return ref.HEADER + (0 if mode == "none" else 4)


def one(ch, specs, mtu, mode, time, via="add", cls=ChannelEnvironment):
    env, ids = build(mtu, specs, mode, via, cls)
    fresh, _ = build(1500, specs, mode)
    chans = [(i, t, v) for i, (t, v) in zip(ids, specs)]
    check_dispatch(ch, env, chans, time, mode, fresh, mtu)
    # again, with changed values: nothing of the first dispatch remains
    nxt = []
    for cid, tname, val in chans:
        alt = ref.BOUNDARY[tname][1]
        ch.check(env.set_now(cid, alt), "second value refused")
        nxt.append((cid, tname, alt))
        del val
    check_dispatch(ch, env, nxt, time + 0.25, mode, fresh, mtu)


MODES = ["crc", "none", "invalid"]


def single(ch):
    tname = ch.pick(list(ref.TYPES), "type")
    val = ch.pick(ref.BOUNDARY[tname], "value")
    mode = ch.pick(MODES, "mode")
    slack = ch.pick([0, 1, 7, 1000], "slack")
    time = ch.pick([0.0, 1.5, 1700000000.125], "time")
    via = ch.pick(["add", "initial"], "via")
    cls = ch.pick([ChannelEnvironment, TelemetryEnvironment])
    mtu = over(mode) + 2 + ref.TYPES[tname][1] + slack
    one(ch, [(tname, val)], mtu, mode, time, via, cls)


def pairs(ch):
    first = ch.pick(list(ref.TYPES), "type")
    second = ch.pick(list(ref.TYPES), "type")
    val1 = ch.pick(ref.BOUNDARY[first], "value")
    val2 = ch.pick(ref.BOUNDARY[second][-2:], "value")
    need = [2 + ref.TYPES[t][1] for t in (first, second)]
    for mode in ("crc", "none"):
        mtu = over(mode) + ch.pick([max(need), sum(need)], "room")
        one(ch, [(first, val1), (second, val2)], mtu, mode, 2.5)


def mixed(count, modes):
    def body(ch):
        specs = []
        for _ in range(count):
            tname = ch.pick(SMALL, "type")
            specs.append((tname, ref.BOUNDARY[tname][-1 if tname != "float" else 1]))
        mode = ch.pick(modes, "mode")
        need = [2 + ref.TYPES[t][1] for t, _ in specs]
        extra = ch.choose(sum(need) - max(need) + 2)
        one(ch, specs, over(mode) + max(need) + extra, mode, 3.0)

    return body


def uniform(limit, step):
    """Long lists: every split position."""

    def body(ch):
        tname = ch.pick(SMALL, "type")
        mode = ch.pick(["crc", "none"], "mode")
        per = ch.pick([1, 2, 3, 7, 10], "per frame")
        count = 1 + step * ch.choose(limit // step)
        each = 2 + ref.TYPES[tname][1]
        slack = ch.pick(sorted({0, 1, each - 1}), "slack")
        vals = ref.BOUNDARY[tname]
        specs = [(tname, vals[i % len(vals)]) for i in range(count)]
        mtu = over(mode) + per * each + slack
        env, ids = build(mtu, specs, mode)
        fresh, _ = build(1500, specs, mode)
        chans = [(i, t, v) for i, (t, v) in zip(ids, specs)]
        check_dispatch(ch, env, chans, 4.0, mode, fresh, mtu)

    return body


def wide(ch):
    """Counts and ids which do not fit one byte."""
    tname = ch.pick(["boolean", "uint16", "double"], "type")
    count = ch.pick([254, 255, 256, 257, 300, 320], "count")
    mode = ch.pick(["crc", "none"], "mode")
    vals = ref.BOUNDARY[tname]
    specs = [(tname, vals[i % len(vals)]) for i in range(count)]
    mtu = ch.pick([over(mode) + 300 * (2 + ref.TYPES[tname][1]), 65535], "mtu")
    env, ids = build(mtu, specs, mode)
    fresh, _ = build(1500, specs, mode)
    chans = [(i, t, v) for i, (t, v) in zip(ids, specs)]
    check_dispatch(ch, env, chans, 4.0, mode, fresh, mtu)


def nothing(ch):
    """Nothing due: no frame."""
    mode = ch.pick(MODES, "mode")
    count = ch.pick([0, 1, 3], "channels")
    env = ChannelEnvironment(64, app_id_basis=0.5, use_crc=mode != "none")
    for i in range(count):
        env.add_channel(f"c{i}", Primitive.UINT8, 5.0)
    for time in (0.0, 1.0, 4.875):
        ch.equal(env.dispatch(time, should_log=False), 0, "frames reported")
        ch.check(env.frame_queue.empty(), "frame though nothing is due")
        ch.step()
    ch.equal(
        env.dispatch(5.0, should_log=False), 1 if count else 0, "frames at 5 s"
    )
    ch.outcome((mode, count))


def shrink(ch):
    """A smaller MTU taken over later holds for all further frames."""
    first = ch.pick([64, 200], "mtu")
    new = ch.pick([over("crc") + 10, 40, 64, 300], "new mtu")
    specs = [("uint64", 2**64 - 1)] * 6
    env, ids = build(first, specs, "crc")
    fresh, _ = build(1500, specs, "crc")
    chans = [(i, t, v) for i, (t, v) in zip(ids, specs)]
    check_dispatch(ch, env, chans, 1.0, "crc", fresh, first)
    env.handle_new_mtu(new)
    total = env.dispatch(2.0, should_log=False)
    sizes = [f.raw[1] for f in ref.drain(env.frame_queue)]
    ch.equal(len(sizes), total, "frames")
    ch.check(max(sizes) <= min(first, new), f"frames {sizes} over {new}")
    ch.outcome(tuple(sizes))


def scenarios(tier):
    deep = tier == "thorough"
    out = [
        Scenario("single", single),
        Scenario("pairs", pairs),
        Scenario("mixed2", mixed(2, MODES)),
        Scenario("mixed3", mixed(3, MODES)),
        Scenario("mixed4", mixed(4, MODES if deep else ["crc"])),
        Scenario("uniform", uniform(60 if deep else 24, 1)),
        Scenario("wide", wide),
        Scenario("nothing", nothing),
        Scenario("shrink", shrink),
    ]
    if deep:
        out.append(Scenario("mixed5", mixed(5, ["crc", "none"])))
    return out
