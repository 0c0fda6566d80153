"""C11: channel groups are written and sampled atomically."""
from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from vtelem.channel.group import ChannelGroup
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "bounds: 2-3 threads, up to the stated number of preemptions, switches at "
    "lock operations and at the stated instructions of the listed modules",
    "sequential consistency (the interpreter's lock makes each instruction "
    "atomic)",
    "an update is one write() (or the synchronisation at the end of a group "
    "section); a section's reading and writing are two separate steps",
]
# the writes of values and the steps of the loops over channels; lock
# operations are points everywhere
NEAR = {
    "vtelem.classes.type_primitive": {"STORE_ATTR"},
    "vtelem.channel.group": sched.COARSE,
    "vtelem.channel.framer": {"FOR_ITER"},
}
WIDE = {
    name: sched.COARSE
    for name in (
        "vtelem.channel",
        "vtelem.channel.environment",
        "vtelem.channel.framer",
        "vtelem.channel.group_registry",
        "vtelem.classes.time_entity",
        "vtelem.registry",
        "vtelem.telemetry.environment",
    )
}
WIDE.update(
    {
        "vtelem.channel.group": sched.FINE,
        "vtelem.classes.type_primitive": sched.FINE,
    }
)
NAMES = {0: "zero", 1: "one", 2: "two", 11: "eleven", 12: "twelve"}


def build(metrics=False, extra=True, mtu=1500):
    """An environment and a group of x (u8), m (enum), y (u8)."""
    env = TelemetryEnvironment(
        mtu, app_id_basis=0.5, metrics_rate=1.0 if metrics else None
    )
    env.add_enum(user_enum("num", NAMES))
    group = ChannelGroup("g", env)
    assert group.add_channel("x", Primitive.UINT8, 0.0)
    if extra:
        assert group.add_enum_channel("m", "num", 0.0)
    assert group.add_channel("y", Primitive.UINT8, 0.0)
    return env, group


def update(num, extra=True):
    """One whole update."""
    out = {"x": num, "y": num}
    if extra:
        out["m"] = NAMES[num]
    return out


def one(ch, values, what):
    """All channels are of one update: its number."""
    nums = {v if isinstance(v, int) else {b: a for a, b in NAMES.items()}[v]
            for v in values.values()}
    ch.check(len(nums) == 1, lambda: f"{what} sees a torn update: {values}")
    return nums.pop()


def sampled(ch, env, time):
    """The values carried by one dispatch, by channel name."""
    env.dispatch(time, should_log=False)
    with sched.quiet():
        types, names = {}, {}
        for cid in range(env.channel_registry.count()):
            chan = env.channel_registry.get_item(cid)
            types[cid] = chan.type.value.name
            names[cid] = chan.name
        out = {}
        for frame in ref.drain(env.frame_queue):
            data, _ = ref.raw(frame)
            parsed = ref.parse(data, types, True)
            if parsed["kind"] != ref.FRAME["data"]:
                continue
            for cid, val in parsed["items"]:
                out[names[cid]] = ref.dec(types[cid], val)
    return out


def ordered(ch, seen, writers, final):
    """What one observer saw agrees with the order of every writer."""
    for nums in writers:
        pos = [nums.index(s) for s in seen if s in nums]
        ch.check(pos == sorted(pos), f"saw {seen}, written as {nums}")
    ends = [w[-1] for w in writers]
    ch.check(final in ends, f"in the end {final}, last written {ends}")
    if len(writers) == 1 and seen:
        known = [0] + list(writers[0])
        ch.check(all(s in known for s in seen), f"saw {seen}")


def execute(ch, env, group, tasks):
    """Run the tasks; returns what each gave."""
    results = {}

    def main():
        threads = []
        for name, func in tasks:

            def go(key=name, call=func):
                results[key] = call()

            threads.append(sched.spawn(name, go))
        sched.join_all(threads)

    run = sched.run(ch, main)
    errs = sched.errors(run)
    if errs:
        raise Violation(f"{errs[0][0]} raised {errs[0][1]!r}")
    del env
    return results, one(ch, group.read(), "the end")


def writer(group, nums, extra=True, how="write"):
    def func():
        for num in nums:
            if how == "write":
                group.write(update(num, extra))
            else:
                with group.data() as data:
                    data.update(update(num, extra))

    return func


def reader(ch, group, count, how="read"):
    def func():
        out = []
        for _ in range(count):
            if how == "read":
                out.append(one(ch, group.read(), "a read"))
            else:
                with group.data() as data:
                    out.append(one(ch, dict(data), "a section"))
        return out

    return func


def dispatcher(ch, env, count, extra=True):
    def func():
        out = []
        for i in range(count):
            got = sampled(ch, env, 1.0 + i)
            names = ["g.x", "g.y"] + (["g.m"] if extra else [])
            out.append(
                one(ch, {n: got.get(n, -1) for n in names}, "a dispatch")
            )
        return out

    return func


def read_write(ops, count, how):
    """One writer, one reader."""

    def body(ch):
        sched.watch(ops)
        env, group = build()
        res, final = execute(
            ch, env, group,
            [
                ("writer", writer(group, [1, 2], how=how)),
                ("reader", reader(ch, group, count)),
            ],
        )
        ordered(ch, res["reader"], [[1, 2]], final)
        ch.outcome((tuple(res["reader"]), final))

    return body


def sections(ops):
    """A reader using a section against a writer: never torn.

    The section writes back what it read, so afterwards either update may
    stand, but as a whole."""

    def body(ch):
        sched.watch(ops)
        env, group = build()
        groups = ChannelGroupRegistry(env)
        gid = groups.create_group("h")
        groups.add_channel(gid, "x", Primitive.UINT8, 0.0)
        groups.add_channel(gid, "y", Primitive.UINT8, 0.0)
        other = groups.get_item(gid)

        def sect():
            with groups.group(gid) as data:
                seen = one(ch, dict(data), "a section")
            return [seen]

        res, final = execute(
            ch, env, group,
            [
                ("writer", writer(other, [1], False)),
                ("reader", sect),
                ("watcher", reader(ch, other, 1)),
            ],
        )
        one(ch, other.read(), "the end")
        ch.outcome((tuple(res["reader"]), tuple(res["watcher"]), final))

    return body


def dispatch_write(ops, mtu, count, extra):
    """A dispatcher against a writer, also with frames being split."""

    def body(ch):
        sched.watch(ops)
        env, group = build(extra=extra, mtu=mtu)
        res, final = execute(
            ch, env, group,
            [
                ("writer", writer(group, [1, 2][:count], extra)),
                ("dispatch", dispatcher(ch, env, count, extra)),
            ],
        )
        ordered(ch, res["dispatch"], [[1, 2][:count]], final)
        ch.outcome((tuple(res["dispatch"]), final))

    return body


def two_writers(ops, observe):
    """Two writers and an observer."""

    def body(ch):
        sched.watch(ops)
        env, group = build()
        if observe == "read":
            third = reader(ch, group, 2)
        else:
            third = dispatcher(ch, env, 1)
        res, final = execute(
            ch, env, group,
            [
                ("first", writer(group, [1, 2])),
                ("second", writer(group, [11])),
                ("third", third),
            ],
        )
        ordered(ch, res["third"], [[1, 2], [11]], final)
        ch.outcome((tuple(res["third"]), final))

    return body


def unacceptable(ops, observe):
    """Part of an update is not acceptable; the rest is still atomic."""

    def body(ch):
        sched.watch(ops)
        env, group = build(extra=False)
        group.add_channel("bad", Primitive.UINT8, 0.0)
        group.add_channel("z", Primitive.UINT8, 0.0)

        def write():
            group.write({"x": 1, "bad": 999, "y": 1, "z": 1})

        def look():
            if observe == "read":
                got = group.read()
                del got["bad"]
            else:
                got = sampled(ch, env, 1.0)
                got = {n: got.get("g." + n, -1) for n in ("x", "y", "z")}
            return one(ch, got, observe)

        results = {}

        def main():
            threads = [
                sched.spawn("writer", write),
                sched.spawn("looker", lambda: results.update(got=look())),
            ]
            sched.join_all(threads)

        run = sched.run(ch, main)
        # reporting the refusal by raising would be fine as well
        got = group.read()
        ch.equal(got.pop("bad"), 0, "refused value")
        final = one(ch, got, "the end")
        ch.check(
            all(n == "writer" for n, _ in sched.errors(run)), "looker raised"
        )
        ch.outcome((results["got"], final))

    return body


def commands(ops):
    """A command on another channel does not disturb a group."""

    def body(ch):
        sched.watch(ops)
        env, group = build(extra=False)
        env.add_channel("solo", Primitive.UINT8, 0.0)
        res, final = execute(
            ch, env, group,
            [
                ("writer", writer(group, [1, 2], False)),
                ("commander", lambda: env.command_channel("solo", 7)),
                ("dispatch", dispatcher(ch, env, 1, False)),
            ],
        )
        ch.check(res["commander"], "command refused")
        ch.equal(env.get_value(env.channel_registry.get_id("solo")), 7, "solo")
        ordered(ch, res["dispatch"], [[1, 2]], final)
        ch.outcome((tuple(res["dispatch"]), final))

    return body


def scenarios(tier):
    deep = tier == "thorough"
    more = 2 if deep else 1
    mtu = ref.HEADER + 4 + 3
    out = [
        Scenario("read-write", read_write(NEAR, 2, "write"), bound=2),
        Scenario("read-data", read_write(NEAR, 1, "data"), bound=2),
        Scenario("sections", sections(NEAR), bound=2),
        Scenario("dispatch", dispatch_write(NEAR, 1500, 1, True), bound=2),
        Scenario("dispatch-two", dispatch_write(NEAR, 1500, 2, False), bound=2),
        Scenario("dispatch-split", dispatch_write(NEAR, mtu, 1, True), bound=2),
        Scenario("two-writers", two_writers(NEAR, "read"), bound=more),
        Scenario("two-writers-dispatch", two_writers(NEAR, "disp"), bound=more),
        Scenario("unacceptable", unacceptable(WIDE, "read"), bound=2),
        Scenario("unacceptable-dispatch", unacceptable(NEAR, "disp"), bound=2),
        Scenario("commands", commands(NEAR), bound=more),
        Scenario("read-write-wide", read_write(WIDE, 1, "write"), bound=more),
        Scenario("dispatch-wide", dispatch_write(WIDE, mtu, 1, True), bound=more),
        Scenario("two-writers-wide", two_writers(WIDE, "read"), bound=1),
        Scenario("commands-wide", commands(WIDE), bound=1),
    ]
    if deep:
        out.append(
            Scenario("read-write-3", read_write(NEAR, 2, "write"), bound=3)
        )
    return out
