"""C10: a refused operation leaves no trace and blocks nobody."""
from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from io import BytesIO
import json
from queue import Queue

from vtelem.channel.group import ChannelGroup
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.classes.state import State
from vtelem.classes.state_machine import StateMachine
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive
from vtelem.stream.writer import StreamWriter
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "bounds: up to the stated number of successful operations, one refused "
    "operation, then use of every public operation from a second thread",
    "compared with a twin that never saw the refused operation: description, "
    "values, metrics and the bytes of all frames dispatched afterwards",
    "a group section (data()) that raises writes back what it holds, by design; "
    "only its locks are checked",
]
U8, I16, F32 = Primitive.UINT8, Primitive.INT16, Primitive.FLOAT


class World:
    """An environment with everything attached."""

    def __init__(self, metrics):
        self.env = TelemetryEnvironment(
            1500, init_time=1.0, metrics_rate=0.5 if metrics else None,
            app_id_basis=0.5,
        )
        env = self.env
        env.add_enum(user_enum("mode", {0: "off", 1: "on", 7: "auto"}))
        self.byte = env.add_channel("byte", U8, 0.5, True, (3, 1.0))
        self.fixed = env.add_channel("fixed", I16, 0.5, True, None, False)
        self.mode = env.add_enum_channel("mode", "mode", 0.5, True, ("on", 1.0))
        self.real = env.add_channel("real", F32, 0.5, True)
        self.group = ChannelGroup("g", env)
        assert self.group.add_channel("x", U8, 0.5, True)
        assert self.group.add_channel("y", I16, 0.5, True)
        assert self.group.add_enum_channel("m", "mode", 0.5, True)
        self.groups = ChannelGroupRegistry(env)
        self.gid = self.groups.create_group("h")
        self.groups.add_channel(self.gid, "z", U8, 0.5, True)
        if metrics:
            env.add_metric("mine", U8, True, (1, 1.0))
            env.add_enum_metric("kind", "mode", True, ("on", 1.0))
        self.frames = []
        self.now = 1.0

    def tick(self, amount=0.5):
        self.now += amount
        self.env.advance_time(amount)

    def dispatch(self):
        self.env.dispatch(self.now, should_log=False)
        for frame in ref.drain(self.env.frame_queue):
            self.frames.append(ref.raw(frame)[0])


def section(world):
    """Raises inside a locked section."""
    with world.env.lock:
        raise ValueError("inside")


def group_section(world):
    """Raises inside a group section."""
    with world.group.data() as data:
        data["x"] = data["x"]
        raise ValueError("inside")


def registry_section(world):
    with world.groups.group(world.gid):
        raise ValueError("inside")


GOOD = {
    "tick": lambda w: w.tick(),
    "set": lambda w: w.env.set_now(w.byte, 9),
    "set0": lambda w: w.env.set_now(w.byte, 0),
    "command": lambda w: w.env.command_channel("real", 1.5),
    "enum": lambda w: w.env.command_enum_channel("mode", "auto"),
    "group": lambda w: w.group.write({"x": 5, "y": -5, "m": "auto"}),
    "dispatch": lambda w: w.dispatch(),
    "add": lambda w: w.env.has_channel("more")
    or w.env.add_channel("more", U8, 0.25, True, (1, 1.5)),
}

BAD = {
    "dup": lambda w: w.env.add_channel("byte", U8, 1.0),
    "dup-initial": lambda w: w.env.add_channel("byte", U8, 1.0, True, (77, 2.0)),
    "dup-other": lambda w: w.env.add_channel("real", I16, 1.0, True, (-1, 2.0)),
    "dup-invalid": lambda w: w.env.add_channel("byte", U8, 1.0, True, (777, 2.0)),
    "new-invalid": lambda w: w.env.add_channel("new", U8, 1.0, True, (256, 2.0)),
    "new-kind": lambda w: w.env.add_channel("new", U8, 1.0, False, ("1", 2.0)),
    "enum-unknown": lambda w: w.env.add_enum_channel("new", "none", 1.0, True),
    "enum-value": lambda w: w.env.add_enum_channel(
        "new", "mode", 1.0, True, ("nope", 2.0)
    ),
    "enum-kind": lambda w: w.env.add_enum_channel(
        "new", "mode", 1.0, True, (1, 2.0)
    ),
    "enum-dup": lambda w: w.env.add_enum_channel(
        "mode", "mode", 1.0, True, ("off", 2.0)
    ),
    "enum-dup-plain": lambda w: w.env.add_enum_channel(
        "byte", "mode", 1.0, True, ("auto", 2.0)
    ),
    "type-name": lambda w: w.env.add_enum(user_enum("uint8", {0: "a"})),
    "write-range": lambda w: w.env.set_now(w.byte, 300),
    "write-kind": lambda w: w.env.set_now(w.real, 1),
    "write-float": lambda w: w.env.set_now(w.real, 1e39),
    "write-unknown": lambda w: w.env.set_now(500, 1),
    "enum-write": lambda w: w.env.set_enum_now(w.mode, "nope"),
    "enum-write-kind": lambda w: w.env.set_enum_now(w.mode, None),
    "enum-write-plain": lambda w: w.env.set_enum_now(w.byte, "off"),
    "command-fixed": lambda w: w.env.command_channel("fixed", 1),
    "command-fixed-id": lambda w: w.env.command_channel_id(w.fixed, 1),
    "command-unknown": lambda w: w.env.command_channel("nope", 1),
    "command-unknown-id": lambda w: w.env.command_channel_id(500, 1),
    "command-range": lambda w: w.env.command_channel("byte", -1),
    "command-enum": lambda w: w.env.command_enum_channel("mode", "nope"),
    "command-enum-kind": lambda w: w.env.command_enum_channel("mode", 1),
    "command-enum-plain": lambda w: w.env.command_enum_channel("byte", "off"),
    "command-enum-id": lambda w: w.env.command_enum_channel_id(500, "off"),
    "command-enum-unknown": lambda w: w.env.command_enum_channel("nope", "on"),
    "rate-unknown": lambda w: w.env.set_channel_rate(500, 1.0),
    "read-unknown": lambda w: w.env.get_value(500),
    "read-enum": lambda w: w.env.get_enum_value(w.byte),
    "group-unknown": lambda w: w.group.write({"x": 99, "q": 1}),
    "group-first": lambda w: w.group.write({"q": 1, "x": 99}),
    "group-enum": lambda w: w.group.write({"x": 99, "y": 9, "m": "nope"}),
    "group-enum-kind": lambda w: w.group.write({"y": 9, "m": None, "x": 99}),
    "group-dup": lambda w: w.group.add_channel("x", I16, 0.25, True),
    "group-enum-dup": lambda w: w.group.add_enum_channel("x", "mode", 0.25, True),
    "group-enum-none": lambda w: w.group.add_enum_channel("n", "none", 0.25),
    "registry-dup": lambda w: w.groups.create_group("h"),
    "registry-unknown": lambda w: w.groups.add_channel(9, "n", U8, 0.5),
    "registry-section": registry_section,
    "section": section,
    "group-section": group_section,
}
LOCKS_ONLY = {"section", "group-section", "registry-section"}
BAD_METRICS = {
    "metric-range": lambda w: w.env.set_metric("mine", 300),
    "metric-kind": lambda w: w.env.set_metric("mine", "1"),
    "metric-add": lambda w: w.env.metric_add("mine", 1.5),
    "metric-add-kind": lambda w: w.env.metric_add("mine", "1"),
    "metric-command": lambda w: w.env.command_channel("mine", 5),
    "metric-enum-command": lambda w: w.env.command_enum_channel("kind", "off"),
    "metric-taken": lambda w: w.env.add_metric("byte", U8, True, (9, 2.0)),
    "metric-enum": lambda w: w.env.add_enum_metric("fresh", "none", True),
    "metric-enum-value": lambda w: w.env.add_enum_metric(
        "fresh", "mode", True, ("nope", 2.0)
    ),
    "metric-enum-set": lambda w: w.env.set_enum_metric("kind", "nope"),
    "metric-initial": lambda w: w.env.add_metric("fresh", U8, True, (256, 2.0)),
}
MODERATE = (
    AssertionError, KeyError, ValueError, TypeError, AttributeError, LookupError
)


def use(world):
    """Every public operation, as another thread would."""
    env = world.env
    out = []
    world.tick()
    out.append(env.get_time())
    out.append(env.set_now(world.byte, 33))
    out.append(env.get_value(world.byte))
    out.append(env.command_channel("real", -2.5))
    out.append(env.command_enum_channel("mode", "off"))
    out.append(env.get_enum_value(world.mode))
    out.append(env.set_enum_now(world.mode, "auto"))
    world.dispatch()
    world.group.write({"x": 1, "y": 2, "m": "on"})
    out.append(world.group.read())
    with world.group.data() as data:
        data["y"] += 1
    out.append(world.group.add_channel("late", U8, 0.0, True))
    out.append(world.group.add_enum_channel("latem", "mode", 0.0, True))
    with world.groups.group(world.gid) as data:
        data["z"] += 2
    out.append(world.groups.create_group("k"))
    env.handle_new_mtu(900)
    env.set_channel_rate(world.byte, 0.125)
    out.append(env.add_channel("new", U8, 0.0, True, (1, 2.0)))
    out.append(env.add_enum_channel("newenum", "mode", 0.0, True, ("on", 2.0)))
    out.append(env.add_enum(user_enum("later", {1: "one"})))
    if env.metrics is not None:
        env.add_metric("fresh", U8, True, (2, 2.0))
        env.add_enum_metric("freshkind", "mode", True, ("off", 2.0))
        env.metric_add("mine", 1)
        env.set_enum_metric("kind", "auto")
        out += [env.get_metric("fresh"), env.get_metric("mine")]
        out.append(env.get_enum_metric("kind"))
    world.dispatch()
    world.tick()
    world.dispatch()
    env.set_time(9.0)
    return out


def observe(world):
    """All there is to see."""
    env = world.env
    out = [
        json.loads(reg.describe())
        for key, reg in env.registries.items()
    ]
    out.append(json.loads(world.groups.describe()))
    count = env.channel_registry.count()
    out.append([env.get_value(i) for i in range(count)])
    out.append([env.is_enum_channel(i) for i in range(count)])
    if env.metrics is not None:
        # every channel that is not commandable here is a metric, or "fixed"
        out.append([env.has_metric(n) for n in ("fresh", "byte", "mine", "kind")])
    return out


def perform(ch, metrics, prefix, name):
    """One history; with name None the twin."""
    result = {}
    table = {**BAD, **BAD_METRICS}

    def main():
        world = World(metrics)
        for oper in prefix:
            GOOD[oper](world)
        if name is not None:
            try:
                got = table[name](world)
            except MODERATE:
                got = False
            if got is True or (got is not None and got is not False):
                raise Violation(f"{name} was not refused: {got!r}")
            result["got"] = got
        else:
            result["before"] = observe(world)
        result["after"] = observe(world)

        def other():
            result["used"] = use(world)
            result["end"] = observe(world)

        thread = sched.spawn("other", other)
        thread.join()
        result["frames"] = world.frames

    run = sched.run(ch, main, preempt=False)
    errs = sched.errors(run)
    if errs:
        raise Violation(f"the other thread could not: {errs[0][1]!r}")
    return result


_TWINS = {}


def refused(depth, metrics):
    """A refused operation after every short history."""

    def body(ch):
        names = list(BAD) + (list(BAD_METRICS) if metrics else [])
        name = ch.pick(names, "refused")
        prefix = []
        for _ in range(depth):
            oper = ch.pick(["-", *GOOD], "before")
            if oper == "-":
                break
            prefix.append(oper)
        key = (metrics, tuple(prefix))
        if key not in _TWINS:
            _TWINS[key] = perform(ch, metrics, prefix, None)
        twin = _TWINS[key]
        got = perform(ch, metrics, prefix, name)
        ch.step(len(prefix) + 30)
        ch.state((metrics, tuple(prefix), name))
        ch.outcome((name, got["got"] is None))
        if name in LOCKS_ONLY:
            return
        if got["got"] is None:
            # operations without a result must have raised
            ch.check(name == "registry-unknown", f"{name} was not refused")
        ch.equal(got["after"], twin["after"], f"right after {name}")
        ch.equal(got["used"], twin["used"], f"use after {name}")
        ch.equal(got["end"], twin["end"], f"in the end after {name}")
        ch.check(
            got["frames"] == twin["frames"], f"frames dispatched after {name}"
        )

    return body


def keeper(ch):
    """Refused scales leave a time keeper as it was."""
    bad = ch.pick([-1.0, -0.5, ref.NAN, -ref.INF], "scale")
    good = ch.pick([None, 2.0, 0.5], "first")

    def history(refuse):
        clock = [10.0]
        slept = []
        keep = TimeKeeper("t", 1.0, 1.0, lambda: clock[0], slept.append)
        env = TelemetryEnvironment(1500, app_id_basis=0.5)
        keep.add_slave(env)
        out = []
        if good is not None:
            keep.scale(good)
        clock[0] += 1.0
        keep.iteration()
        if refuse:
            try:
                keep.scale(bad)
            except MODERATE:
                pass

        def other():
            for amount in (1.0, 0.25):
                clock[0] += amount
                keep.iteration()
                out.append((keep.get_time(), env.get_time()))
            keep.sleep(1.0)
            late = TelemetryEnvironment(1500, app_id_basis=0.5)
            keep.add_slave(late)
            keep.scale(1.0)
            out.append((late.get_time(), list(slept)))

        def main():
            sched.spawn("other", other).join()

        run = sched.run(ch, main, preempt=False)
        if sched.errors(run):
            raise Violation(f"other thread: {sched.errors(run)}")
        return out

    ch.equal(history(True), history(False), f"after scale({bad})")
    ch.outcome((bad, good))


def machine(ch):
    """A state machine refusing a transition, or whose state raises."""
    fault = ch.pick(
        ["unknown", "raise-run", "raise-leave", "raise-enter", "none", "data"],
        "fault",
    )
    metrics = ch.flag("metrics")

    def history():
        out = []
        env = None
        if metrics:
            env = TelemetryEnvironment(1500, app_id_basis=0.5)
        armed = [False]

        def maybe(kind):
            if armed[0] and fault == kind:
                raise ValueError(kind)

        def run_a(_):
            maybe("raise-run")
            if armed[0] and fault == "unknown":
                return "nowhere"
            if armed[0] and fault == "none":
                return None
            return "b"

        def leave_a(*_):
            maybe("raise-leave")
            return True

        def enter_b(*_):
            maybe("raise-enter")
            return True

        states = [
            State("a", run_a, None, leave_a, env),
            State("b", lambda _: "a", enter_b, None, env),
        ]
        mach = StateMachine("m", states, env=env)

        def main():
            armed[0] = True
            try:
                if fault == "data":
                    with mach.data():
                        raise ValueError("inside")
                mach.run({"k": 1})
                raise Violation(f"{fault} was not refused")
            except MODERATE:
                pass
            armed[0] = False

            def other():
                with mach.data() as data:
                    out.append(data["k"])
                for _ in range(3):
                    first, second = mach.run()
                    out.append((first.name, second.name))
                if mach.metrics is not None:
                    read = mach.metrics.read()
                    out.append(read["transitions"])
                    out.append(read["enter_fails"] + read["exit_fails"])

            sched.spawn("other", other).join()

        run = sched.run(ch, main, preempt=False)
        if sched.errors(run):
            raise Violation(f"other thread: {sched.errors(run)}")
        return out

    out = history()
    want = [None if fault == "data" else 1, ("a", "b"), ("b", "a"), ("a", "b")]
    if metrics:
        want += [3, 0]
    ch.equal(out, want, "runs after the refusal")
    ch.outcome((fault, metrics))


def writer(ch):
    """Refused removals leave a stream writer as it was."""
    metrics = ch.flag("metrics")
    names = ["stream", "stream-again", "queue", "queue-again", "closer", "section"]
    fault = ch.pick(names, "fault")

    def main():
        env = None
        if metrics:
            env = TelemetryEnvironment(1500, metrics_rate=1.0, app_id_basis=0.5)
        wrt = StreamWriter("w", Queue(), None, env)
        keep = BytesIO()
        gone = BytesIO()
        sid = wrt.add_stream(keep)
        calls = []
        gid = wrt.add_stream(gone, lambda: calls.append(1))
        qid, _ = wrt.registered_queue()
        qgone, _ = wrt.registered_queue()
        wrt.remove_stream(gid)
        wrt.remove_queue(qgone)
        got = False
        try:
            if fault == "stream":
                got = wrt.remove_stream(99)
            elif fault == "stream-again":
                got = wrt.remove_stream(gid)
            elif fault == "queue":
                got = wrt.remove_queue(99)
            elif fault == "queue-again":
                got = wrt.remove_queue(qgone)
            elif fault == "closer":

                def bad():
                    raise ValueError("closer")

                rid = wrt.add_stream(BytesIO(), bad)
                wrt.remove_stream(rid)
            else:
                with wrt.lock:
                    raise ValueError("inside")
        except MODERATE:
            got = False
        if got:
            raise Violation(f"{fault} not refused")
        ch.equal(calls, [1], "closer calls")

        def other():
            new = wrt.add_stream(BytesIO())
            ch.check(new not in (sid, gid), "identifier handed out again")
            env2 = TelemetryEnvironment(1500, app_id_basis=0.5)
            env2.add_channel("c", U8, 0.0)
            env2.dispatch(1.0, should_log=False)
            frame = env2.frame_queue.get()
            wrt.handle(frame)
            ch.equal(keep.getvalue(), ref.prefixed(ref.raw(frame)[0]), "written")
            ch.equal(gone.getvalue(), b"", "written to a removed stream")
            if env is not None and fault != "closer":
                ch.equal(env.get_metric("w.stream_count"), 2, "stream_count")
                ch.equal(env.get_metric("w.queue_count"), 1, "queue_count")
            ch.check(wrt.remove_stream(new), "remove")
            ch.check(wrt.remove_stream(sid), "remove")
            ch.check(wrt.remove_queue(qid), "remove")

        sched.spawn("other", other).join()

    run = sched.run(ch, main, preempt=False)
    if sched.errors(run):
        raise Violation(f"other thread: {sched.errors(run)}")
    ch.outcome((fault, metrics))


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Scenario("refused", refused(3 if deep else 2, False)),
        Scenario("refused-metrics", refused(3 if deep else 2, True)),
        Scenario("keeper", keeper),
        Scenario("machine", machine),
        Scenario("writer", writer),
    ]
