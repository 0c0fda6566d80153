"""C19: kept time advances with (scaled) real time and is shared."""
from mc import sched

sched.install()

# pylint: disable=wrong-import-position
import vtelem.telemetry.server as server_module
from vtelem.classes.time_entity import TimeEntity
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon import DaemonBase
from vtelem.daemon.synchronous import Daemon
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from mc.checks.c18 import close, server_with, Log
from mc.explore import Prune, Scenario, Violation

ASSUMPTIONS = [
    "kept time is compared to 1e-6 (relative to the time elapsed)",
    "sequential histories to the stated depth; schedules of 2-3 threads up to "
    "the stated number of preemptions, switches at lock operations, sleeps and "
    "the stated instructions",
    "while the scale is zero a scaled sleep lasts until the scale is changed; "
    "how a change of scale affects a sleep that has begun is left open",
    "kept time between updates (what it is after a change of scale but before "
    "the next update) is left open, that it is shared is not",
]
OPS = {
    "vtelem.classes.time_keeper": {
        "LOAD_ATTR", "STORE_ATTR", "CALL", "BINARY_OP", "GET_ITER", "FOR_ITER",
    },
    "vtelem.classes.time_entity": {"LOAD_ATTR", "STORE_ATTR"},
}
SCALES = [0.5, 2.0, 0.0, 1.0, -0.5, float("nan")]
DTS = [1.0, 0.25, 1e6]
START = 5000.0


class Source:
    """A source of time under our control."""

    def __init__(self, now=START):
        self.now = now
        self.slept = []

    def time(self):
        return self.now

    def sleep(self, amount):
        self.slept.append(amount)
        self.now += amount


def near(a, b, span=1.0):
    return abs(a - b) <= 1e-6 * max(1.0, abs(span))


KINDS = ["entity", "env", "daemon", "telemetry"]


def attach(kind, keeper):
    """Something that follows the keeper."""
    if kind == "entity":
        item = TimeEntity(3.0)
        keeper.add_slave(item)
    elif kind == "env":
        item = TelemetryEnvironment(1500, app_id_basis=0.5)
        keeper.add_slave(item)
    elif kind == "daemon":
        item = DaemonBase("d", None, keeper)
    else:
        item = TelemetryDaemon("t", 1500, 1.0, keeper, app_id_basis=0.5)
    return item


def history(depth, kinds):
    """Every history of time passing, updates and changes."""

    def body(ch):
        source = Source()
        first = ch.pick([1.0, 0.5])
        keeper = TimeKeeper("k", 0.1, first, source.time, source.sleep)
        ch.equal(keeper.get_time(), START, "time at first")
        scale, base, last = first, START, START
        items = []
        seen = keeper.get_time()
        for _ in range(depth):
            act = ch.pick(["update", "pass", "scale", "attach", "sleep", "end"])
            if act == "end":
                break
            if act == "pass":
                source.now += ch.pick(DTS)
            elif act == "update":
                keeper.iteration()
                base += (source.now - last) * scale
                last = source.now
                ch.check(
                    near(keeper.get_time(), base, base - START),
                    f"kept time {keeper.get_time()}, expected {base}",
                )
            elif act == "scale":
                value = ch.pick(SCALES)
                keeper.scale(value)
                if value >= 0:
                    base += (source.now - last) * scale
                    last = source.now
                    scale = value
            elif act == "attach":
                if len(items) >= 3:
                    raise Prune("enough")
                items.append(attach(ch.pick(kinds), keeper))
                ch.equal(
                    items[-1].get_time(), keeper.get_time(), "time attached"
                )
            else:
                if scale == 0.0:
                    raise Prune("sleeps until the scale is changed")
                amount = ch.pick([1.0, 0.0, 0.125])
                source.slept.clear()
                keeper.sleep(amount)
                ch.check(
                    near(sum(source.slept), amount / scale),
                    f"slept {source.slept}, expected {amount / scale}",
                )
            now = keeper.get_time()
            ch.check(now >= seen, f"time goes backwards: {seen} to {now}")
            seen = now
            for item in items:
                ch.equal(item.get_time(), now, "time of an environment")
            ch.state((source.now, last, scale, len(items)))
        keeper.iteration()
        base += (source.now - last) * scale
        ch.check(
            near(keeper.get_time(), base, base - START),
            f"kept time {keeper.get_time()}, expected {base} at last",
        )
        for item in items:
            ch.equal(item.get_time(), keeper.get_time(), "time at last")
        ch.outcome((keeper.get_time(), len(items)))

    return body


def backwards(ch):
    """A source which steps back: time follows, the scale stays in force."""
    source = Source()
    keeper = TimeKeeper("k", 0.1, ch.pick([1.0, 2.0, 0.0]), source.time,
                        source.sleep)
    item = attach(ch.pick(KINDS), keeper)
    scale = keeper.scalar
    base = START
    for _ in range(3):
        step = ch.pick([1.0, -2.0, 0.0, 1e3])
        source.now += step
        keeper.iteration()
        base += step * scale
        ch.check(near(keeper.get_time(), base), "kept time")
        ch.equal(item.get_time(), keeper.get_time(), "time of an environment")
    ch.outcome(base)


# -------------------------------------------------------------- schedules


def concurrent(ops, plan, kind="entity"):
    """plan: lists of operations, one per thread."""

    def body(ch):
        sched.watch(ops)
        count = [0]

        def clock():
            count[0] += 1
            return START + float(count[0])

        keeper = TimeKeeper("k", 0.1, 1.0, lambda: START, None)
        keeper.time_function = clock
        items = [attach("entity", keeper)]
        seen = []
        fails = []
        lasts = {}
        events = []  # ("sample", t) in order and changes of scale

        def look(last):
            for item in (keeper, items[0]):
                now = item.get_time()
                if now < last.get(id(item), now):
                    fails.append("time goes backwards")
                last[id(item)] = now

        def update():
            mine = lasts.setdefault(sched.me(), {})
            look(mine)
            keeper.iteration()
            look(mine)

        def scale():
            before = count[0]
            keeper.scale(3.0)
            events.append((before, count[0]))

        def join():
            items.append(attach(kind, keeper))

        def watch():
            last = items[0].get_time()
            for _ in range(3):
                mine = items[0].get_time()
                lead = keeper.get_time()
                if mine < last:
                    fails.append(f"time goes back from {last} to {mine}")
                if mine > lead:
                    fails.append(f"an environment is ahead: {mine}, {lead}")
                last = mine
            seen.append(last)

        acts = {"update": update, "scale": scale, "attach": join,
                "watch": watch}

        def task(names):
            def func():
                for name in names:
                    acts[name]()

            return func

        def main():
            threads = [
                sched.spawn(f"t{n}", task(names))
                for n, names in enumerate(plan)
            ]
            sched.join_all(threads)

        done = sched.run(ch, main, timers=False)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        for msg in fails:
            raise Violation(msg)
        for item in items:
            ch.equal(item.get_time(), keeper.get_time(), "shared time")
        # the scale changed at one of the instants while it was changed
        keeper.iteration()
        total = float(count[0])
        if events:
            low, high = events[0]
            wants = {
                START + at + 3.0 * (total - at)
                for at in range(low, high + 1)
            }
        else:
            wants = {START + total}
        ch.check(
            any(near(keeper.get_time(), w) for w in wants),
            f"kept time {keeper.get_time()}, expected one of {sorted(wants)}",
        )
        for item in items:
            ch.equal(item.get_time(), keeper.get_time(), "shared time at last")
        ch.outcome((keeper.get_time(), len(items), seen))

    return body


def frozen(ops, how):
    """Sleeping while time stands still ends after it goes on."""

    def body(ch):
        sched.watch(ops)
        first = 0.0 if how == "zero" else 1.0
        box = {}

        def sleeper():
            begin = sched.v_time()
            box["keeper"].sleep(1.0)
            box["slept"] = sched.v_time() - begin

        def changer():
            if how == "race":
                box["keeper"].scale(0.0)
            sched.v_sleep(5.0)
            box["keeper"].scale(2.0)

        def main():
            box["keeper"] = TimeKeeper("k", 0.125, first)
            threads = [
                sched.spawn("sleeper", sleeper),
                sched.spawn("changer", changer),
            ]
            sched.join_all(threads)

        done = sched.run(ch, main, timers=False)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        slept = box["slept"]
        if how == "zero":
            ch.check(5.5 <= slept <= 6.5, f"slept {slept}, expected 5.5")
        else:
            # at the first scale, or frozen in between
            ch.check(
                1.0 <= slept <= 1.0 + 1e-6 or 5.5 <= slept <= 6.5,
                f"slept {slept}, expected 1 or 5.5",
            )
        ch.outcome(slept)

    return body


def running(ops, scales):
    """A running keeper shares time with running daemons."""

    def body(ch):
        sched.watch(ops)
        times = []
        extra = []

        def main():
            keeper = TimeKeeper("k", 0.125)
            env = TelemetryDaemon("t", 1500, 0.25, keeper, app_id_basis=0.5)
            env.add_channel("a", Primitive.UINT8, 0.5)

            def task(*_, **__):
                times.append((sched.v_time(), worker.get_time()))

            worker = Daemon("w", task, 0.5, time_keeper=keeper)
            begin = sched.v_time()
            ch.equal(env.get_time(), keeper.get_time(), "time at first")
            for daemon in (keeper, env, worker):
                ch.equal(daemon.start(), True, "started")
            sched.v_sleep(2.0)
            spans = []
            last = begin
            for scale in scales:
                extra.append(attach("entity", keeper))
                keeper.scale(scale)
                now = sched.v_time()
                spans.append((last, now, keeper_scale[0]))
                keeper_scale[0] = scale
                last = now
                sched.v_sleep(2.0)
            for daemon in (keeper, env, worker):
                ch.equal(daemon.get_state_str(), "running", "state")
            now = sched.v_time()
            spans.append((last, now, keeper_scale[0]))
            want = begin + sum((b - a) * s for a, b, s in spans)
            keeper.iteration()
            ch.check(near(keeper.get_time(), want, 10),
                     f"kept time {keeper.get_time()}, expected {want}")
            for item in [env, worker] + extra:
                ch.equal(item.get_time(), keeper.get_time(), "shared time")
            if keeper_scale[0] == 0.0:
                keeper.scale(1.0)
            for daemon in (worker, env, keeper):
                ch.equal(daemon.stop(), True, f"{daemon.name} stopped")

        keeper_scale = [1.0]
        done = sched.run(ch, main, timers=False, order_cost=1)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        # one iteration each half (kept) second
        for (_, kept), (__, again) in zip(times, times[1:]):
            ch.check(again >= kept, "time goes backwards")
        first = [k for r, k in times if r < times[0][0] + 2.0]
        ch.check(3 <= len(first) <= 6, f"iterations in 2 s: {first}")
        ch.outcome([k for _, k in times])

    return body


# ----------------------------------------------------------------- server


def speeds(ch):
    """A server's speed is changed whatever state its daemons are in."""
    sched.watch({})
    what = ch.pick(["running", "stopped-one", "idle", "paused-one"])
    value = ch.pick([2.0, 0.5, -1.0, 1.0])
    log = Log()

    def main():
        serv = server_with([], log)
        try:
            item = TimeEntity()
            serv.time_keeper.add_slave(item)
            if what != "idle":
                serv.start_all()
                sched.v_sleep(0.5)
            name = ch.pick(["stream", "command", "telemetry"])
            if what == "stopped-one":
                ch.equal(serv.daemons.perform_str(name, "stop"), True, "stop")
            elif what == "paused-one":
                ch.equal(serv.daemons.perform_str(name, "pause"), True, "pause")
            before = serv.daemons.states()
            serv.scale_speed(value)
            after = serv.daemons.states()
            for key, state in before.items():
                if state == "paused":
                    # whether it is resumed is left open
                    ch.check(after[key] in ("paused", "running"), "paused")
                else:
                    ch.equal(after[key], state, f"state of {key}")
            kept = serv.time_keeper.get_time()
            real = sched.v_time()
            sched.v_sleep(2.0)
            serv.time_keeper.iteration()
            scale = value if value >= 0 else 1.0
            span = serv.time_keeper.get_time() - kept
            want = (sched.v_time() - real) * scale
            slack = 0.03 * max(1.0, scale) if what != "idle" else 1e-6
            ch.check(abs(span - want) <= slack, f"{span} s, expected {want}")
            ch.equal(item.get_time(), serv.time_keeper.get_time(), "shared")
            for key, state in serv.daemons.states().items():
                if state == "paused":
                    serv.daemons.perform_str(key, "unpause")
            if what != "idle":
                serv.stop_all()
        finally:
            close(serv)

    done = sched.run(ch, main, timers=False, preempt=False, order_cost=1)
    for name, err in sched.errors(done):
        if isinstance(err, Violation):
            raise err
        raise Violation(f"{name} raised {type(err).__name__}: {err}")
    ch.outcome((what, value))


assert server_module


def scenarios(tier):
    deep = tier == "thorough"
    more = 3 if deep else 2
    up = "update"
    out = [
        Scenario("history", history(6 if deep else 4, ["entity"])),
        Scenario("history-kinds", history(4 if deep else 3, KINDS)),
        Scenario("backwards", backwards),
        Scenario("update-2", concurrent(OPS, [[up], [up, up]]), more),
        Scenario("update-scale", concurrent(OPS, [[up, up], ["scale"]]), more),
        Scenario("update-attach", concurrent(OPS, [[up], ["attach"]]), more),
        Scenario(
            "update-attach-2",
            concurrent(OPS, [[up], ["attach"], ["attach"]]),
            2 if deep else 1,
        ),
        Scenario("update-watch", concurrent(OPS, [[up, up], ["watch"]]), more),
        Scenario("scale-watch", concurrent(OPS, [["scale", up], ["watch"]]), more),
        Scenario(
            "all", concurrent(OPS, [[up], ["scale"], ["attach"]]),
            2 if deep else 1,
        ),
        Scenario("frozen", frozen(OPS, "zero"), 2),
        Scenario("frozen-race", frozen(OPS, "race"), 2),
        Scenario("running", running({}, [2.0, 0.5]), 1 if deep else 0),
        Scenario("running-frozen", running({}, [0.0]), 1 if deep else 0),
        Scenario("speeds", speeds, 1 if deep else 0),
    ]
    if deep:
        out += [
            Scenario(
                "attach-telemetry",
                concurrent(OPS, [[up], ["attach"]], "telemetry"),
                1,
            ),
            Scenario(
                "attach-env", concurrent(OPS, [[up], ["attach"]], "env"), 2
            ),
        ]
    return out
