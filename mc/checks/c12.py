"""C12: metrics account exactly for what happened, under any concurrency."""
from queue import Empty, Full

from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from vtelem.classes.metered_queue import MeteredQueue, create
from vtelem.classes.user_enum import user_enum
from vtelem.daemon import DaemonBase
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "bounds: 2-3 threads, up to the stated number of preemptions, switches at "
    "lock operations and at the stated instructions of the listed modules; "
    "sequential histories to the stated depth",
    "sequential consistency (the interpreter's lock makes each instruction "
    "atomic)",
    "counters are compared when no operation is in progress, modulo the width "
    "of their type",
]
QUEUES = {
    "vtelem.classes.metered_queue": sched.FINE,
    "vtelem.classes.type_primitive": {"STORE_ATTR", "CALL"},
}
ENVS = {
    "vtelem.channel.environment": sched.COARSE,
    "vtelem.telemetry.environment": sched.COARSE,
    "vtelem.classes.metered_queue": sched.COARSE,
    "vtelem.classes.type_primitive": {"STORE_ATTR", "CALL"},
}
LIGHT = {
    "vtelem.channel.environment": {"STORE_SUBSCR", "CONTAINS_OP"},
    "vtelem.classes.type_primitive": {"STORE_ATTR"},
}
DAEMON = {
    "vtelem.daemon": sched.COARSE,
    "vtelem.channel.environment": {"STORE_SUBSCR", "CONTAINS_OP"},
    "vtelem.classes.type_primitive": {"STORE_ATTR"},
}
U32 = 2**32


def new_env(mtu=1500):
    return TelemetryEnvironment(mtu, app_id_basis=0.5, metrics_rate=1.0)


def run(ch, tasks, timers=False):
    """Run the tasks concurrently; returns what each gave."""
    results = {}

    def main():
        threads = []
        for name, func in tasks:

            def go(key=name, call=func):
                results[key] = call()

            threads.append(sched.spawn(name, go))
        sched.join_all(threads)

    done = sched.run(ch, main, timers=timers)
    for name, err in sched.errors(done):
        raise Violation(f"{name} raised {type(err).__name__}: {err}")
    return results


def queue_totals(ch, env, name, puts, gets, length):
    """The three metrics of a queue."""
    want = (length, puts % U32, gets % U32)
    got = tuple(
        env.get_metric(f"{name}_queue.{part}")
        for part in ("elements", "total_enqueued", "total_dequeued")
    )
    ch.equal(got, want, f"elements, enqueued, dequeued of {name}")
    ch.equal(puts - gets, length, "elements in the queue")


# ------------------------------------------------------------ queues


def producer(queue, items, how):
    def func():
        done = 0
        for item in items:
            try:
                if how == "block":
                    queue.put(item)
                elif how == "now":
                    queue.put_nowait(item)
                else:
                    queue.put(item, timeout=1)
                done += 1
            except Full:
                pass
        return done

    return func


def consumer(queue, count, how):
    def func():
        got = []
        for _ in range(count):
            try:
                if how == "block":
                    got.append(queue.get())
                elif how == "now":
                    got.append(queue.get_nowait())
                else:
                    got.append(queue.get(timeout=1))
            except Empty:
                pass
        return got

    return func


def queues(ops, size, prods, cons, timers=False):
    """Producers and consumers of one metered queue.

    prods: [(how, number)]; cons: [(how, number)]"""

    def body(ch):
        sched.watch(ops)
        env = new_env()
        queue = MeteredQueue("mine", env, size)
        tasks = []
        for i, (how, num) in enumerate(prods):
            items = [(i, j) for j in range(num)]
            tasks.append((f"put{i}", producer(queue, items, how)))
        for i, (how, num) in enumerate(cons):
            tasks.append((f"get{i}", consumer(queue, num, how)))
        res = run(ch, tasks, timers)
        puts = sum(res[f"put{i}"] for i in range(len(prods)))
        got = [item for i in range(len(cons)) for item in res[f"get{i}"]]
        left = queue.qsize()
        queue_totals(ch, env, "mine", puts, len(got), left)
        rest = ref.drain(queue)
        queue_totals(ch, env, "mine", puts, puts, 0)
        every = got + rest
        ch.check(len(set(every)) == len(every) == puts, f"items {every}")
        ch.outcome((puts, tuple(got), left))

    return body


def named_queues(ops):
    """Queues of the same name share metrics: their sums."""

    def body(ch):
        sched.watch(ops)
        env = new_env()
        one = create("mine", env)
        made = []

        def second():
            two = create("mine", env)
            made.append(two)
            two.put(1)
            two.put(2)
            return two.get()

        def first():
            one.put(1)
            one.put(2)
            return one.get()

        run(ch, [("one", first), ("two", second)])
        queue_totals(ch, env, "mine", 4, 2, one.qsize() + made[0].qsize())
        ch.outcome(env.channel_registry.count())

    return body


# ------------------------------------------------- environment counters


class Seen:
    """Counts what the frames of an environment carry."""

    def __init__(self, env):
        self.env = env
        self.emits = self.events = self.frames = 0

    def drain(self):
        """Take every frame; returns the numbers found."""
        types = {
            i: self.env.channel_registry.get_item(i).type.value.name
            for i in range(self.env.channel_registry.count())
        }
        for frame in ref.drain(self.env.frame_queue):
            data, _ = ref.raw(frame)
            parsed = ref.parse(data, types, True)
            self.frames += 1
            if parsed["kind"] == ref.FRAME["data"]:
                self.emits += parsed["count"]
            else:
                self.events += parsed["count"]


def counters(ch, env, seen, dispatches):
    """Every environment counter against what happened."""
    seen.drain()
    for name, want in (
        ("dispatch_count", dispatches),
        ("emits_captured", seen.emits),
        ("events_captured", seen.events),
        ("channel_count", env.channel_registry.count()),
        ("enum_count", env.enum_registry.count()),
        ("type_count", env.type_registry.count()),
    ):
        ch.equal(env.get_metric(name), want % U32, name)
    queue_totals(ch, env, "frame", seen.frames, seen.frames, 0)


def concurrent_env(ops, plan):
    """Threads of environment operations; plan: [[operation]]."""

    def body(ch):
        sched.watch(ops)
        env = new_env(400)
        env.frame_queue.maxsize = 0
        env.add_channel("solo", Primitive.UINT8, 0.0, True)
        env.add_metric("shared", Primitive.UINT8, False, (0, None))
        seen = Seen(env)
        count = {"dispatch": 0, "add": 0}
        acts = {
            "dispatch": lambda: env.dispatch(2.0, False),
            "write": lambda: env.command_channel("solo", 5),
            "add": lambda: env.metric_add("shared", 3, 1.0),
            "metric": lambda: env.add_metric(
                "late", Primitive.UINT8, False, (4, None)
            ),
            "enum": lambda: env.add_enum(user_enum("kind", {0: "a", 1: "b"})),
            "enum2": lambda: env.add_enum(user_enum("sort", {0: "a"})),
            "channel": lambda: env.add_channel("c", Primitive.UINT8, 9.0),
            "channel2": lambda: env.add_channel("d", Primitive.UINT8, 9.0),
            "state": lambda: env.add_enum_metric(
                "st", "frame_type", True, ("data", None)
            ),
            "get": lambda: env.frame_queue.get(),
        }
        for ops_list in plan:
            for name in ops_list:
                if name in count:
                    count[name] += 1

        def task(ops_list):
            def func():
                for name in ops_list:
                    acts[name]()

            return func

        run(ch, [(f"t{i}", task(p)) for i, p in enumerate(plan)])
        counters(ch, env, seen, count["dispatch"])
        ch.equal(env.get_metric("shared"), 3 * count["add"] % 256, "shared")
        names = [n for p in plan for n in p]
        if "metric" in names:
            ch.equal(env.get_metric("late"), 4, "late metric")
        if "state" in names:
            ch.equal(env.get_enum_metric("st"), "data", "enum metric")
        # metrics go on working and being emitted
        env.dispatch(50.0, False)
        counters(ch, env, seen, count["dispatch"] + 1)
        ch.outcome((seen.emits, seen.events, seen.frames))

    return body


# ---------------------------------------------------- daemon metrics


def daemon_metrics(ops, plan):
    """Threads changing the metrics of one daemon."""

    def body(ch):
        sched.watch(ops)
        env = new_env()
        daemon = DaemonBase("d", env)
        daemon.set_time(1.0)

        def task(names):
            def func():
                for name in names:
                    if name.startswith("-"):
                        daemon.decrement_metric(name[1:])
                    elif name.startswith("="):
                        daemon.reset_metric(name[1:])
                    elif name.startswith("*"):
                        daemon.increment_metric(name[1:], 5)
                    else:
                        daemon.increment_metric(name)

            return func

        run(ch, [(f"t{i}", task(p)) for i, p in enumerate(plan)])
        for name in {n.lstrip("-*=") for p in plan for n in p}:
            inner = daemon.function["metrics_data"][name]
            ch.equal(env.get_metric(f"d.{name}"), inner % U32, name)
            if not any("=" + name in p for p in plan):
                want = sum(
                    {name: 1, "-" + name: -1, "*" + name: 5}.get(n, 0)
                    for p in plan
                    for n in p
                )
                ch.equal(inner, want, f"count of {name}")
        ch.equal(
            env.get_metric("channel_count"),
            env.channel_registry.count(),
            "channel_count",
        )
        ch.outcome(sorted(daemon.function["metrics_data"].items()))

    return body


# -------------------------------------------------- sequential histories


def history(depth, size):
    """Every history of queue and environment operations."""
    acts = ["put", "put-now", "put-wait", "get-now", "get-wait", "dispatch",
            "write", "register", "refused", "end"]

    def body(ch):
        sched.watch({})
        out = []

        def main():
            env = new_env(300)
            env.frame_queue.maxsize = 0
            solo = env.add_channel("solo", Primitive.UINT8, 0.0, True)
            queue = MeteredQueue("mine", env, size)
            seen = Seen(env)
            puts = gets = dispatches = made = 0
            now = 1.0
            held = []
            for step in range(depth):
                choices = [
                    a for a in acts if not (a == "put" and size and
                                            queue.qsize() >= size)
                ]
                act = ch.pick(choices)
                if act == "end":
                    break
                now += 1.0
                env.set_time(now)
                if act.startswith("put"):
                    item = ITEMS[step % len(ITEMS)]
                    try:
                        if act == "put":
                            queue.put(item)
                        elif act == "put-now":
                            queue.put_nowait(item)
                        else:
                            queue.put(item, True, 0.5)
                        puts += 1
                        held.append(item)
                    except Full:
                        ch.check(queue.qsize() == size, "not full")
                elif act.startswith("get"):
                    try:
                        if act == "get-now":
                            item = queue.get_nowait()
                        else:
                            item = queue.get(timeout=0.5)
                        gets += 1
                        ch.check(item is held.pop(0), f"took {item}")
                    except Empty:
                        ch.check(puts == gets, "not empty")
                elif act == "dispatch":
                    env.dispatch(now, False)
                    dispatches += 1
                elif act == "write":
                    env.set_now(solo, step + 1)
                elif act == "register":
                    made += 1
                    env.add_channel(f"n{made}", Primitive.UINT8, 0.0)
                    env.add_enum(user_enum(f"e{made}", {0: "x"}))
                else:
                    try:
                        env.add_channel("solo", Primitive.UINT8, 0.0)
                    except AssertionError:
                        pass
                queue_totals(ch, env, "mine", puts, gets, queue.qsize())
                counters(ch, env, seen, dispatches)
                ch.state((puts, gets, dispatches, made))
            out.append((puts, gets, dispatches, seen.emits, seen.events))

        done = sched.run(ch, main, timers=False, preempt=False)
        del done
        ch.outcome(out)

    return body


# queues take anything, end markers in particular
ITEMS = [None, 7, b"", 0, "x", [], False]

WIDTHS = [Primitive.UINT8, Primitive.INT8, Primitive.UINT16, Primitive.UINT32]


def wrapping(ch):
    """Counters at the end of their range wrap instead of failing."""
    env = new_env()
    prim = ch.pick(WIDTHS)
    start = ch.pick([0, prim.value.max, prim.value.max - 1, prim.value.min])
    env.add_metric("m", prim, True, (start, None))
    span = prim.value.max - prim.value.min + 1
    want = start
    for _ in range(3):
        step = ch.pick([1, 2, -1, 255, prim.value.max])
        env.metric_add("m", step, 1.0)
        want += step
        ch.equal(
            (env.get_metric("m") - want) % span, 0, "metric modulo its width"
        )
    daemon = DaemonBase("d", env)
    base = ch.pick([U32 - 1, U32 - 2, 0])
    daemon.reset_metric("c", base)
    step = ch.pick([1, 2, U32])
    daemon.increment_metric("c", step)
    ch.equal(env.get_metric("d.c"), (base + step) % U32, "daemon counter")
    daemon.decrement_metric("c", step)
    ch.equal(env.get_metric("d.c"), base, "daemon counter")
    # a queue whose totals wrap
    queue = MeteredQueue("q", env)
    env.set_metric("q_queue.total_enqueued", U32 - 1)
    env.set_metric("q_queue.total_dequeued", U32 - 1)
    queue.put(1)
    ch.equal(env.get_metric("q_queue.total_enqueued"), 0, "enqueued")
    queue.get()
    ch.equal(env.get_metric("q_queue.total_dequeued"), 0, "dequeued")
    ch.equal(env.get_metric("q_queue.elements"), 0, "elements")
    env.dispatch(100.0, False)
    ch.outcome((prim.name, start, base, step))


def unmetered(ch):
    """Without metrics everything works and nothing is counted."""
    env = TelemetryEnvironment(1500, app_id_basis=0.5)
    count = env.channel_registry.count()
    queue = create("mine", env, ch.pick([0, 1]))
    daemon = DaemonBase("d", env)
    for _ in range(2):
        what = ch.pick(["queue", "daemon", "metric", "dispatch"])
        if what == "queue":
            queue.put(1)
            ch.equal(queue.get(), 1, "element")
        elif what == "daemon":
            daemon.increment_metric("x")
        elif what == "metric":
            env.add_metric("m", Primitive.UINT8)
            env.metric_add("m", 1)
            env.set_metric("m", 1)
        else:
            env.dispatch(1.0, False)
    ch.equal(env.channel_registry.count(), count, "channels")
    ch.outcome(what)


def scenarios(tier):
    deep = tier == "thorough"
    more = 2 if deep else 1
    blk = "block"
    out = [
        Scenario("wrapping", wrapping),
        Scenario("unmetered", unmetered),
        Scenario("history-bounded", history(5 if deep else 4, 1)),
        Scenario("history-free", history(5 if deep else 3, 0)),
        Scenario("queue-1x1", queues(QUEUES, 0, [(blk, 2)], [(blk, 2)]), 2),
        Scenario("queue-2x0", queues(QUEUES, 0, [(blk, 2), (blk, 1)], []), 2),
        Scenario("queue-full", queues(QUEUES, 1, [(blk, 3)], [(blk, 3)]), 2),
        Scenario(
            "queue-refused",
            queues(QUEUES, 1, [("now", 2), ("now", 1)], [("now", 2)]),
            more,
        ),
        Scenario(
            "queue-timeout",
            queues(QUEUES, 1, [("time", 2)], [("time", 2)], True),
            2,
        ),
        Scenario(
            "queue-2x1", queues(QUEUES, 1, [(blk, 1), (blk, 1)], [(blk, 2)]), more
        ),
        Scenario(
            "queue-1x2", queues(QUEUES, 0, [(blk, 2)], [(blk, 1), (blk, 1)]), more
        ),
        Scenario("queue-named", named_queues(QUEUES), more),
        Scenario("env-adds", concurrent_env(ENVS, [["add", "add"], ["add"]]), 2),
        Scenario(
            "env-adds-3", concurrent_env(ENVS, [["add"], ["add"], ["add"]]), 2
        ),
        Scenario(
            "env-metric", concurrent_env(ENVS, [["metric", "add"], ["metric"]]), 2
        ),
        Scenario(
            "env-enum-metric", concurrent_env(ENVS, [["state"], ["state"]]), more
        ),
        Scenario(
            "env-register",
            concurrent_env(ENVS, [["channel", "enum"], ["channel2", "enum2"]]),
            more,
        ),
        Scenario(
            "env-dispatch-write",
            concurrent_env(LIGHT, [["dispatch"], ["write"]]),
            more,
        ),
        Scenario(
            "env-dispatch-2",
            concurrent_env(LIGHT, [["dispatch"], ["dispatch", "add"]]),
            more,
        ),
        Scenario(
            "env-dispatch-register",
            concurrent_env(LIGHT, [["dispatch"], ["metric", "channel"]]),
            more,
        ),
        Scenario("daemon-2", daemon_metrics(DAEMON, [["a", "a"], ["a", "b"]]), 2),
        Scenario(
            "daemon-updown", daemon_metrics(DAEMON, [["a", "-a"], ["*a"]]), 2
        ),
        Scenario("daemon-reset", daemon_metrics(DAEMON, [["a", "=a"], ["a"]]), 2),
        Scenario(
            "daemon-3", daemon_metrics(DAEMON, [["a"], ["a"], ["a"]]), more
        ),
    ]
    return out
