"""C15: daemon lifecycle operations follow one state machine on every schedule."""
import asyncio
from queue import Queue
import selectors

from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from vtelem.daemon import DaemonBase
from vtelem.daemon.event_loop import EventLoopDaemon
from vtelem.daemon.http import HttpDaemon
from vtelem.daemon.queue import QueueDaemon
from vtelem.daemon.synchronous import Daemon
from vtelem.enums.daemon import DaemonOperation, DaemonState
from vtelem.mtu import Host
from vtelem.telemetry.environment import TelemetryEnvironment

from mc.checks.util_net import (
    VirtualLoopSelector,
    open_fds,
    virtual_servers,
)
from mc.explore import Prune, Scenario, Violation

virtual_servers()

ASSUMPTIONS = [
    "2-3 threads issuing lifecycle operations besides the worker, up to the "
    "stated number of preemptions; switches at lock operations, sleeps, thread "
    "start and join, and the stated instructions of the daemon modules",
    "an iteration decided upon before a pause returned may still begin after "
    "it: at most one; a queue daemon ignores pausing",
    "perform() of an operation whose goal is already reached reports success "
    "without doing anything (documented)",
    "a stop whose worker does not end within the timeout is not successful",
]
OPS = {
    "vtelem.daemon": {"STORE_ATTR", "LOAD_ATTR", "STORE_SUBSCR"},
    "vtelem.daemon.synchronous": {"LOAD_ATTR", "BINARY_SUBSCR"},
}
FEW = {
    "vtelem.daemon": {"STORE_ATTR", "LOAD_ATTR"},
}
LOCKS: dict = {}
NEXT = {
    "error": {"idle"},
    "idle": {"starting"},
    "starting": {"running"},
    "running": {"paused", "stopping", "idle"},
    "paused": {"running", "idle"},
    "stopping": {"idle"},
}


class QuietEnv(TelemetryEnvironment):
    """The real environment; its operations are single steps here."""

    def __init__(self):
        self.states = []
        super().__init__(1500, app_id_basis=0.5, metrics_rate=1.0)


def _quieten(name):
    real = getattr(TelemetryEnvironment, name)

    def func(self, *args, **kwargs):
        with sched.quiet():
            res = real(self, *args, **kwargs)
            if name == "set_enum_metric":
                self.states.append(args[1])
            return res

    setattr(QuietEnv, name, func)


for _name in ("set_enum_metric", "set_metric", "add_metric", "metric_add",
              "has_metric", "add_enum_metric", "add_from_enum", "has_enum",
              "add_enum"):
    _quieten(_name)


class World:
    """A daemon and what it does."""

    def __init__(self, kind, ch):
        self.ch = ch
        self.kind = kind
        self.env = QuietEnv()
        self.log = []  # (what, worker or thread, detail)
        self.active = 0
        self.inits = 0
        self.iters = 0
        self.busy_unpause = 0
        self.results = []  # (op, result)
        self.faults = []
        self.may_raise = kind == "raising"
        self.ends_itself = kind in ("ending", "raising")
        world = self

        def enter():
            world.active += 1
            if world.active > 1:
                world.faults.append("two workers are active")

        def leave():
            world.active -= 1

        class Base(DaemonBase):
            """Runs a few steps, then ends or raises."""

            def run(self, *_, **__):
                enter()
                try:
                    world.inits += 1
                    for _ in range(2):
                        world.iterate()
                        sched.v_sleep(0.05)
                        if self.state == DaemonState.STOPPING:
                            return
                    if world.may_raise:
                        raise ValueError("mine")
                finally:
                    leave()

        if kind in ("ending", "raising"):
            self.daemon = Base("d", self.env)
        elif kind in ("sync", "slow"):

            class Sync(Daemon):
                def run(self, *args, **kwargs):
                    enter()
                    try:
                        super().run(*args, **kwargs)
                    finally:
                        leave()

            def task(*_, **__):
                world.iterate()
                if kind == "slow":
                    sched.v_sleep(5.0)

            def init(*_, **__):
                world.inits += 1
                world.log.append(("init", sched.me().num, None))

            self.daemon = Sync("d", task, 0.1, env=self.env, init=init)
        elif kind == "queue":

            class Fed(QueueDaemon):
                def run(self, *args, **kwargs):
                    enter()
                    world.inits += 1
                    try:
                        super().run(*args, **kwargs)
                    finally:
                        leave()

            self.queue = Queue()
            self.daemon = Fed(
                "d", self.queue, lambda _: world.iterate(), self.env
            )
        elif kind == "http":

            class Http(HttpDaemon):
                def run(self, *args, **kwargs):
                    enter()
                    world.inits += 1
                    try:
                        super().run(*args, **kwargs)
                    finally:
                        leave()

            self.daemon = Http("d", Host("127.0.0.1", 0), env=self.env)
        elif kind == "loop":

            class Loop(EventLoopDaemon):
                def run(self, *args, **kwargs):
                    enter()
                    world.inits += 1
                    try:
                        super().run(*args, **kwargs)
                    finally:
                        leave()

            real = asyncio.new_event_loop
            asyncio.new_event_loop = lambda: asyncio.SelectorEventLoop(
                VirtualLoopSelector()
            )
            try:
                self.daemon = Loop("d", self.env)
            finally:
                asyncio.new_event_loop = real

    def iterate(self):
        self.iters += 1
        self.log.append(("iter", sched.me().num, None))
        if self.daemon.get_state() == DaemonState.IDLE:
            self.faults.append("an iteration while idle")

    def close(self):
        if self.kind == "http":
            self.daemon.server.server_close()
        if self.kind == "loop":
            self.daemon.eloop.close()

    def do(self, oper):
        """Perform and log one operation."""
        daemon = self.daemon
        un = oper in ("unpause", "p-unpause")
        if un:
            self.busy_unpause += 1
        before = len(self.env.states)
        was = self.env.states[-1]
        self.log.append(("call", sched.me().num, oper))
        if oper.startswith("p-"):
            res = daemon.perform(getattr(DaemonOperation, oper[2:].upper()))
        elif oper.startswith("s-"):
            res = daemon.perform_str(oper[2:])
        elif oper == "none":
            res = daemon.perform(DaemonOperation.NONE)
        else:
            res = getattr(daemon, oper)()
        if un:
            self.busy_unpause -= 1
        clean = self.busy_unpause == 0
        self.log.append(
            ("ret", sched.me().num, (oper, res, clean))
        )
        if not isinstance(res, bool):
            self.faults.append(f"{oper} gave {res!r}")
        self.results.append((oper, res))
        return res, was, before


WANT = {
    "start": ("idle", "starting"),
    "stop": ("running", "stopping"),
    "pause": ("running", "paused"),
    "unpause": ("paused", "running"),
}


def judge_trace(ch, world, pauses=True):
    """What is true of every history."""
    ch.check(not world.faults, f"{world.faults[:3]}")
    states = world.env.states
    for prev, curr in zip(states, states[1:]):
        ch.check(curr in NEXT[prev], f"{prev} -> {curr} in {states}")
        ch.check(
            world.ends_itself or curr != "idle" or prev in ("error", "stopping"),
            f"{prev} -> {curr}: the worker ended by itself",
        )
    count = {}
    for prev, curr in zip(states, states[1:]):
        count[(prev, curr)] = count.get((prev, curr), 0) + 1
    succ = {}
    for oper, res in world.results:
        if res:
            key = oper.split("-")[-1]
            succ[key] = succ.get(key, 0) + 1
    direct = {o for o, _ in world.results}
    plain = not any("-" in o for o in direct)
    restarts = [r for o, r in world.results if o == "restart"]
    starts = count.get(("idle", "starting"), 0)
    stops = count.get(("running", "stopping"), 0)
    if plain:
        ch.equal(
            starts,
            succ.get("start", 0) + succ.get("restart", 0),
            f"starts of {world.results}",
        )
        low = succ.get("stop", 0) + succ.get("restart", 0)
        lost = restarts.count(False)
        if world.kind != "slow":
            ch.check(
                low <= stops <= low + lost, f"{stops} stops of {world.results}"
            )
        ch.equal(
            count.get(("running", "paused"), 0), succ.get("pause", 0), "pauses"
        )
        ch.equal(
            count.get(("paused", "running"), 0),
            succ.get("unpause", 0),
            "unpauses",
        )
    env = world.env
    ch.equal(env.get_metric("d.starts"), starts, "metric of starts")
    ch.equal(
        env.get_metric("d.stops") + env.get_metric("d.errors"),
        stops,
        "metrics of stops and errors",
    )
    ch.equal(
        env.get_metric("d.pauses"),
        count.get(("running", "paused"), 0),
        "metric of pauses",
    )
    ch.equal(
        env.get_metric("d.unpauses"),
        count.get(("paused", "running"), 0),
        "metric of unpauses",
    )
    ch.equal(world.inits, starts, "times initialised")
    # the worker initialises before it iterates
    seen = set()
    for what, who, _ in world.log:
        if what == "init":
            ch.check(who not in seen, "initialised twice")
            seen.add(who)
        elif what == "iter" and world.kind in ("sync", "slow"):
            ch.check(who in seen, "an iteration before initialising")
    if pauses and world.kind in ("sync", "slow"):
        paused, begun = False, 0
        for what, _, detail in world.log:
            if what == "ret" and detail[0] == "pause" and detail[1]:
                paused, begun = detail[2], 0
            elif what == "call" and detail in (
                "unpause", "p-unpause", "s-unpause"
            ):
                paused = False
            elif what == "iter" and paused:
                begun += 1
                ch.check(begun <= 1, "iterations while paused")


def settle(ch, world):
    """From wherever the operations left it, the daemon is still usable."""
    daemon = world.daemon
    for _ in range(400):
        state = daemon.get_state()
        if state == DaemonState.IDLE:
            break
        if state == DaemonState.PAUSED and not world.ends_itself:
            ch.equal(world.do("unpause")[0], True, "unpause of a paused daemon")
        elif state == DaemonState.RUNNING and not world.ends_itself:
            ch.equal(world.do("stop")[0], True, "stop of a running daemon")
            ch.equal(daemon.get_state(), DaemonState.IDLE, "after a stop")
        else:
            sched.v_sleep(0.1)
    ch.equal(daemon.get_state(), DaemonState.IDLE, "state at last")
    # a complete cycle still works
    mark = world.iters
    ch.equal(world.do("start")[0], True, "start of an idle daemon")
    for _ in range(100):
        if daemon.get_state() == DaemonState.RUNNING and (
            world.iters > mark or world.kind in ("http", "loop", "queue")
        ):
            break
        sched.v_sleep(0.01)
    if world.kind == "queue":
        world.queue.put(1)
        world.queue.join()
        ch.equal(world.iters, mark + 1, "iterations")
    if not world.ends_itself:
        ch.equal(daemon.get_state(), DaemonState.RUNNING, "after starting")
        ch.equal(world.do("stop")[0], True, "the last stop")
    else:
        sched.v_sleep(1.0)
    ch.equal(daemon.get_state(), DaemonState.IDLE, "after the last stop")
    mark = world.iters
    sched.v_sleep(1.0)
    ch.equal(world.iters, mark, "iterations after the last stop")
    ch.equal(world.active, 0, "workers at last")
    for oper in ("stop", "pause", "unpause"):
        ch.equal(world.do(oper)[0], False, f"{oper} of an idle daemon")


def concurrent(kind, plan, started=True, ops=None, timers=False, wait=0.0):
    """Threads issuing the planned operations.  A number is a pause in s."""

    def body(ch):
        sched.watch(OPS if ops is None else ops)
        world = World(kind, ch)

        def main():
            with sched.quiet():
                if started:
                    world.do("start")
                    while world.daemon.get_state() != DaemonState.RUNNING:
                        sched.v_sleep(0.01)
                    if wait:
                        sched.v_sleep(wait)

            def runner(names):
                def func():
                    for name in names:
                        if isinstance(name, float):
                            sched.v_sleep(name)
                        else:
                            world.do(name)

                return func

            threads = [
                sched.spawn(f"t{i}", runner(p)) for i, p in enumerate(plan)
            ]
            sched.join_all(threads)
            mid = [r for r in world.results]
            settle(ch, world)
            ch.outcome((mid, world.env.states[:12]))

        try:
            done = sched.run(ch, main, timers=timers)
            for name, err in sched.errors(done):
                if world.may_raise and str(err) == "mine":
                    continue
                raise Violation(f"{name} raised {type(err).__name__}: {err}")
            judge_trace(ch, world)
        finally:
            world.close()

    return body


def history(kind, depth):
    """Every sequence of operations by one thread, the worker keeping up."""
    acts = ["start", "stop", "pause", "unpause", "restart", "p-start",
            "p-stop", "p-pause", "p-unpause", "s-restart", "none", "s-bogus",
            "wait", "end"]
    skip = {
        "start": {"starting", "running"},
        "stop": {"stopping", "idle"},
        "pause": {"paused"},
        "unpause": {"idle", "running"},
        "restart": set(),
    }

    def body(ch):
        sched.watch(LOCKS)
        world = World(kind, ch)

        def main():
            state = "idle"
            daemon = world.daemon
            for _ in range(depth):
                act = ch.pick(acts)
                if act == "end":
                    break
                if act == "wait":
                    mark = world.iters
                    sched.v_sleep(0.35)
                    grown = world.iters - mark
                    if kind == "sync":
                        ch.check(
                            grown >= 3 if state == "running" else grown == 0,
                            f"{grown} iterations while {state}",
                        )
                    continue
                before = len(world.env.states)
                res, _, __ = world.do(act)
                how, _, oper = act.rpartition("-")
                want = state
                if act in ("none", "s-bogus"):
                    ok = False
                elif how and state in skip[oper]:
                    ok = True
                elif oper == "start":
                    ok = state == "idle"
                    want = "running" if ok else state
                elif oper == "stop":
                    ok = state == "running"
                    want = "idle" if ok else state
                elif oper == "pause":
                    ok = state == "running"
                    want = "paused" if ok else state
                elif oper == "unpause":
                    ok = state == "paused"
                    want = "running" if ok else state
                else:
                    ok = state == "running"
                ch.equal(res, ok, f"{act} when {state}")
                if not ok:
                    ch.equal(
                        len(world.env.states), before, "state changes"
                    )
                # let the worker arrive
                for _ in range(50):
                    if daemon.get_state().name.lower() == want:
                        break
                    sched.v_sleep(0.001)
                ch.equal(
                    daemon.get_state().name.lower(), want, f"after {act}"
                )
                ch.equal(daemon.get_state_str(), want, "state string")
                state = want
                ch.state((state, act))
            settle(ch, world)

        try:
            done = sched.run(ch, main, timers=False, preempt=False)
            for name, err in sched.errors(done):
                raise Violation(f"{name} raised {type(err).__name__}: {err}")
            judge_trace(ch, world)
        finally:
            world.close()
        ch.outcome(world.env.states)

    return body


def slow_stop(ch):
    """A stop whose worker does not end in time is not successful."""
    sched.watch(LOCKS)
    world = World("slow", ch)
    timeout = ch.pick([1, 10])

    def main():
        world.do("start")
        while not world.iters:
            sched.v_sleep(0.1)
        res = world.daemon.stop(timeout)
        ch.equal(res, timeout == 10, "stop")
        world.results.append(("stop", res))
        if not res:
            ch.equal(world.daemon.get_state(), DaemonState.STOPPING, "state")
            for oper in ("start", "stop", "pause", "unpause", "restart"):
                ch.equal(world.do(oper)[0], False, f"{oper} while stopping")
            sched.v_sleep(6.0)
        ch.equal(world.daemon.get_state(), DaemonState.IDLE, "state")
        ch.equal(world.do("start")[0], True, "start")
        sched.v_sleep(0.1)
        ch.equal(world.daemon.stop(10), True, "stop")
        world.results.append(("stop", True))
        ch.equal(
            world.env.get_metric("d.errors"), int(timeout == 1), "errors"
        )

    done = sched.run(ch, main, timers=False, preempt=False)
    for name, err in sched.errors(done):
        raise Violation(f"{name} raised {type(err).__name__}: {err}")
    judge_trace(ch, world)
    ch.outcome(timeout)


def scoped(kind):
    """booted(), paused() and serve() leave the daemon idle."""

    def body(ch):
        sched.watch(FEW)
        world = World(kind, ch)
        how = ch.pick(["booted", "paused", "serve", "raise", "short"])
        fail = how == "raise"

        def until():
            while world.daemon.get_state() != DaemonState.RUNNING:
                sched.v_sleep(0.01)

        def main():
            daemon = world.daemon
            if how == "serve":

                def main_thread(*_, **__):
                    until()
                    return 7

                ch.equal(daemon.serve(main_thread=main_thread), 7, "serve")
            else:
                try:
                    with daemon.booted():
                        if how != "short":
                            until()
                        if how == "paused":
                            with daemon.paused():
                                ch.equal(
                                    daemon.get_state(),
                                    DaemonState.PAUSED,
                                    "state",
                                )
                            ch.equal(
                                daemon.get_state(), DaemonState.RUNNING, "state"
                            )
                        if fail:
                            raise KeyError("mine")
                except KeyError:
                    ch.check(fail, "raised")
            ch.equal(daemon.get_state(), DaemonState.IDLE, "state")
            ch.equal(world.active, 0, "workers")

        done = sched.run(ch, main, timers=False)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        states = world.env.states
        for prev, curr in zip(states, states[1:]):
            ch.check(curr in NEXT[prev], f"{prev} -> {curr} in {states}")
        ch.outcome((how, states))
        world.close()

    return body


def queued(count):
    """A queue daemon handles everything queued before the stop, in order."""

    def body(ch):
        sched.watch(FEW)
        queue, got = Queue(), []
        daemon = QueueDaemon("d", queue, got.append)

        def main():
            daemon.start()
            while daemon.get_state() != DaemonState.RUNNING:
                sched.v_sleep(0.01)

            def feed():
                for num in range(count):
                    queue.put(num)

            thread = sched.spawn("feed", feed)
            if ch.flag("await"):
                thread.join()
                daemon.await_empty()
            res = daemon.stop()
            ch.equal(res, True, "stop")
            thread.join()
            ch.equal(got, list(range(len(got))), "handled")
            ch.equal(daemon.get_state(), DaemonState.IDLE, "state")
            mark = len(got)
            ch.equal(mark + queue.qsize(), count, "handled or left")
            ch.equal(daemon.start(), True, "start")
            while daemon.get_state() != DaemonState.RUNNING:
                sched.v_sleep(0.01)
            ch.equal(daemon.stop(), True, "stop")
            ch.equal(got, list(range(count)), "handled at last")
            ch.equal(queue.unfinished_tasks, 0, "unfinished")
            ch.outcome(mark)

        done = sched.run(ch, main, timers=False)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")

    return body


def own_worker(oper):
    """Operations requested by the worker itself never raise."""

    def body(ch):
        sched.watch(FEW)
        queue, got = Queue(), []
        box = {}

        def handle(elem):
            if elem == "me":
                box["res"] = getattr(daemon, oper)()
            got.append(elem)

        daemon = QueueDaemon("d", queue, handle)

        def main():
            daemon.start()
            while daemon.get_state() != DaemonState.RUNNING:
                sched.v_sleep(0.01)
            queue.put("me")
            queue.put("after")
            sched.v_sleep(1.0)
            ch.check("res" in box, f"{oper} by the worker did not return")
            if oper in ("stop", "restart"):
                ch.equal(daemon.get_state(), DaemonState.IDLE, "state")
                ch.equal(daemon.start(), True, "start")
                while daemon.get_state() != DaemonState.RUNNING:
                    sched.v_sleep(0.01)
                ch.equal(daemon.stop(), True, "stop")
            elif oper == "pause":
                ch.equal(box["res"], True, "pause")
                ch.equal(daemon.unpause(), True, "unpause")
                ch.equal(daemon.stop(), True, "stop")
            else:
                ch.equal(box["res"], False, oper)
                ch.equal(daemon.stop(), True, "stop")
            ch.equal(got, ["me", "after"], "handled")
            ch.equal(daemon.get_state(), DaemonState.IDLE, "state")
            ch.outcome(box["res"])

        done = sched.run(ch, main, timers=False)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")

    return body


def stop_hook(ch):
    """Errors of a stop hook are reported, not mistaken for its absence."""
    sched.watch(LOCKS)
    world = World("sync", ch)
    called = []

    def hook():
        called.append(1)
        raise KeyError("hook")

    world.daemon.function["inject_stop"] = hook

    def main():
        world.do("start")
        sched.v_sleep(0.2)
        try:
            world.daemon.stop()
            ch.check(False, "an error of the stop hook was hidden")
        except KeyError:
            pass
        sched.v_sleep(1.0)
        ch.equal(world.daemon.get_state(), DaemonState.IDLE, "state")
        ch.equal(called, [1], "hook calls")

    sched.run(ch, main, timers=False, preempt=False)


def rates(ch):
    """set_rate: takes effect from then on; refused values change nothing."""
    sched.watch(LOCKS)
    world = World("sync", ch)
    rate = ch.pick([0.5, 0.02, 0.0, -1.0])

    def main():
        world.do("start")
        sched.v_sleep(0.35)
        world.daemon.set_rate(rate)
        want = rate if rate > 0 else 0.1
        ch.equal(world.daemon.get_rate(), want, "rate")
        sched.v_sleep(0.2)
        mark = world.iters
        sched.v_sleep(want * 10)
        grown = world.iters - mark
        ch.check(9 <= grown <= 11, f"{grown} iterations in ten periods")
        world.do("stop")

    sched.run(ch, main, timers=False, preempt=False)
    judge_trace(ch, world)
    ch.outcome(rate)


def scenarios(tier):
    deep = tier == "thorough"
    more = 2 if deep else 1
    out = [
        Scenario("history-sync", history("sync", 4 if deep else 3)),
        Scenario("history-queue", history("queue", 4 if deep else 2)),
        Scenario("history-http", history("http", 3 if deep else 2)),
        Scenario("slow-stop", slow_stop),
        Scenario("stop-hook", stop_hook),
        Scenario("rates", rates),
        Scenario("scoped-sync", scoped("sync"), more),
        Scenario("scoped-queue", scoped("queue"), more),
        Scenario("queued", queued(2), 2),
    ]
    for oper in ("stop", "restart", "start", "pause", "unpause"):
        out.append(Scenario(f"own-{oper}", own_worker(oper), more))
    plans = {
        "start-start": ([["start"], ["start"]], False),
        "start-stop": ([["start"], ["stop"]], False),
        "start-restart": ([["start"], ["restart"]], False),
        "stop-stop": ([["stop"], ["stop"]], True),
        "stop-start": ([["stop"], ["start"]], True),
        "stop-start2": ([["stop"], [0.05, "start", "stop"]], True),
        "stop-restart": ([["stop"], ["restart"]], True),
        "restart-restart": ([["restart"], ["restart"]], True),
        "restart-start": ([["restart"], ["start"]], True),
        "pause-stop": ([["pause", "unpause"], ["stop"]], True),
        "pause-pause": ([["pause"], ["pause"]], True),
        "pause-unpause": ([["pause", "unpause"], ["unpause", "pause"]], True),
        "pause-restart": ([["pause"], ["restart"]], True),
        "perform": ([["p-stop"], ["p-restart"]], True),
        "pausing": ([["pause", 0.5, "unpause"]], True),
        "three": ([["stop"], ["start"], ["pause"]], True),
    }
    for name, (plan, started) in plans.items():
        out.append(
            Scenario(
                name,
                concurrent("sync", plan, started),
                more + int(not {"start", "restart", "p-stop"} & set(sum(plan, []))),
            )
        )
    out.append(
        Scenario(
            "ending-stop", concurrent("ending", [["stop"], ["start"]], wait=0.05),
            more,
        )
    )
    out.append(
        Scenario(
            "ending-pause",
            concurrent("ending", [["pause"], ["unpause"]], wait=0.05),
            more,
        )
    )
    out.append(
        Scenario("raising", concurrent("raising", [["stop"], ["start"]]), more)
    )
    out.append(
        Scenario("queue-stop-start", concurrent("queue", [["stop"], ["start"]]),
                 more)
    )
    out.append(
        Scenario(
            "http-stop-start",
            concurrent("http", [["stop"], ["start"]], ops=FEW),
            more,
        )
    )
    out.append(
        Scenario(
            "loop-stop-start",
            concurrent("loop", [["stop"], ["start"]], ops=FEW),
            more,
        )
    )
    return out
