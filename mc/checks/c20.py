"""C20: state machines only move along accepted transitions and count them."""
from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from vtelem.classes.state import State
from vtelem.classes.state_machine import StateMachine
from vtelem.telemetry.environment import TelemetryEnvironment

from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "machines of three states; every answer of every hook at every call is "
    "enumerated, to the stated number of runs",
    "an iteration which ends because a hook raises (or names no state) may or "
    "may not be counted; the machine stays where it was",
    "schedules of 2-3 threads up to the stated number of preemptions, switches "
    "at lock operations, in hooks and at the stated instructions",
]
OPS = {
    "vtelem.classes.state_machine": sched.COARSE,
    "vtelem.classes.state": sched.COARSE,
}
FEW = {
    "vtelem.classes.state_machine": {"LOAD_ATTR", "STORE_ATTR"},
    "vtelem.classes.state": {"LOAD_ATTR"},
    "vtelem.channel.group": {"CALL"},
}
NAMES = ["a", "b", "c"]
MACHINE = ["enter_fails", "exit_fails", "transitions", "iterations"]
STATE = ["enter_attempts", "enter_successes", "exit_attempts",
         "exit_successes", "iterations"]


class Name(str):
    """A name that is equal to, but not the same object as, another one."""


class Boom(Exception):
    """What hooks raise."""


def new_env():
    return TelemetryEnvironment(1500, app_id_basis=0.5)


def metric(env, name):
    """The value of a metric."""
    chan = env.channel_registry.get_id(name)
    if chan is None:
        raise Violation(f"no metric {name}")
    return env.get_value(chan)


class World:
    """A machine whose hooks do as chosen."""

    def __init__(self, ch, metered, hooks=True):
        self.ch = ch
        self.env = new_env() if metered else None
        self.log = []
        self.raised = 0
        self.answers = {"run": [], "leave": [], "enter": []}
        env = self.env

        def make(name):
            def run(data):
                self.log.append(("run", name, None, dict(data)))
                return self.answer("run", name, data)

            def entering(prev, data):
                self.log.append(("enter", name, prev, dict(data)))
                return self.answer("enter", name, data)

            def leaving(nxt, data):
                self.log.append(("leave", name, nxt, dict(data)))
                return self.answer("leave", name, data)

            if not hooks and name == "b":
                return State(name, run, env=env)
            return State(name, run, entering, leaving, env=env)

        self.states = {n: make(n) for n in NAMES}
        self.plan = {}

    def answer(self, kind, name, data):
        """What this hook does now."""
        what = self.ch.pick(self.plan[kind](name))
        data["last"] = (kind, name)
        self.answers[kind].append(what)
        if what == "raise":
            raise Boom()
        return Name(what) if kind == "run" and what else what


RUNS = {
    "full": lambda name: NAMES + ["nope", "raise", None],
    "plain": lambda name: NAMES,
}
EDGES = {
    "full": lambda name: [True, False, "raise", None, "yes", 2],
    "plain": lambda name: [True, False],

}


def history(count, kind, metered, hooks=True):
    """Every history of runs."""

    def body(ch):
        world = World(ch, metered, hooks)
        world.plan = {k: (lambda _: [True]) for k in ("enter", "leave")}
        first = ch.pick([None, "b"] if kind == "full" else [None] + NAMES)
        initial = world.states[first] if first else None
        data = {"x": 0} if kind == "full" or ch.flag("data") else None
        machine = StateMachine(
            "m", list(world.states.values()), initial, data, world.env
        )
        at = first or "a"
        model = {"x": 0} if data else {}
        hooked = hooks or at != "b"
        if hooked:
            ch.equal(
                world.log, [("enter", at, at, model)], "entering at first"
            )
            model["last"] = ("enter", at)
        else:
            ch.equal(world.log, [], "entering at first")
        if data is not None:
            ch.equal(data, {"x": 0}, "the caller's data")
        world.plan = {
            "run": RUNS[kind], "enter": EDGES[kind], "leave": EDGES[kind],
        }
        low = {n: dict.fromkeys(STATE, 0) for n in NAMES}
        low[at]["enter_attempts"] = low[at]["enter_successes"] = 1
        slack = {n: dict.fromkeys(STATE, 0) for n in NAMES}
        mach = dict.fromkeys(MACHINE, 0)
        mslack = dict.fromkeys(MACHINE, 0)
        for step in range(count):
            world.log.clear()
            for vals in world.answers.values():
                vals.clear()
            new = ch.pick([None, {"step": step}])
            if new:
                model["step"] = step
            before = at
            try:
                result = machine.run(new)
            except (Boom, AssertionError, TypeError, KeyError) as exc:
                result = exc
            # what should have happened
            expect = [("run", at, None, dict(model))]
            model["last"] = ("run", at)
            asked = world.answers["run"][0] if world.answers["run"] else None
            failed = asked not in NAMES
            if asked == "raise":
                slack[at]["iterations"] += 1
            else:
                low[at]["iterations"] += 1
            moved = False
            if not failed and asked != at:
                left = True
                if hooks or at != "b":
                    expect.append(("leave", at, asked, dict(model)))
                    model["last"] = ("leave", at)
                    vals = world.answers["leave"]
                    left = vals[0] if vals else "missing"
                failed = left == "raise"
                if failed:
                    slack[at]["exit_attempts"] += 1
                else:
                    low[at]["exit_attempts"] += 1
                    low[at]["exit_successes"] += int(bool(left))
                    if not left:
                        mach["exit_fails"] += 1
                if not failed and left:
                    got = True
                    if hooks or asked != "b":
                        expect.append(("enter", asked, at, dict(model)))
                        model["last"] = ("enter", asked)
                        vals = world.answers["enter"]
                        got = vals[0] if vals else "missing"
                    failed = got == "raise"
                    if failed:
                        slack[asked]["enter_attempts"] += 1
                    else:
                        low[asked]["enter_attempts"] += 1
                        low[asked]["enter_successes"] += int(bool(got))
                        if got:
                            moved = True
                            mach["transitions"] += 1
                        else:
                            mach["enter_fails"] += 1
            ch.equal(world.log, expect, "hooks called")
            if moved:
                at = asked
            if failed:
                mslack["iterations"] += 1
            else:
                mach["iterations"] += 1
            ch.equal(machine.current_state, at, "current state")
            if isinstance(result, tuple):
                ch.equal(
                    [s.name for s in result], [before, at], "states reported"
                )
                ch.check(
                    result[0] is world.states[before]
                    and result[1] is world.states[at],
                    "states reported",
                )
                ch.check(asked != "raise" and "raise" not in
                         world.answers["leave"] + world.answers["enter"],
                         "errors of hooks are hidden")
            else:
                ch.check(failed, f"raised {result!r}")
            with machine.data() as held:
                ch.equal(dict(held), model, "data")
            if metered:
                for name, want in mach.items():
                    got = metric(world.env, f"machine.m.{name}")
                    ch.check(
                        want <= got <= want + mslack[name],
                        f"{name} of the machine: {got}, expected {want}",
                    )
                for state in NAMES:
                    for name, want in low[state].items():
                        got = metric(world.env, f"state.{state}.{name}")
                        ch.check(
                            want <= got <= want + slack[state][name],
                            f"{name} of {state}: {got}, expected {want}",
                        )
            ch.state((at, sorted(model.items(), key=str), sorted(mach.items())))
        ch.outcome((at, sorted(mach.items())))

    return body


def refused(ch):
    """Machines that can't be made are refused."""
    world = World(ch, ch.flag("metered"))
    world.plan = {"enter": lambda _: [True, False, None, "raise"],
                  "leave": lambda _: [True]}
    what = ch.pick(["none", "unknown", "entering"])
    states = list(world.states.values())
    try:
        if what == "none":
            StateMachine("m", [], None, None, world.env)
        elif what == "unknown":
            StateMachine("m", states, State("zz"), None, world.env)
        else:
            StateMachine("m", states, states[1], None, world.env)
    except (AssertionError, IndexError, KeyError, Boom):
        made = False
    else:
        made = True
    want = what == "entering" and world.answers["enter"] == [True]
    ch.equal(made, want, f"{what}: machine made")
    if world.env is not None and not made:
        ch.check(
            world.env.channel_registry.get_id("machine.m.iterations") is None,
            "metrics of a machine that was refused",
        )
    ch.outcome((what, made))


def duplicates(ch):
    """States and machines of one name: metrics are exact or refused."""
    env = new_env()
    share = ch.pick(["state-name", "machine-name", "state"])

    def flip(_):
        return "b"

    first = [State("a", flip, env=env), State("b", env=env)]
    one = StateMachine("one", first, env=env)
    two = None
    try:
        if share == "state-name":
            other = [State("a", flip, env=env), State("c", env=env)]
            two = StateMachine("two", other, env=env)
        elif share == "machine-name":
            two = StateMachine("one", [State("x", env=env)], env=env)
        else:
            two = StateMachine("two", first, env=env)
    except AssertionError:
        ch.check(share != "state", "states can't be shared")
    ran = 0
    for _ in range(2):
        one.run()
    ch.equal(one.current_state, "b", "current state")
    ch.equal(metric(env, "machine.one.iterations"), 2, "iterations")
    ch.equal(metric(env, "machine.one.transitions"), 1, "transitions")
    if two is not None and share == "state":
        two.run()
        ran += 1
        ch.equal(metric(env, "state.a.iterations"), 1 + ran, "iterations of a")
        ch.equal(metric(env, "machine.two.iterations"), 1, "iterations")
    elif two is not None:
        raise Violation(f"{share}: accepted although metrics are ambiguous")
    ch.outcome(share)


# ------------------------------------------------------------- schedules


class Shared:
    """A machine that walks a circle, recording who runs what."""

    def __init__(self, env, refuse=(), pause=True, tag="m"):
        self.log = []
        self.inside = []
        self.faults = []
        self.tag = tag

        def hook(kind, name, peer, data):
            self.inside.append(sched.me())
            if any(t is not sched.me() for t in self.inside):
                self.faults.append("iterations overlap")
            self.log.append((sched.me().name, kind, name, peer,
                             data["who"] if "who" in data else None))
            if pause:
                sched.v_sleep(0.001)
            self.inside.pop()

        def make(name):
            nxt = NAMES[(NAMES.index(name) + 1) % 3]

            def run(data):
                hook("run", name, None, data)
                return nxt

            def entering(prev, data):
                if prev != name:
                    hook("enter", name, prev, data)
                return ("enter", name) not in refuse

            def leaving(to, data):
                hook("leave", name, to, data)
                return ("leave", name) not in refuse

            return State(name, run, entering, leaving, env=env)

        self.states = [make(n) for n in NAMES]


def together(ops, plan, refuse=(), metered=True, holder=False,
             pause=True):
    """plan: number of runs of each thread."""

    def body(ch):
        sched.watch(ops)
        env = new_env() if metered else None
        world = Shared(env, refuse, pause)
        machine = StateMachine("m", world.states, env=env)
        returned = []

        def runner(who, count):
            def func():
                for _ in range(count):
                    res = machine.run({"who": who})
                    returned.append((who, res[0].name, res[1].name))

            return func

        def hold():
            with machine.data() as data:
                before = len(world.log)
                data["held"] = True
                sched.v_sleep(0.01)
                if len(world.log) != before or world.inside:
                    world.faults.append("runs while the data is held")

        def main():
            threads = [
                sched.spawn(f"t{n}", runner(f"t{n}", count))
                for n, count in enumerate(plan)
            ]
            if holder:
                threads.append(sched.spawn("holder", hold))
            sched.join_all(threads)

        done = sched.run(ch, main, timers=False)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        for fault in world.faults:
            raise Violation(fault)
        # iterations, one after the other
        at, runs, pos = "a", [], 0
        fails = {"enter": 0, "leave": 0}
        moves = 0
        log = world.log
        total = sum(plan)
        for _ in range(total):
            nxt = NAMES[(NAMES.index(at) + 1) % 3]
            who = log[pos][0] if pos < len(log) else None
            want = [(who, "run", at, None, who), (who, "leave", at, nxt, who)]
            ok = ("leave", at) not in refuse
            if ok:
                want.append((who, "enter", nxt, at, who))
                if ("enter", nxt) in refuse:
                    ok = False
                    fails["enter"] += 1
            else:
                fails["leave"] += 1
            ch.equal(log[pos:pos + len(want)], want, "hooks of an iteration")
            pos += len(want)
            after = nxt if ok else at
            moves += int(ok)
            runs.append((who, at, after))
            at = after
        ch.equal(len(log), pos, "hooks called")
        ch.equal(machine.current_state, at, "current state")
        ch.equal(sorted(returned), sorted(runs), "states reported")
        if metered:
            for name, want in (
                ("iterations", total), ("transitions", moves),
                ("enter_fails", fails["enter"]), ("exit_fails", fails["leave"]),
            ):
                ch.equal(metric(env, f"machine.m.{name}"), want, name)
            for name in NAMES:
                ch.equal(
                    metric(env, f"state.{name}.iterations"),
                    sum(1 for e in log if e[1:3] == ("run", name)),
                    f"iterations of {name}",
                )
                ch.equal(
                    metric(env, f"state.{name}.exit_attempts"),
                    sum(1 for e in log if e[1:3] == ("leave", name)),
                    f"attempts to leave {name}",
                )
                ch.equal(
                    metric(env, f"state.{name}.enter_attempts"),
                    sum(1 for e in log if e[1:3] == ("enter", name))
                    + int(name == "a"),
                    f"attempts to enter {name}",
                )
        ch.outcome(runs)

    return body


def two_machines(ops, count):
    """Machines sharing their states run at once."""

    def body(ch):
        sched.watch(ops)
        env = new_env()

        def nxt(name):
            return lambda _: NAMES[(NAMES.index(name) + 1) % 3]

        states = [State(n, nxt(n), env=env) for n in NAMES]
        machines = [
            StateMachine(f"m{i}", states, env=env) for i in range(2)
        ]

        def runner(machine):
            def func():
                for _ in range(count):
                    machine.run()

            return func

        def main():
            sched.join_all([
                sched.spawn(m.name, runner(m)) for m in machines
            ])

        done = sched.run(ch, main, timers=False)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        for i, machine in enumerate(machines):
            ch.equal(machine.current_state, NAMES[count % 3], "current state")
            ch.equal(metric(env, f"machine.m{i}.iterations"), count, "runs")
            ch.equal(metric(env, f"machine.m{i}.transitions"), count, "moves")
        for pos, name in enumerate(NAMES):
            mine = 2 * sum(1 for k in range(count) if k % 3 == pos)
            ch.equal(
                metric(env, f"state.{name}.iterations"), mine, f"runs of {name}"
            )
            ch.equal(
                metric(env, f"state.{name}.exit_successes"), mine,
                f"leaves of {name}",
            )
        ch.outcome(count)

    return body


def scenarios(tier):
    deep = tier == "thorough"
    more = 3 if deep else 2
    return [
        Scenario("full", history(3 if deep else 2, "full", True)),
        Scenario("full-unmetered", history(3 if deep else 2, "full", False)),
        Scenario("plain", history(5 if deep else 3, "plain", True)),
        Scenario("no-hooks", history(4 if deep else 3, "plain", True, False)),
        Scenario("refused", refused),
        Scenario("duplicates", duplicates),
        Scenario("together-1x1", together(OPS, [1, 1]), more),
        Scenario(
            "together-busy", together(FEW, [1, 1], pause=False), more
        ),
        Scenario("together-2x1", together(OPS, [2, 1]), more),
        Scenario("together-3", together(FEW, [1, 1, 1]), more),
        Scenario(
            "together-refuse",
            together(OPS, [2, 1], {("enter", "c"), ("leave", "b")}), 2,
        ),
        Scenario("together-unmetered", together(OPS, [2, 2], (), False), 2),
        Scenario("held", together(OPS, [2], (), True, True), more),
        Scenario("two-machines", two_machines(FEW, 2), 2 if deep else 1),
    ]
